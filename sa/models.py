"""Transfer functions for everything outside the analysed source (libc, OpenSSL, libstdc++, jsmn,
minIni, the HTTP client) and for the repository's container, crypto and (de)serialisation API, whose
own bodies are analysed as separate roots against the same contract."""
import re
from .engine import (TM_RANGE, U, Undef, BIG, Stop, Obj, iv, ladd, assume, truth, st_isnull, ptrs_in, lin, unlink, short, is_bool)

# ---- return classes: (success range, failure range); None = that outcome does not exist
RET = {
    'inz': ((1, 1), (0, 0)),              # 1 ok, 0 error
    'ip': ((1, BIG), (-BIG, 0)),          # >0 ok
    'ip0': ((1, BIG), (0, 0)),            # size, 0 error
    'i1': ((1, 1), (-2, 0)),              # 1 ok, 0 or negative error
    'i0': ((0, BIG), (-BIG, -1)),         # >=0 ok
    'iz': ((0, 0), None),                 # 0 ok, anything else error (two failure states)
    'i00': ((0, 0), (-1, -1)),
}


class Spec:
    __slots__ = ('ret', 'nn', 'out', 'free', 'quiet', 'wr', 'esc', 'get', 'consume', 'frees_ok')

    def __init__(self, ret, nn='', out=None, free=None, quiet=False, wr='', esc='', consume=None):
        self.ret = ret
        self.nn = [int(c) for c in nn]           # arguments that must not be NULL
        self.out = out or {}                     # arg -> family stored through it on success
        self.free = free or {}                   # arg -> family released
        self.quiet = quiet                       # failure is not an error to propagate
        self.wr = [int(c) for c in wr]           # arguments whose pointee is overwritten
        self.esc = [int(c) for c in esc]         # ownership taken on success
        self.consume = consume


def S(*a, **k):
    return Spec(*a, **k)


EXT = {
    # ---- libc
    'strdup': S('p:malloc', '0'), 'fopen': S('p:FILE', '1'),
    'fclose': S('iz', '0', free={0: 'FILE'}, quiet=True),
    'fflush': S('n'), 'setbuf': S('v'), 'umask': S('n'), 'getenv': S('g'), 'basename': S('G', '0'),
    'fprintf': S('n', '0'), 'vfprintf': S('n', '0'), 'printf': S('n'), 'puts': S('n'), 'fputs': S('n'),
    'putchar': S('n'), 'fputc': S('n'), 'fwrite': S('n'),
    'strerror': S('G'), 'time': S('n', wr='0'), 
    'localtime': S('tm'), 'gmtime': S('tm'), 'localtime_r': S('tm1'), 'gmtime_r': S('tm1'),
    'strptime': S('gf', '012', wr='2'), 'strftime': S('inz', '023', wr='0'), 'timegm': S('n'), 'mktime': S('n'),
    'read': S('rd', '1', wr='1'), 'rand': S('n+'), 'srand': S('v'), 'tolower': S('n'), 'toupper': S('n'),
    'isspace': S('n'), 'isdigit': S('n'), 'isprint': S('n'), 'isxdigit': S('n'), 'iscntrl': S('n'),
    'strchr': S('g', '0'), 'strstr': S('g', '01'), 'strrchr': S('g', '0'), 'memchr': S('g', '0'),
    'getopt': S('n'), 'atoi': S('n', '0'), 'strtol': S('n', '0', wr='1'), '__isoc23_strtol': S('n', '0', wr='1'),
    'strtoul': S('n', '0', wr='1'), '__isoc23_strtoul': S('n', '0', wr='1'),
    '__errno_location': S('G'), '__ctype_b_loc': S('G'), 'access': S('n', '0'),
    'stpcpy': S('G', '01', wr='0'), 'strcpy': S('a0', '01', wr='0'),
    # ---- OpenSSL
    'X509_new': S('p:X509'), 'X509_free': S('v', free={0: 'X509'}),
    'X509_set_version': S('inz', '0'), 'X509_set_pubkey': S('inz', '01'),
    'X509_sign': S('ip0', '012'), 'X509_verify': S('i1', '01'),
    'X509_set_serialNumber': S('inz', '01'), 'X509_gmtime_adj': S('gf'),
    'X509_getm_notAfter': S('G', '0'), 'X509_getm_notBefore': S('G', '0'),
    'X509_get0_notAfter': S('G', '0'), 'X509_get0_notBefore': S('G', '0'),
    'X509_set1_notAfter': S('inz', '0'), 'X509_set1_notBefore': S('inz', '0'),
    'X509_add_ext': S('inz', '01'), 'X509V3_EXT_conf_nid': S('p:X509_EXTENSION'),
    'X509_EXTENSION_free': S('v', free={0: 'X509_EXTENSION'}),
    'X509_NAME_new': S('p:X509_NAME'), 'X509_NAME_free': S('v', free={0: 'X509_NAME'}),
    'X509_NAME_add_entry_by_txt': S('inz', '01'), 'X509_set_subject_name': S('inz', '0'),
    'X509_set_issuer_name': S('inz', '01'), 'X509_get_subject_name': S('gf', '0'),
    'X509_get_issuer_name': S('gf', '0'), 'X509_NAME_get_index_by_NID': S('n', '0'),
    'X509_NAME_get_entry': S('g', '0'), 'X509_NAME_ENTRY_get_data': S('G', '0'),
    'X509_get_serialNumber': S('G', '0'), 'X509_get0_serialNumber': S('G', '0'),
    'X509_get_pubkey': S('p:EVP_PKEY', '0'), 'X509_get0_pubkey': S('gf', '0'),
    'X509_dup': S('p:X509', '0'), 'X509_up_ref': S('inz', '0'), 'X509_check_private_key': S('inz', '01'),
    'X509_NAME_print_ex': S('i0', '01'), 'X509_NAME_cmp': S('n', '01'), 'X509_cmp': S('n', '01'),
    'ASN1_INTEGER_new': S('p:ASN1_INTEGER'), 'ASN1_INTEGER_free': S('v', free={0: 'ASN1_INTEGER'}),
    'ASN1_INTEGER_set_uint64': S('inz', '0'), 'ASN1_INTEGER_get_uint64': S('inz', '01', wr='0'),
    'ASN1_INTEGER_set_int64': S('inz', '0'), 'ASN1_INTEGER_set': S('inz', '0'),
    'ASN1_STRING_free': S('v', free={0: 'ASN1_STRING'}), 'ASN1_TIME_free': S('v', free={0: 'ASN1_STRING'}),
    'ASN1_TIME_set': S('p:ASN1_STRING'), 'ASN1_TIME_new': S('p:ASN1_STRING'),
    'ASN1_TIME_set_string': S('inz', '1'), 'ASN1_TIME_set_string_X509': S('inz', '01'),
    'ASN1_TIME_normalize': S('inz'), 'ASN1_TIME_adj': S('gf'),
    'ASN1_STRING_to_UTF8': S('i0', '01', out={0: 'malloc'}),
    'CRYPTO_free': S('v', free={0: 'malloc'}),
    'SSL_get0_peer_certificate': S('g', '0'), 'SSL_get1_peer_certificate': S('p:X509', '0', quiet=True),
    'BIO_new_ex': S('p:BIO'), 'BIO_new': S('p:BIO'), 'BIO_s_mem': S('G'), 'BIO_new_file': S('p:BIO', '01'),
    'BIO_new_mem_buf': S('p:BIO', '0'),
    'BIO_free': S('inz', free={0: 'BIO'}, quiet=True), 'BIO_free_all': S('v', free={0: 'BIO'}),
    'BIO_write': S('i0', '01'), 'BIO_puts': S('ip', '01'), 'BIO_read': S('ip', '01', wr='1'), 'BIO_write_ex': S('inz', '01'),
    'CMS_sign': S('p:CMS'), 'CMS_verify': S('inz', '0'), 'CMS_ContentInfo_free': S('v', free={0: 'CMS'}),
    'CMS_get0_signers': S('p:SK', '0', quiet=True), 'CMS_get1_certs': S('p:SKX', '0'), 'CMS_add1_cert': S('inz', '01'),
    'd2i_CMS_ContentInfo': S('d2i:CMS', '1'), 'd2i_X509': S('d2i:X509', '1'), 'd2i_X509_CRL': S('d2i:X509_CRL', '1'),
    'd2i_PrivateKey': S('d2ik:EVP_PKEY', '2'), 'd2i_AutoPrivateKey': S('d2i:EVP_PKEY', '1'),
    'i2d_CMS_bio': S('inz', '01'), 'i2d_X509': S('i2d', '0'), 'i2d_PrivateKey': S('i2d', '0'),
    'i2d_CMS_ContentInfo': S('i2d', '0'),
    'SMIME_write_CMS': S('inz', '01'), 'PEM_write_X509': S('inz', '01'), 'PEM_write_PrivateKey': S('inz', '01'),
    'PEM_write_bio_X509': S('inz', '01'), 'PEM_write_bio_PrivateKey': S('inz', '01'), 'PEM_write_bio_CMS': S('inz', '01'),
    'PEM_read_X509': S('p:X509', '0'), 'PEM_read_PrivateKey': S('p:EVP_PKEY', '0'),
    'EVP_PKEY_CTX_new': S('p:EVP_PKEY_CTX', '0'), 'EVP_PKEY_CTX_new_id': S('p:EVP_PKEY_CTX'),
    'EVP_PKEY_CTX_new_from_name': S('p:EVP_PKEY_CTX'),
    'EVP_PKEY_CTX_free': S('v', free={0: 'EVP_PKEY_CTX'}),
    'EVP_PKEY_CTX_set_ec_paramgen_curve_nid': S('i1', '0'), 'EVP_PKEY_CTX_set_rsa_keygen_bits': S('i1', '0'),
    'EVP_PKEY_paramgen_init': S('i1', '0'), 'EVP_PKEY_paramgen': S('i1', '01', out={1: 'EVP_PKEY'}),
    'EVP_PKEY_keygen_init': S('i1', '0'), 'EVP_PKEY_keygen': S('i1', '01', out={1: 'EVP_PKEY'}),
    'EVP_PKEY_free': S('v', free={0: 'EVP_PKEY'}), 'EVP_PKEY_up_ref': S('inz', '0'), 'EVP_sha256': S('G'),
    'RAND_bytes': S('i1', '0', wr='0'), 'RAND_priv_bytes': S('i1', '0', wr='0'),
    'X509_STORE_new': S('p:X509_STORE'), 'X509_STORE_free': S('v', free={0: 'X509_STORE'}),
    'X509_STORE_add_cert': S('inz', '0'), 'X509_STORE_add_crl': S('inz', '0'), 'X509_CRL_free': S('v', free={0: 'X509_CRL'}),
    'X509_STORE_set_flags': S('inz', '0'), 'X509_STORE_set_purpose': S('inz', '0'),
    'X509_build_chain': S('p:SKX', '0'),
    'X509_STORE_CTX_new': S('p:X509_STORE_CTX'), 'X509_STORE_CTX_free': S('v', free={0: 'X509_STORE_CTX'}),
    'X509_STORE_CTX_init': S('inz', '0'), 'X509_verify_cert': S('i1', '0'),
    'X509_STORE_CTX_set_flags': S('v', '0'), 'X509_STORE_CTX_set0_trusted_stack': S('v', '0'),
    'X509_STORE_CTX_get_error': S('n', '0'), 'X509_STORE_CTX_set_purpose': S('inz', '0'),
    'X509_STORE_CTX_get0_param': S('G', '0'), 'X509_VERIFY_PARAM_set_flags': S('inz', '0'),
    'X509_STORE_CTX_set_time': S('v', '0'), 'X509_verify_cert_error_string': S('G'),
    'OPENSSL_sk_new_null': S('p:SKX'), 'OPENSSL_sk_new_reserve': S('p:SKX'), 
    'OPENSSL_sk_free': S('v', free={0: 'SK*'}),
    'OPENSSL_sk_pop_free': S('v', free={0: 'SKX'}),
    'OPENSSL_sk_pop': S('g'), 'OPENSSL_sk_shift': S('g'),
    'ERR_get_error': S('n'), 'ERR_peek_error': S('n'), 'ERR_peek_last_error': S('n'), 'ERR_clear_error': S('v'), 'ERR_error_string': S('G'),
    'ERR_reason_error_string': S('g'), 'ERR_error_string_n': S('v', wr='1'), 'ERR_print_errors_fp': S('v'),
    'ossl_check_X509_sk_type': S('a0'), 'ossl_check_const_X509_sk_type': S('a0'), 'ossl_check_X509_type': S('a0'),
    'ossl_check_X509_freefunc_type': S('a0'),
    # ---- jsmn / minIni
    'jsmn_init': S('v', '0', wr='0'), 'jsmn_parse': S('i0', '0', wr='03'),
    'ini_gets': S('n+', wr='3'), 'ini_getl': S('n'), 'ini_getkey': S('n+', wr='2'), 'ini_getbool': S('n'), 'ini_browse': S('n'),
    # ---- C++ runtime
    '_Znwm': S('P:new'), '_ZdlPv': S('v', free={0: 'new'}), '_ZdlPvm': S('v', free={0: 'new'}),
    '__cxa_atexit': S('n'), '__cxa_begin_catch': S('G'), '__cxa_end_catch': S('v'), '__cxa_free_exception': S('v'),
    '__cxa_allocate_exception': S('P:exception'),
}

# ---- the repository's own API (each body is analysed separately as a root)
API = {
    'init_array_list': S('p:array_list'), 'free_array_list': S('v', free={0: 'array_list'}),
    'push_array_list': S('i00z'), 'init_keyvalue_list': S('p:keyvalue_list'),
    'free_keyvalue_list': S('v', free={0: 'keyvalue_list'}), 'push_keyvalue_list': S('i00z'),
    'init_ptr_list': S('p:ptr_list'), 'free_ptr_list': S('v', free={0: 'ptr_list'}), 'push_ptr_list': S('i00z'),
    'crypto_getrand': S('i00', '0', wr=''),
    'crypto_copycert': S('p:X509'), 'crypto_cert2buf': S('pba'), 'crypto_getcert_meta': S('i00', '1'),
    'crypto_getcert_issuer': S('pba'), 'crypto_getcert_serial': S('gs', '0'),
    'crypto_generate_rsakey': S('pba'), 'crypto_generate_eckey': S('i0', '0', out={0: 'malloc'}),
    'crypto_free_keycontext': S('v', free={0: 'EVP_PKEY'}), 'crypto_free_certcontext': S('v', free={0: 'X509'}),
    'crypto_eckey2context': S('p:EVP_PKEY'), 'crypto_rsakey2context': S('p:EVP_PKEY'),
    'crypto_key2context': S('p:EVP_PKEY'), 'crypto_cert2context': S('p:X509'),
    'crypto_generate_eccert': S('i0', '03', out={3: 'malloc'}), 'crypto_generate_rsacert': S('i0', '03', out={3: 'malloc'}),
    'crypto_sign_cert': S('i0r', '5', out={5: 'malloc'}),
    'crypto_verify_cert': S('i00'),
    'crypto_sign_eccms': S('i0', '7', out={7: 'malloc'}), 'crypto_sign_cms': S('i0', '7', out={7: 'malloc'}),
    'crypto_sign_rsacms': S('i0', '7', out={7: 'malloc'}),
    'crypto_verify_cms': S('i0', '03', out={3: 'malloc', 4: 'array_list?'}),
    'file_to_x509buf': S('pba'), 'file_to_keybuf': S('pba'),
    'cmsbuf_to_file': S('i00', '0'), 'certbuf_to_file': S('i00', '0'), 'keybuf_to_file': S('i00', '0'),
    'serialize_array2base64str': S('i0', '2', out={2: 'malloc'}),
    'serialize_base64str2array': S('i0z', '2', out={2: 'malloc'}),
    'serialize_bool2str': S('p:malloc'), 'serialize_str2bool': S('b3'),
    'serialize_time2str': S('p:malloc', '0'), 'serialize_str2time': S('i00', wr='1'),
    'serialize_localtime': S('p:malloc'), 'serialize_escapestr': S('p:malloc'),
    'serialize_keyvalue2json': S('p:malloc'),
    'serialize_voucher': S('p:malloc'), 'deserialize_voucher': S('pv'),
    'load_cert_files': S('i00z', '1', out={1: 'array_list?'}),
    'get_localtime': S('i00', wr='0'), 'set_keyvalue_voucher': S('i00', wr='0'),
    'load_config_value_list': S('i00z', '3', out={3: 'array_list'}),
    'load_brski_config': S('i00'), 'load_pledge_config': S('i00'), 'load_registrar_config': S('i00'),
    'load_masa_config': S('i00'), 'free_config_content': S('v'), 'free_pledge_config_content': S('v'),
    'free_registrar_config_content': S('v'), 'free_masa_config_content': S('v'),
    # request.h, seen from the protocol handlers
    'sign_pledge_voucher_request': S('pba'), 'sign_voucher_request': S('pba'), 'sign_masa_pledge_voucher': S('pba'),
    'verify_masa_pledge_voucher': S('vmpv', '0'),
}
# the protocol steps, seen from main (each is a root of its own)
MAIN_API = {
    'verify_masa_pledge_request': S('fill:3', '01'), 'post_voucher_pledge_request': S('fill:3', '01'),
    'post_sign_cert': S('fill:34', '01'), 'voucher_pledge_request_to_base64': S('p:malloc'),
    'voucher_pledge_request_to_smimefile': S('i00', '2'),
    'registrar_start': S('i00', '01', out={2: 'RegistrarContext'}), 'registrar_stop': S('v', free={0: 'RegistrarContext'}),
    'masa_start': S('i00', '01', out={3: 'MasaContext'}), 'masa_stop': S('v', free={0: 'MasaContext'}),
}
# callee -> (buffer argument, argument that says how much may be written to it)
BUFLEN = {'ini_gets': (3, 4), 'ini_getkey': (2, 3), 'read': (1, 2), 'BIO_read': (1, 2), 'RAND_bytes': (0, 1),
          'RAND_priv_bytes': (0, 1), 'strftime': (0, 1), 'ERR_error_string_n': (1, 2), 'BIO_gets': (1, 2), 'fread': (0, 2)}
FILLS = {'ERR_error_string': (1, 256)}      # callee -> (buffer argument, bytes it takes)
REFUSES_NULL = {'ASN1_TIME_normalize'}      # report failure when their first argument is NULL
REQUEST_API = {'sign_pledge_voucher_request', 'sign_voucher_request', 'sign_masa_pledge_voucher', 'verify_masa_pledge_voucher'}

EXEMPT_FAIL = {
    ('crypto_getcert_meta', 'ASN1_INTEGER_get_uint64'): 'the numeric serial is only written to the audit log',
    ('save_to_log', '*'): 'audit log line only (V24 decides what it must hold)',
    ('registrar_est_simpleenroll', 'crypto_cert2context'): 'the issued certificate is decoded for the audit log only',
}

LOGGERS = {'log_levels', 'log_errno_error', 'log_error_exit', 'log_error_exit_proc', 'log_cmdline_error',
           'log_error_exit_proc', 'print_to'}

CONFIG_FREE = ('free_config_content',)
SK = ('SK', 'SKX')


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.opt_fields = {('Voucher', 'serial_number'): 'the serial-number of a voucher',
                           ('Voucher', 'array'): 'a binary attribute of a voucher'}
        for c in ('pledge_config', 'registrar_config', 'masa_config'):
            for n, t in prog.field_types(c).items():
                if t and t.endswith('*'):
                    self.opt_fields[(c, n)] = 'the optional configuration value ' + n    # (struct, field path) -> description: pointer members that may be NULL
        self.param_null = {}          # (function, parameter index) whose NULL must be refused
        self.exempt_fail = dict(EXEMPT_FAIL)   # (function of the call site, callee) -> reason
        self.ret_ok = {}              # function -> how success is told: 'neg','null','status','zero','none'
        self.owned_struct = {'Voucher'}
        self.use_request_api = True
        self.vec_one = False
        self.no_api = set()

    # ------------------------------------------------------------ choice
    def lookup(self, E, src, name, fn):
        root = E.fname(E.root)
        if src in LOGGERS and root not in LOGGERS and src not in self.no_api:
            return m_skip
        if fn is not None and src in MAIN_API and root == 'main' and src not in self.no_api:
            return lambda E, st, inst, av, src: apply(E, st, inst, av, src, MAIN_API[src])
        if fn is not None and src in API and src != root and src not in self.no_api:
            if src in REQUEST_API and not self.use_request_api:
                return None
            if src.endswith('_config_content') and root in CONFIG_LOAD[1:] + CONFIG_FREE:
                return None
            return SPECIAL.get(src, m_api)
        if fn is not None and name in EXT and (fn.linkonce or name.startswith(('ossl_check', 'jsmn_'))):
            return m_ext
        if fn is None:
            if name in SPECIAL:
                return SPECIAL[name]
            if name in EXT:
                return m_ext
            if name.startswith('_Z'):
                return m_cxx
        elif fn.linkonce and not self.inline(E, fn, src):
            return m_cxx
        elif fn.internal and fn.name.startswith('_ZNSt8function') and '/src/' not in fn.mod.fn_file(fn):
            return m_cxx          # instantiated for a closure type
        return None

    def inline(self, E, fn, src):
        fl = fn.mod.fn_file(fn)
        if '/src/' in fl and not fl.startswith('/usr') and 'httplib.h' not in fl:
            return True
        if fn.name.startswith('_Z') and not fn.name.startswith('_ZL'):
            d = self.prog.dem(fn.name)
            if d == fn.name and re.match(r'_ZNK?St(5tuple|11_Tuple_impl|10_Head_base|10unique_ptr|15__uniq_ptr)', d) and 'basic_string' not in d:
                return True          # templates c++filt cannot print
            head = d.split('(')[0]
            if INL(head) or 'std::make_unique<' in head:
                return True
            if 'basic_string' in head or 'vector' in head or 'std::map' in head or 'std::function' in head:
                return False
            if re.search(r'unique_ptr|std::tuple|_Tuple_impl|_Head_base|std::move|std::forward|std::get<|__uniq_ptr|std::__get_helper|std::swap|nullptr|std::addressof|std::exchange|CrypoCertMeta|BrskiConfig', head + d):
                return 'basic_string' not in d.split('unique_ptr')[0]
        if fn.dbg is None or fl.startswith('/usr'):
            return False
        return 'httplib' not in fl

    # ------------------------------------------------------------ provenance of possibly-NULL pointers
    def lazy_prov(self, E, st, o, off, fpath, ft):
        if o.tname and fpath:
            d = self.opt_fields.get((o.tname.split('[')[0], fpath.split('.')[-1])) or self.opt_fields.get((o.tname, fpath))
            if d and fpath.split('.')[-1] in ('tls_key_path', 'tls_cert_path') and \
                    any('ResponseHeader' in t for t in self.prog.param_types(E.root)):
                return None         # a request handler runs only inside a server that loaded both files
            if d:
                return d
        return None

    def param_prov(self, E, fn, i, nm, tn):
        d = self.param_null.get((E.fname(fn), i))
        return ('parameter %d of %s' % (i, E.fname(fn))) if d else None

    callbacks = ()

    def ret_kind(self, E, fn):
        src = E.fname(fn)
        if src in self.ret_ok:
            return self.ret_ok[src]
        t = self.prog.ret_type(fn)
        if t is None or t == 'void':
            return 'none'
        if t.endswith('*') or t in ('CRYPTO_CERT', 'CRYPTO_KEY'):
            return 'null'
        pts = self.prog.param_types(fn)
        if any('ResponseHeader' in p for p in pts):
            return 'status'
        if src == 'main':
            return 'zero'
        if t in ('int', 'ssize_t', 'long'):
            return 'neg'
        return 'none'

    # ------------------------------------------------------------ hooks
    def on_free(self, E, st, o, inst):
        """a struct whose members own memory must have had them released (or emptied) first"""
        if o.tname in self.owned_struct and o.init == 'lazy':
            d = st.mem.get(o.oid) or {}
            for path, off, t in self.prog.pointer_fields(o.tname):
                if 'const' in t or path.endswith('tm_zone'):
                    continue
                c = d.get(off)
                if c is not None and c[0] == 0:
                    continue
                oid = '%s.%s' % (o.oid, off) if not st.ext.get(o.oid) else '%s~%d.%s' % (o.oid, st.ext[o.oid], off)
                if c is not None and isinstance(c[0], tuple) and c[0][0] == 'p':
                    oid = c[0][1]
                if st.stt.get(oid) == 'F' or st.nn.get(oid) is False or oid in st.esc:
                    continue
                E.oblige('owned-member')
                E.error(st, 'leak', inst, 'member %s.%s is not released before the object is' % (o.tname, path))

    def at_end(self, E, st, v, inst):
        E.oblige('exit')
        root = E.fname(E.root)
        live = E.live_objs(st, (v,) if v is not None else (), end=True)
        for oid, o in st.objs.items():
            if root == 'main':
                break               # the process ends here
            if o.kind == 'heap' and st.stt.get(oid) == 'L' and oid not in live and o.fam != 'exception':
                E.error(st, 'leak', inst, '%s obtained at %s:%d is not released on this path' % (o.fam, o.site[0], o.site[1]))
        # released memory still published through memory the caller sees
        for oid in live:
            o = st.objs.get(oid)
            if o is None or o.kind in ('alloca', 'heap') and oid not in live:
                continue
            if o.kind == 'alloca' or st.stt.get(oid) == 'F' or E.root.internal:
                continue
            d = st.mem.get(oid)
            if not d:
                continue
            for k, c in d.items():
                if k == 'r' or not isinstance(c[0], tuple) or c[0][0] != 'p':
                    continue
                if st.stt.get(c[0][1]) == 'F' and st.objs[c[0][1]].kind != 'alloca':
                    t = st.objs[c[0][1]]
                    if t.kind == 'heap':
                        E.error(st, 'dangling', inst, '%s returns leaving a pointer to released memory in memory the caller owns (%s)' % (root, E.objdesc(t)))
                elif st.stt.get(c[0][1]) == 'F' and o.kind in ('lazy', 'global'):
                    E.error(st, 'dangling', inst, '%s returns leaving the address of a dead local variable behind' % root)
        rk = self.ret_kind(E, E.root)
        rtn = (self.prog.ret_type(E.root) or '').replace('*', '').replace('struct ', '').replace('const ', '').strip()
        for oid in live:
            o = st.objs.get(oid)
            tn = o and (o.tname or isinstance(v, tuple) and v[:2] == ('p', oid) and rtn)
            if o is None or tn not in LENGTHS or o.kind == 'alloca' or st.stt.get(oid) == 'F' or oid not in st.mem:
                continue
            if rk == 'neg' and v not in (None, U) and iv(st, v)[1] < 0 or rk == 'null' and v not in (None, U) and st_isnull(st, v) == 1:
                break                # failed
            fo = self.prog.fields(tn) or {}
            a, n = LENGTHS[tn]
            if a not in fo or n not in fo or fo[a] not in st.mem[oid]:
                continue
            p, ln = E.peek(st, o, fo[a], ('ptr',), 8, inst), E.peek(st, o, fo[n], ('i', 64), 8, inst)
            E.oblige('length-handed-out')
            if not wrong_length(E, st, p, ln):
                continue
            E.error(st, 'length', inst, '%s hands out bytes with a length that is not theirs' % root)
        if isinstance(v, tuple) and v[0] == 'p' and v[2] != 0 and v[1] in st.objs and not v[1].startswith('@'):
            o, n = st.objs[v[1]], st.nn.get(v[1])
            if o.kind == 'lazy' and (n is False or n is None and o.prov):
                E.error(st, 'null', inst, '%s returns the address of a member of %s, which may be NULL here' % (root, o.prov or 'an object'))
        elif isinstance(v, int) and 0 < v < 4096 and (E.prog.ret_type(E.root) or '').endswith('*'):
            E.error(st, 'null', inst, '%s returns the address of a member of an object that is NULL here' % root)
        if rk == 'neg' and E.root.internal and E.root.name in self.callbacks:
            rk = 'none'
        if rk == 'null' and isinstance(v, tuple) and v[0] == 'p' and st.stt.get(v[1]) == 'F':
            E.error(st, 'dangling', inst, '%s returns memory it has already released' % root)
        if rk == 'none' or not st.fails:
            return
        E.oblige('error-path')
        ok = None
        if rk == 'null':
            n = st_isnull(st, v) if v is not None and v != U else None
            ok = n != 1
        else:
            lo, hi = iv(st, v) if v not in (None, U) else (-BIG, BIG)
            if rk == 'neg':
                ok = hi >= 0
            elif rk == 'status':
                ok = lo < 400
            elif rk == 'zero':
                ok = lo <= 0 <= hi
        if ok:
            for name, fl, owner in st.fails:
                if name.endswith('(HTTP error status)') and rk == 'neg' and (lo >= 400 or hi < 0):
                    continue
                if any((o, n) in self.exempt_fail for o in owner for n in (name, '*')):
                    continue
                E.error(st, 'error-lost', inst, 'after %s fails at %s:%d, %s can still report success' % (name, fl[0], fl[1], root))

    # ------------------------------------------------------------ misc models
    def intrinsic(self, E, st, fr, inst, name, av):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            check_pairs(E, st, inst, 'memcpy', [v for _, v, _ in av])
            E.memcpy(st, av[0][1], av[1][1], av[2][1], inst)
            return [(st, None)]
        if name.startswith('llvm.memset'):
            if av[2][1] != 0:
                m_memset(E, st, inst, av, 'memset')
            return [(st, None)]
        if name.startswith('llvm.va_start'):
            va = (st.user or {}).get('va:%d' % (len(st.frames) - 1), [])
            p = av[0][1]
            o, off = E.access(st, p, inst, None, 'written')
            if o is not None and isinstance(off, int):
                # System V va_list: the register save area holds the integer arguments in order
                rs = 'V:%s' % fr.ctx
                st.objs[rs] = Obj(rs, 'alloca', size=None, init='undef')
                st.mem.pop(rs, None)
                so = st.objs[rs]
                if 'va:%d' % (len(st.frames) - 1) not in (st.user or {}):
                    st.ext[rs] = 1      # entered from outside: any arguments
                for i, a in enumerate(va):
                    E.poke(st, so, 8 * i, a, 8)
                E.poke(st, o, off, 8 * len(fr.fn.params), 4)
                E.poke(st, o, off + 4, 48, 4)
                E.poke(st, o, off + 8, ('p', rs, 48), 8)
                E.poke(st, o, off + 16, ('p', rs, 0), 8)
            return [(st, None)]
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            return None
        if name.startswith('llvm.eh.typeid'):
            return [(st, 1)]
        r = E.unk(st, inst, inst.a[0]) if inst.a[0][0] != 'void' else None
        return [(st, r)]

    def unknown(self, E, st, inst, av, src):
        for ty, v, bv in av:
            if isinstance(v, tuple):
                use(E, st, v, inst, src)
                E.escape(st, v)
                E.havoc(st, v)
        r = E.unk(st, inst, inst.a[0]) if inst.a[0][0] != 'void' else None
        if src in E.cfg.record:
            st.ev = (st.ev, (src, tuple(v for _, v, _ in av), E.loc(inst), r, None))
        return [(st, r)]

    def indirect(self, E, st, inst, av, src):
        """call through a function pointer. The voucher callback fills the certificate it is given."""
        vals = [v for _, v, _ in av]
        sn = E.cfg.snap(E, st, 'indirect', tuple(vals)) if E.cfg.snap and 'indirect' in E.cfg.record else None
        fails = st.copy()
        last = vals[-1] if vals else None
        if len(vals) == 4 and isinstance(last, tuple) and last[0] == 'p' and inst.a[0][0] == 'i':
            o = E.obj(st, last[1])
            p = E.alloc(st, inst, 'malloc', size=None, init='lazy')
            st.cont[p[1]] = ('cb', p[1])
            E.poke(st, o, last[2], p, 8)
            E.poke(st, o, last[2] + 8, ('s', 'len:' + p[1], 64, (0, 1 << 40)), 8)
            r = ('s', E.site(st, inst) + 'ok', 32, (0, (1 << 31) - 1))
            f = ('s', E.site(fails, inst) + 'fail', 32, (-(1 << 31), -1))
            rec(E, st, 'indirect', av, inst, r, sn)
            rec(E, fails, 'indirect', av, inst, f, sn)
            addfail(E, fails, 'callback', inst)
            fails.forks += 1
            return [(st, r), (fails, f)]
        return self.unknown(E, st, inst, av, src)


# ---------------------------------------------------------------- generic pieces
def filled(E, st, inst, src, vals, k):
    """an in/out argument: what the pointer addresses is used as the buffer (object) to fill unless it is NULL"""
    p = vals[k] if k < len(vals) else 0
    o = E.obj(st, p[1]) if isinstance(p, tuple) and p[0] == 'p' else None
    if o is None or not isinstance(p[2], int):
        return
    v = E.peek(st, o, p[2], ('ptr',), 8)
    if type(v) is Undef:
        E.error(st, 'unset', inst, 'the pointer %s writes through was never set' % src)
    elif o.kind == 'lazy' and p[1] not in st.mem and isinstance(v, tuple) and v[0] == 'p' and st_isnull(st, v) != 1 \
            and len(st.frames) == 1:
        E.error(st, 'unset', inst, '%s writes through the pointer the caller left in its output argument' % src)


def use(E, st, v, inst, what):
    """an argument handed to a callee must not be released memory"""
    if isinstance(v, tuple) and v[0] == 'p':
        if st.stt.get(v[1]) == 'F':
            o = E.obj(st, v[1])
            E.error(st, 'uaf', inst, 'memory released earlier (%s) is passed to %s' % (E.objdesc(o) if o else v[1], what))
            raise Stop()


def need(E, st, v, inst, what, i):
    if v == 0:
        E.error(st, 'null', inst, 'NULL is passed as argument %d of %s' % (i + 1, what))
        raise Stop()
    if isinstance(v, tuple) and v[0] == 'p':
        o = E.obj(st, v[1])
        if o is not None and o.kind == 'lazy' and v[2] == 0:
            n = st.nn.get(v[1])
            if n is False:
                E.error(st, 'null', inst, 'a pointer known to be NULL here is passed as argument %d of %s' % (i + 1, what))
                raise Stop()
            if n is None:
                if o.prov:
                    E.error(st, 'null', inst, '%s may be NULL here and is passed as argument %d of %s' % (o.prov, i + 1, what))
                    raise Stop()
                st.nn[v[1]] = True
    E.oblige('non-null-argument')


def rec(E, st, src, av, inst, r, extra=None):
    if src in E.cfg.record or ('*' in E.cfg.record and src != 'free'):
        if extra is None and E.cfg.snap:
            extra = E.cfg.snap(E, st, src, [v for _, v, _ in av])
        st.ev = (st.ev, (src, tuple(v for _, v, _ in av), E.loc(inst), r, extra))


def addfail(E, st, name, inst):
    owner = tuple(dict.fromkeys(E.fname(fr.fn) for fr in st.frames))
    st.fails = st.fails + ((name, E.loc(inst), owner),)
    f, l = E.loc(inst)
    st.trace = (st.trace, '%s:%d: %s fails' % (f, l, name))


def setout(E, st, p, v, inst, size=8):
    """*p = v"""
    if not isinstance(p, tuple) or p[0] != 'p':
        return
    o, off = E.access(st, p, inst, size, 'written')
    if o is not None:
        E.poke(st, o, off, v, size)


def wtyped(inst):
    t = inst.a[0]
    return t[1] if t[0] == 'i' else 64


def newheap(E, st, inst, fam, tag='', **kw):
    init = kw.pop('init', 'lazy')
    p = E.alloc(st, inst, fam, init=init, tag=tag, **kw)
    return p


def ba(E, st, inst, src, av):
    """a fresh struct BinaryArray that owns its bytes"""
    s = newheap(E, st, inst, 'malloc', tag='ba', init='zero', size=40, tname='BinaryArray')
    d = newheap(E, st, inst, 'malloc', tag='bytes', size=None)
    st.cont[d[1]] = (src,) + tuple(E.content(st, v) for _, v, _ in av if isinstance(v, tuple) and v[0] == 'p')
    o = st.objs[s[1]]
    E.poke(st, o, 0, d, 8)
    E.lens[d[1]] = ('s', 'len:' + d[1], 64, (1, 1 << 40))
    E.poke(st, o, 8, E.lens[d[1]], 8)
    return s


# callee -> (argument that is read, argument that says how many bytes)
READLEN = {'BIO_new_mem_buf': (0, 1), 'BIO_write': (1, 2), 'BN_bin2bn': (0, 1), 'ASN1_STRING_set': (1, 2), 'write': (1, 2), 'memcpy': (1, 2), 'memmove': (1, 2),
           'EVP_DigestUpdate': (1, 2), 'X509_NAME_add_entry_by_txt': (3, 4)}
BYTES = ('uint8_t*', 'unsigned char*', 'char*', 'void*')


def lenpairs(E, inst, src):
    """(pointer, length) argument positions of a callee: fixed for libraries, read off the prototype for the project's functions"""
    c = E.lencache.get(src)
    if c is None:
        c = [READLEN[src]] if src in READLEN else []
        if src in API:
            name, _ = inst.a[1] if isinstance(inst.a[1], tuple) and inst.a[1][0] == 'f' else (None, None), 0
            fn = E.prog.find(name[1], inst.fn.mod) if name else None
            ts = [t.replace('const ', '').replace(' ', '') for t in E.prog.param_types(fn)] if fn is not None else []
            c = [(i, i + 1) for i in range(len(ts) - 1) if ts[i] in ('uint8_t*', 'unsignedchar*', 'char*', 'void*') and ts[i + 1] in ('size_t', 'unsignedlong', 'ssize_t')]
            sp = API[src]
            E.lencache[src, 's'] = {i: t[:-1].replace('struct', '') for i, t in enumerate(ts) if t[-1:] == '*' and t[:-1].replace('struct', '') in LENGTHS and
                                    i not in sp.free and i not in sp.out and i not in sp.wr}
        E.lencache[src] = c
    return c


def own_len(E, st, p):
    """the number of bytes at p, where the analysis knows which value holds it"""
    if not (isinstance(p, tuple) and p[0] == 'p' and p[2] == 0):
        return None
    if p[1] in E.lens:
        return E.lens[p[1]]
    o = st.objs.get(p[1])
    if o is not None and o.kind == 'heap' and o.size is not None:
        return o.size
    m = FIELD(p[1])
    if m and E.lenfield(st, m.group(1), int(m.group(2)) + 8):
        return ('s', '%s.%d' % (m.group(1), int(m.group(2)) + 8), 64)
    return None


def len_owner(E, st, n):
    """what a value is the length of"""
    if not (isinstance(n, tuple) and n[0] == 's'):
        return None
    if n[1].startswith('len:'):
        return n[1][4:]
    for oid, x in E.lens.items():
        if x == n or x[0] == 's' and x[1] == n[1]:
            return oid
    m = FIELD(n[1])
    if m and E.lenfield(st, m.group(1), int(m.group(2))):
        return '%s.%d' % (m.group(1), int(m.group(2)) - 8)
    return None


def check_pairs(E, st, inst, src, vals):
    pairs = lenpairs(E, inst, src)
    check_structs(E, st, inst, src, vals)
    for i, j in pairs:
        if j >= len(vals) or not isinstance(vals[i], tuple) or vals[i][0] != 'p':
            continue
        E.oblige('length-argument')
        own, n = own_len(E, st, vals[i]), vals[j]
        if own is None or n == U or n == own or isinstance(n, int):
            continue
        d = ladd(n, own, -1)
        if d != U and iv(st, d)[1] <= 0:
            continue
        who = len_owner(E, st, n)
        if (who is None or who == vals[i][1]) and not (d != U and iv(st, d)[0] > 0):
            continue
        E.error(st, 'length', inst, 'the length passed to %s is the length of another buffer than the one passed' % src)


LENGTHS = {'BinaryArray': ('array', 'length'), 'BinaryArrayList': ('arr', 'length')}


def wrong_length(E, st, p, ln):
    """is ln, stored beside the buffer p, known not to be its length"""
    own = own_len(E, st, p) if isinstance(p, tuple) and p[0] == 'p' else None
    if own is None or ln == U or ln == own or st.stt.get(p[1]) == 'F':
        return False
    d = ladd(ln, own, -1)
    if d != U and (iv(st, d)[1] <= 0 if p[1] not in E.lens else iv(st, d) == (0, 0)):
        return False
    return not (isinstance(ln, int) and not isinstance(own, int) and ln)


def check_structs(E, st, inst, src, vals):
    """buffers passed inside a structure carry their own length"""
    for i, tn in (E.lencache.get((src, 's')) or {}).items():
        v = vals[i] if i < len(vals) else U
        o = E.obj(st, v[1]) if isinstance(v, tuple) and v[0] == 'p' and v[2] == 0 else None
        if o is None or o.oid not in st.mem:
            continue
        fo = E.models.prog.fields(tn) or {}
        a, n = LENGTHS[tn]
        if a not in fo or n not in fo or fo[a] not in st.mem[o.oid] or fo[n] not in st.mem[o.oid]:
            continue
        E.oblige('length-passed')
        p, ln = E.peek(st, o, fo[a], ('ptr',), 8, inst), E.peek(st, o, fo[n], ('i', 64), 8, inst)
        if wrong_length(E, st, p, ln):
            E.error(st, 'length', inst, 'a structure passed to %s holds a buffer with a length that is not its own' % src)


def m_skip(E, st, inst, av, src):
    if src in ('log_error_exit', 'log_error_exit_proc'):
        return None
    rec(E, st, src, av, inst, None)
    return [(st, None if inst.a[0][0] == 'void' else E.unk(st, inst, inst.a[0]))]


def m_ext(E, st, inst, av, src):
    name, _ = E.callee(st, st.frames[-1], inst)
    return apply(E, st, inst, av, name or src, EXT[name])


def m_api(E, st, inst, av, src):
    return apply(E, st, inst, av, src, API[src])


def sk_only(E, st, o, inst):
    """only the stack is released: the elements pushed on it belong to the caller again"""
    for e in st.ext.get('ske:' + o.oid) or ():
        if e in st.objs and st.stt.get(e) == 'L':
            st.esc.discard(e)
    if o.fam == 'SKX' and o.tag == 'filled':
        E.error(st, 'leak', inst, 'the elements of the stack obtained at %s:%d are not released' % (o.site[0], o.site[1]))


def apply(E, st, inst, av, src, sp):
    vals = [v for _, v, _ in av]
    check_pairs(E, st, inst, src, vals)
    for i, v in enumerate(vals):
        if i not in sp.free and isinstance(v, tuple):
            use(E, st, v, inst, src)
    for i in sp.nn:
        if i < len(vals):
            need(E, st, vals[i], inst, src, i)
    for i, fam in sp.free.items():
        if i < len(vals):
            v = vals[i]
            f = fam
            if fam == 'SK*':
                o = E.obj(st, v[1]) if isinstance(v, tuple) and v[0] == 'p' else None
                f = o.fam if o is not None and o.fam in SK else 'SK'
                if o is not None:
                    sk_only(E, st, o, inst)
            E.free(st, v, f, inst, src)
    if src in FILLS:
        b, n = FILLS[src]
        if b < len(vals) and isinstance(vals[b], tuple) and vals[b][0] == 'p':
            o = E.obj(st, vals[b][1])
            if o is not None and (o.fam not in (None, 'malloc', 'new', 'alloca') or o.kind == 'lazy' and o.tname):
                E.error(st, 'bounds', inst, 'text is written over %s' % E.objdesc(o))
                raise Stop()
            o, off = E.access(st, vals[b], inst, n, 'written')
            if o is not None:
                E.check_len(st, o, off, n, inst, 'written')
    if src in BUFLEN:
        b, n = BUFLEN[src]
        if n < len(vals) and isinstance(vals[b], tuple) and vals[b][0] == 'p' and vals[n] != 0:
            o, off = E.access(st, vals[b], inst, vals[n] if isinstance(vals[n], int) else None, 'written')
            if o is not None:
                E.check_len(st, o, off, vals[n], inst, 'written')
    if E.cfg.on_write and EXT.get(src) is sp:
        for i in sp.wr:
            o = E.obj(st, vals[i][1]) if i < len(vals) and isinstance(vals[i], tuple) and vals[i][0] == 'p' else None
            if o is not None:
                E.cfg.on_write(E, st, o, 'writes')
    snapshot = E.cfg.snap(E, st, src, vals) if E.cfg.snap and src in E.cfg.record else None
    ret = sp.ret
    if ret == 'i2d' or ret.startswith('d2i'):
        filled(E, st, inst, src, vals, 1 if ret == 'i2d' else 1 if ret.startswith('d2ik') else 0)
    if src in REFUSES_NULL and vals[0] == 0:
        E.site(st, inst)
        addfail(E, st, src, inst)
        rec(E, st, src, av, inst, 0, snapshot)
        return [(st, 0)]
    ok, bad = st, None
    rok = rbad = None
    w = wtyped(inst)
    if ret == 'v':
        for i in sp.wr:
            if i < len(vals):
                E.havoc(st, vals[i])
        rec(E, st, src, av, inst, None, snapshot)
        return [(st, None)]
    if ret == 'a0':
        return [(st, vals[0])]
    if ret in ('tm', 'tm1'):
        if ret == 'tm1' and len(vals) > 1 and isinstance(vals[1], tuple) and vals[1][0] == 'p':
            p = vals[1]
            need(E, st, p, inst, src, 1)
            E.havoc(st, p)
            st.cont[p[1]] = (src,)
        else:
            p = E.lazy(st, 'X:' + E.site(st, inst), tname='tm')
            st.nn[p[1]] = True
            st.cont[p[1]] = (src,)
        o = E.obj(st, p[1])
        if o is not None and isinstance(p[2], int):
            site = E.site(st, inst)
            for off, rng in TM_RANGE.items():
                E.poke(st, o, p[2] + off, ('s', '%s.tm%d' % (site, off), 32, rng), 4)
        rec(E, st, src, av, inst, p, snapshot)
        return [(st, p)]
    if ret in ('n', 'n+', 'num'):
        for i in sp.wr:
            if i < len(vals):
                E.havoc(st, vals[i])
        r = E.sym(st, inst, w) if ret == 'n' else E.sym(st, inst, w, (0, (1 << (min(w, 63) - 1)) - 1) if ret == 'n+' else (-1, (1 << 31) - 1))
        if inst.a[0][0] == 'void':
            r = None
        elif inst.a[0][0] == 'ptr':
            r = E.unk(st, inst, inst.a[0])
        rec(E, st, src, av, inst, r, snapshot)
        return [(st, r)]
    if ret == 'G':
        p = E.lazy(st, 'X:' + E.site(st, inst))
        st.nn[p[1]] = True
        st.cont[p[1]] = (src,) + tuple(E.content(st, v) for v in vals if isinstance(v, tuple) and v[0] == 'p')
        rec(E, st, src, av, inst, p, snapshot)
        return [(st, p)]
    if ret in ('g', 'gf', 'gs'):
        bad = st.copy()
        for i in sp.wr:
            E.havoc(ok, vals[i])
        p = E.lazy(ok, 'X:' + E.site(ok, inst))
        ok.nn[p[1]] = True
        ok.cont[p[1]] = (src,) + tuple(E.content(ok, v) for v in vals if isinstance(v, tuple) and v[0] == 'p')
        rok, rbad = p, 0
        E.site(bad, inst)
        if ret == 'gf' or ret == 'gs':
            addfail(E, bad, src, inst)
        rec(E, ok, src, av, inst, rok, snapshot)
        rec(E, bad, src, av, inst, rbad, snapshot)
        return [(ok, rok), (bad, rbad)]
    if ret.startswith('P:'):
        p = newheap(E, st, inst, ret[2:], init='undef', size=vals[0] if src == '_Znwm' else None)
        rec(E, st, src, av, inst, p, snapshot)
        return [(st, p)]
    if ret.startswith('p:') or ret in ('pba', 'pv') or ret.startswith('d2i'):
        bad = st.copy()
        E.site(bad, inst)
        for i in sp.wr:
            E.havoc(ok, vals[i])
        cargs = [E.content(ok, v) for v in vals if isinstance(v, tuple) and v[0] == 'p']
        if ret == 'pba':
            p = ba(E, ok, inst, src, av)
        elif ret == 'pv':
            p = newheap(E, ok, inst, 'malloc', tname='Voucher', objtag=('voucher', tuple(cargs)))
            ok.cont[p[1]] = (src,) + tuple(cargs)
        else:
            fam = ret.split(':')[1]
            tn = {'array_list': 'BinaryArrayList', 'keyvalue_list': 'keyvalue_list'}.get(fam)
            p = newheap(E, ok, inst, fam, tname=tn, objtag='filled' if src in ('X509_build_chain', 'CMS_get1_certs', 'X509_STORE_CTX_get1_chain') else None)
            if ret.startswith('d2i'):
                k = 2 if ret.startswith('d2ik') else 1
                reuse = vals[k - 1]
                if isinstance(reuse, tuple) and reuse[0] == 'p' and st_isnull(ok, reuse) != 1:
                    setout(E, ok, reuse, p, inst)
                pp = vals[k]
                inner = U
                if isinstance(pp, tuple) and pp[0] == 'p':
                    o = E.obj(ok, pp[1])
                    if o is not None:
                        inner = E.peek(ok, o, pp[2], ('ptr',), 8, inst)
                        if isinstance(inner, tuple):
                            use(E, ok, inner, inst, src)
                        E.poke(ok, o, pp[2], ('p', inner[1], None) if isinstance(inner, tuple) and inner[0] == 'p' else U, 8)
                cargs = [E.content(ok, inner)] if isinstance(inner, tuple) else cargs
            ok.cont[p[1]] = (src,) + tuple(cargs)
        rok, rbad = p, 0
        if not sp.quiet:
            addfail(E, bad, src, inst)
        rec(E, ok, src, av, inst, rok, snapshot)
        rec(E, bad, src, av, inst, rbad, snapshot)
        return [(ok, rok), (bad, rbad)]
    # integer status
    outs = []
    if ret in ('i00z', 'i0z'):
        ok_r = (0, 0) if ret == 'i00z' else (0, BIG)
        fail_r = [(-1, -1)] if ret == 'i00z' else [(-BIG, -1)]
    elif ret == 'i2d':
        ok_r, fail_r = (1, (1 << 31) - 1), [(-BIG, -1)]
    elif ret == 'i0r':
        ok_r, fail_r = (0, BIG), [(-1, -1)]
    elif ret == 'rd':
        ok_r, fail_r = (0, BIG), [(-1, -1)]
    elif ret == 'b3':
        ok_r, fail_r = (0, 1), [(-1, -1)]
    elif ret == 'vmpv' or ret.startswith('fill:'):
        ok_r, fail_r = (0, 0), [(-1, -1)]
    else:
        ok_r, f = RET[ret]
        fail_r = [f] if f else [(1, BIG), (-BIG, -1)]
    lim = (1 << (w - 1)) - 1 if w < 64 else BIG
    bads = [st.copy() for _ in fail_r]
    for i in sp.wr:
        if i < len(vals):
            E.havoc(ok, vals[i])
    if src == 'crypto_getrand' and isinstance(vals[0], tuple) and vals[0][0] == 'p':
        bo = E.obj(ok, vals[0][1])
        if bo is not None and isinstance(vals[0][2], int):
            E.havoc(ok, E.peek(ok, bo, vals[0][2], ('ptr',), 8))
    site = E.site(ok, inst)
    rng = (max(ok_r[0], -lim - 1), min(ok_r[1], lim))
    if ret == 'rd' and len(vals) > 2:
        n = vals[2]
        rng = (0, iv(ok, n)[1])
    rok = rng[0] if rng[0] == rng[1] else ('s', site + '+', w, rng)
    if ret == 'i2d':
        pp = vals[1] if len(vals) > 1 else 0
        if isinstance(pp, tuple) and pp[0] == 'p':
            o = E.obj(ok, pp[1])
            cur = E.peek(ok, o, pp[2], ('ptr',), 8, inst) if o is not None else U
            if cur == 0 or st_isnull(ok, cur) == 1:
                h = newheap(E, ok, inst, 'malloc', tag='der')
                ok.cont[h[1]] = ('der', E.content(ok, vals[0]))
                E.poke(ok, o, pp[2], h, 8)
                E.lens[h[1]] = rok
            elif isinstance(cur, tuple) and cur[0] == 'p':
                use(E, ok, cur, inst, src)
                E.havoc(ok, cur)
                E.poke(ok, o, pp[2], ('p', cur[1], None), 8)
    else:
        for i, fam in sp.out.items():
            if i >= len(vals) or not isinstance(vals[i], tuple):
                continue
            if fam.endswith('?'):
                n = st_isnull(ok, vals[i])
                if n == 1:
                    continue
                fam = fam[:-1]
                if src == 'load_cert_files':
                    n0 = st_isnull(ok, vals[0]) if vals[0] != U else None
                    if n0 == 1:
                        setout(E, ok, vals[i], 0, inst)
                        continue
            if ret == 'i0r':
                o = E.obj(ok, vals[i][1])
                cur = E.peek(ok, o, vals[i][2], ('ptr',), 8, inst) if o is not None else U
                E.free(ok, cur, 'malloc', inst, src)
            h = newheap(E, ok, inst, fam, tag='out%d' % i, tname='BinaryArrayList' if fam == 'array_list' else None)
            if fam == 'malloc' and len(sp.out) - ('array_list?' in sp.out.values()) == 1 and ret in ('i0', 'i0z', 'i0r') and src in API \
                    and src != 'serialize_array2base64str':
                E.lens[h[1]] = rok
            ok.cont[h[1]] = (src, i) + tuple(E.content(ok, v) for j, v in enumerate(vals) if j not in sp.out and isinstance(v, tuple) and v[0] == 'p')
            setout(E, ok, vals[i], h, inst)
            if src in ('EVP_PKEY_keygen', 'EVP_PKEY_paramgen'):
                pass
    for k in ([8] if ret == 'vmpv' else [int(c) for c in ret[5:]] if ret.startswith('fill:') else []):
        p = vals[k] if len(vals) > k else U
        if isinstance(p, tuple) and p[0] == 'p':
            o = E.obj(ok, p[1])
            h = newheap(E, ok, inst, 'malloc', tag='pin%d' % k)
            ok.cont[h[1]] = ('pinned',) if ret == 'vmpv' else (src, k)
            E.poke(ok, o, p[2], h, 8)
            E.lens[h[1]] = ('s', 'len:' + h[1], 64, (1, 1 << 40))
            E.poke(ok, o, p[2] + 8, E.lens[h[1]], 8)
    rec(E, ok, src, av, inst, rok, snapshot)
    outs.append((ok, rok))
    for b, fr in zip(bads, fail_r):
        s2 = E.site(b, inst)
        lo, hi = max(fr[0], -lim - 1), min(fr[1], lim)
        rb = lo if lo == hi else ('s', s2 + '-', w, (lo, hi))
        if ret in ('i0z', 'i00z') and sp.out:
            for i in sp.out:
                if i < len(vals) and isinstance(vals[i], tuple) and st_isnull(b, vals[i]) != 1:
                    setout(E, b, vals[i], 0, inst)
        if not sp.quiet:
            addfail(E, b, src, inst)
        rec(E, b, src, av, inst, rb, snapshot)
        outs.append((b, rb))
    return outs


# ---------------------------------------------------------------- libc with sizes and contents
def m_malloc(E, st, inst, av, src):
    bad = st.copy()
    E.site(bad, inst)
    addfail(E, bad, src, inst)
    vals = [v for _, v, _ in av]
    if src == 'calloc':
        a, b = vals
        size = a * b if isinstance(a, int) and isinstance(b, int) else (a if b == 1 else b if a == 1 else None)
        init = 'zero'
    else:
        size, init = vals[0], 'undef'
    if size == U:
        size = None
    if isinstance(size, tuple) and iv(st, size)[0] < 0 and size[0] == 's':
        pass
    p = E.alloc(st, inst, 'malloc', size=size, init=init)
    rec(E, st, src, av, inst, p)
    rec(E, bad, src, av, inst, 0)
    return [(st, p), (bad, 0)]


def m_realloc(E, st, inst, av, src):
    old, size = av[0][1], av[1][1]
    if isinstance(old, tuple):
        use(E, st, old, inst, src)
    bad = st.copy()
    E.site(bad, inst)
    addfail(E, bad, src, inst)
    p = E.alloc(st, inst, 'malloc', size=size if size != U else None, init='undef')
    if isinstance(old, tuple) and old[0] == 'p':
        d = st.mem.get(old[1])
        if d:
            st.mem[p[1]] = dict(d)
            st.own.add(p[1])
        oo = E.obj(st, old[1])
        if oo is not None and oo.kind == 'lazy':
            E.clear(st, st.objs[p[1]], 0, 1 << 40, 'copy', (old[1], st.ext.get(old[1], 0), 0))
        st.cont[p[1]] = E.content(st, old)
        st.ext['len:' + p[1]] = st.ext.get('len:' + old[1], 0)
        E.free(st, old, 'malloc', inst, src)
    return [(st, p), (bad, 0)]


def m_free(E, st, inst, av, src):
    E.free(st, av[0][1], 'malloc', inst, src)
    return [(st, None)]


def strlen_term(E, st, p):
    c = E.content(st, p)
    if c[0] == 'lit':
        return len(c[1])
    b = const_bytes(E, st, p, c)
    if b is not None:
        return len(b)
    return ('s', 'strlen:%r' % (c,), 64, (0, 1 << 40))


def bound_len(E, st, p, n):
    """a string ends inside the object that holds it"""
    o = E.obj(st, p[1])
    if isinstance(n, tuple) and o is not None and o.kind != 'lazy' and isinstance(o.size, int) and isinstance(p[2], int) and o.size > p[2]:
        f = st.facts.get(n)
        lo, hi = iv(st, n)
        if hi >= o.size - p[2]:
            st.facts[n] = (lo, o.size - p[2] - 1) + ((f[2],) if f and len(f) > 2 else ())


CTYPE = {'isprint': lambda c: 32 <= c < 127, 'isgraph': lambda c: 32 < c < 127, 'iscntrl': lambda c: c < 32 or c == 127,
         'isspace': lambda c: c == 32 or 9 <= c <= 13, 'isblank': lambda c: c in (9, 32), 'isdigit': lambda c: 48 <= c <= 57,
         'isalpha': lambda c: chr(c).isalpha(), 'isalnum': lambda c: chr(c).isalnum(), 'isupper': lambda c: 65 <= c <= 90,
         'islower': lambda c: 97 <= c <= 122, 'isxdigit': lambda c: chr(c) in '0123456789abcdefABCDEF',
         'ispunct': lambda c: 32 < c < 127 and not chr(c).isalnum()}


def m_ctype(E, st, inst, av, src):
    """the class of a known character (the programs never change the locale)"""
    c = av[0][1]
    if isinstance(c, int):
        return [(st, int(c < 128 and bool(CTYPE[src](c))))]
    return [(st, E.unk(st, inst, inst.a[0]))]


def m_strlen(E, st, inst, av, src):
    p = av[0][1]
    use(E, st, p, inst, src)
    need(E, st, p, inst, src, 0)
    if not isinstance(p, tuple) or p[0] != 'p':
        return [(st, E.sym(st, inst, 64, (0, 1 << 40)))]
    n = strlen_term(E, st, p)
    bound_len(E, st, p, n)
    rec(E, st, src, av, inst, n)
    return [(st, n)]


def m_strnlen(E, st, inst, av, src):
    p, n = av[0][1], av[1][1]
    use(E, st, p, inst, src)
    need(E, st, p, inst, src, 0)
    if not isinstance(p, tuple) or p[0] != 'p':
        return [(st, E.sym(st, inst, 64, (0, 1 << 40)))]
    L = strlen_term(E, st, p)
    if L == n:
        r = L
        bound_len(E, st, p, n)
    elif isinstance(L, int) and isinstance(n, int):
        r = min(L, n)
    else:
        o = E.obj(st, p[1])
        room = o.size - p[2] if o is not None and isinstance(o.size, int) and isinstance(p[2], int) else 1 << 40
        r = E.sym(st, inst, 64, (0, min(room, iv(st, n)[1])))
        st.ext['strnlen:%r' % (r,)] = n
        try:                    # r <= n also where n is not a number
            t = ladd(r, n, -1)
            if t != U:
                st.facts[t] = (-BIG, 0)
        except Exception:
            pass
    rec(E, st, src, av, inst, r)
    return [(st, r)]


def nonzero(st, n):
    if isinstance(n, int):
        return n != 0
    if not isinstance(n, tuple):
        return False
    def one(t):
        f = st.facts.get(t)
        return f is not None and (f[0] > 0 or (len(f) > 2 and 0 in (f[2] or ())))
    if one(n):
        return True
    for k, f in st.facts.items():        # equal to a value known not to be 0
        if k[0] == 'lin' and f[0] == f[1] == 0 and k[2] == 0 and len(k[1]) == 2 and k[1][0][1] == -k[1][1][1]:
            x, y = k[1][0][0], k[1][1][0]
            if (x == n and one(y)) or (y == n and one(x)):
                return True
    return False


def const_bytes(E, st, p, c):
    """the string p points at where every byte of it is a known constant"""
    if c[0] == 'lit':
        return c[1]
    if not (isinstance(p, tuple) and p[0] == 'p' and isinstance(p[2], int)):
        return None
    o = E.obj(st, p[1])
    d = st.mem.get(p[1]) if o is not None else None
    if not d:
        return None
    out = bytearray()
    for i in range(1024):
        x = d.get(p[2] + i)
        x = x[0] if x is not None and x[1] == 1 else E.peek(st, o, p[2] + i, ('i', 8), 1)
        if not isinstance(x, int):
            return None
        if x == 0:
            return bytes(out)
        out.append(x & 255)
    return None


def m_str2time(E, st, inst, av, src):
    out = apply(E, st, inst, av, src, API[src])
    for s, r in out:
        p = av[1][1]
        if isinstance(r, int) and r < 0 or not (isinstance(p, tuple) and p[0] == 'p' and isinstance(p[2], int)):
            continue
        o = E.obj(s, p[1])
        if o is not None:
            nm = 'T:%r' % (E.content(s, av[0][1]),)
            for off, rng in TM_RANGE.items():
                E.poke(s, o, p[2] + off, ('s', '%s.%d' % (nm, off), 32, rng), 4)
    return out


def m_tolower(E, st, inst, av, src):
    v = av[0][1]
    if isinstance(v, int) and 0 <= v < 128:
        return [(st, ord(chr(v).lower() if src == 'tolower' else chr(v).upper()))]
    return apply(E, st, inst, av, src, EXT[src])


def m_strcmp(E, st, inst, av, src):
    vals = [v for _, v, _ in av]
    for i in (0, 1):
        use(E, st, vals[i], inst, src)
        if src != 'memcmp':
            need(E, st, vals[i], inst, src, i)
    ca, cb = E.content(st, vals[0]), E.content(st, vals[1])
    n = None
    if len(vals) > 2:
        n = vals[2]
        if src == 'memcmp' and nonzero(st, n):
            for i in (0, 1):
                if vals[i] == 0:
                    need(E, st, vals[i], inst, src, i)
                if st_isnull(st, vals[i]) == 1:
                    return None          # a NULL array has length 0 (invariant of BinaryArray)
    if not (ca[0] == 'lit' and cb[0] == 'lit') and ca != cb:
        ka, kb = const_bytes(E, st, vals[0], ca), const_bytes(E, st, vals[1], cb)
        if ka is not None and kb is not None:
            ca, cb = ('lit', ka), ('lit', kb)
    if ca == cb:
        r = 0
    elif ca[0] == 'lit' and cb[0] == 'lit' and (n is None or isinstance(n, int)):
        x, y = ca[1], cb[1]
        if n is not None:
            x, y = x[:n], y[:n]
        if src in ('strcasecmp', 'strncasecmp'):
            x, y = x.lower(), y.lower()
        r = 0 if x == y else (1 if x > y else -1)
    else:
        a, b = sorted((ca, cb), key=repr)
        r = ('s', '%s:%r:%r:%r' % (src, a, b, n), 32)
    rec(E, st, src, av, inst, r, (ca, cb))
    return [(st, r)]


def m_strncpy(E, st, inst, av, src):
    d, s, n = [v for _, v, _ in av][:3]
    for i, v in ((0, d), (1, s)):
        use(E, st, v, inst, src)
        need(E, st, v, inst, src, i)
    if isinstance(d, tuple) and d[0] == 'p':
        o, off = E.access(st, d, inst, None, 'written')
        if o is not None:
            E.check_len(st, o, off, n, inst, 'written')
            c = E.content(st, s)
            if isinstance(off, int):
                E.clear(st, o, off, n if isinstance(n, int) else 1 << 40, 'fill')
            # the copy is complete when the bound is the source length
            L = strlen_term(E, st, s)
            if off == 0:
                st.cont[o.oid] = c if (n == L or (isinstance(n, int) and isinstance(L, int) and n > L)) else ('pre', c, n)
    return [(st, d)]


def m_sprintf(E, st, inst, av, src):
    vals = [v for _, v, _ in av]
    d = vals[0]
    bound = vals[1] if src.startswith('snprintf') else None
    fi = 2 if bound is not None else 1
    for i, v in enumerate(vals):
        if isinstance(v, tuple):
            use(E, st, v, inst, src)
    need(E, st, d, inst, src, 0)
    fmt = E.literal(st, vals[fi])
    total = None
    parts = []
    if fmt is not None:
        total = 0
        k = fi + 1
        pos = 0
        for m in re.finditer(rb'%(%|[-+ #0]*(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diouxXcsp]))', fmt):
            total = ladd(total, m.start() - pos) if total is not None else None
            pos = m.end()
            if m.group(1) == b'%':
                total = ladd(total, 1) if total is not None else None
                continue
            prec = None
            if m.group(3) == b'*':
                prec = vals[k] if k < len(vals) else U
                k += 1
            elif m.group(3):
                prec = int(m.group(3))
            v = vals[k] if k < len(vals) else U
            k += 1
            c = m.group(5)
            if c == b's':
                need(E, st, v, inst, src, k - 1)
                parts.append(E.content(st, v) if prec is None else ('pre', E.content(st, v), prec))
                if prec is not None:
                    total = ladd(total, prec) if total is not None and isinstance(prec, int) else None
                elif total is not None and isinstance(v, tuple) and v[0] == 'p':
                    total = ladd(total, strlen_term(E, st, v))
                else:
                    total = None
            elif c == b'c':
                total = ladd(total, 1) if total is not None else None
            else:
                wd = {b'hh': 8, b'h': 16, b'l': 64, b'll': 64, b'z': 64, b'j': 64}.get(m.group(4), 32)
                mx = {b'd': {8: 4, 16: 6, 32: 11, 64: 20}, b'i': {8: 4, 16: 6, 32: 11, 64: 20}, b'u': {8: 3, 16: 5, 32: 10, 64: 20}}.get(c, {8: 2, 16: 4, 32: 8, 64: 16})[wd]
                if wd == 8 and v not in (U,) and c in b'xX':
                    mx = 2
                width = int(m.group(2) or 0)
                parts.append(v)
                ub = max(mx, width)
                if v != U and c in b'di':
                    lo, hi = iv(st, v)
                    if -(1 << 31) <= lo and hi < (1 << 31):
                        ub = max(len(str(lo)), len(str(hi)), width)
                if total is not None:
                    total = ladd(total, ub)
        if total is not None:
            total = ladd(total, len(fmt) - pos)
    o, off = E.access(st, d, inst, None, 'written') if isinstance(d, tuple) and d[0] == 'p' else (None, None)
    if o is not None:
        if bound is None:
            if total is not None and off is not None:
                E.check_len(st, o, off, ladd(total, 1), inst, 'written')
        else:
            E.check_len(st, o, off, bound, inst, 'written')
        if isinstance(off, int):
            E.clear(st, o, off, 1 << 40, 'fill')
        st.cont[o.oid] = ('fmt', fmt, tuple(parts))
    hi = iv(st, total)[1] if total not in (None, U) and bound is None else BIG
    r = E.sym(st, inst, 32, (0, min(hi, (1 << 31) - 1)))
    rec(E, st, src, av, inst, r)
    return [(st, r)]


def m_vformat(E, st, inst, av, src):
    """formatting of a va_list, or into memory made for it"""
    vals = [v for _, v, _ in av]
    for v in vals:
        use(E, st, v, inst, src)
    alloc = 'asprintf' in src
    fi = 1 if alloc or src == 'vsprintf' else 2
    fmt = E.literal(st, vals[fi]) if fi < len(vals) else None
    rest = tuple(E.content(st, v) if isinstance(v, tuple) else v for v in vals[fi + 1:]) if src == 'asprintf' else ('va',)
    term = ('fmt', fmt if fmt is not None else E.content(st, vals[fi]), rest)
    r = ('s', E.site(st, inst) + 'n', 32, (0, (1 << 31) - 2))
    if alloc:
        bad = st.copy()
        rec(E, bad, src, av, inst, -1)
        addfail(E, bad, src, inst)
        bad.forks += 1
        h = newheap(E, st, inst, 'malloc', tag='text', size=ladd(r, 1))
        st.cont[h[1]] = term
        setout(E, st, vals[0], h, inst)
        rec(E, st, src, av, inst, r)
        return [(st, r), (bad, -1)]
    d = vals[0]
    if isinstance(d, tuple) and d[0] == 'p':
        o, off = E.access(st, d, inst, None, 'written')
        if o is not None:
            if src == 'vsnprintf':
                E.check_len(st, o, off, vals[1], inst, 'written')
            if isinstance(off, int):
                E.clear(st, o, off, 1 << 40, 'fill')
            st.cont[o.oid] = term
    rec(E, st, src, av, inst, r)
    return [(st, r)]


def m_strcat(E, st, inst, av, src):
    d, s = av[0][1], av[1][1]
    for i, v in ((0, d), (1, s)):
        use(E, st, v, inst, src)
        need(E, st, v, inst, src, i)
    if isinstance(d, tuple) and d[0] == 'p':
        o, off = E.access(st, d, inst, None, 'written')
        if o is not None:
            st.cont[o.oid] = ('cat', E.content(st, d), E.content(st, s))
    return [(st, d)]


def m_memcpy(E, st, inst, av, src):
    check_pairs(E, st, inst, 'memcpy', [v for _, v, _ in av])
    E.memcpy(st, av[0][1], av[1][1], av[2][1], inst)
    return [(st, av[0][1])]


def m_memset(E, st, inst, av, src):
    p, c, n = [v for _, v, _ in av][:3]
    o, off = E.access(st, p, inst, n if isinstance(n, int) and n else None, 'written') if n != 0 else (None, None)
    if o is not None:
        E.check_len(st, o, off, n, inst, 'written')
        if isinstance(off, int):
            E.clear(st, o, off, n, 'zero' if c == 0 else 'fill')
        if c != 0 or off == 0 or o.oid not in st.cont or off != E.copied(st, o.oid):
            st.cont.pop(o.oid, None)       # otherwise: zeros behind the copied bytes
            if isinstance(off, int) and off == 0:
                st.cont[o.oid] = ('fill', c)
    return [(st, p)]


# library templates whose bodies are followed: constant tables and searches in them
INL = re.compile(r'^(?:[^(]*[ &*])?(?:std::array<|std::__array_traits<|std::(?:__)?(?:find|find_if|any_of|none_of|all_of|find_if_not|begin|end|cbegin|cend|size|__iterator_category|__niter_base|__niter_wrap)<|std::(?:__)?(?:find_if|any_of|none_of|all_of)\b|__gnu_cxx::__ops::|std::initializer_list<)').match
FIELD = re.compile(r'^(.*?)\.(\d+)$').match


def m_memccpy(E, st, inst, av, src):
    d, s, c, n = [v for _, v, _ in av]
    for v in (d, s):
        use(E, st, v, inst, src)
    need(E, st, d, inst, src, 0)
    need(E, st, s, inst, src, 1)
    o, off = E.access(st, d, inst, None, 'written') if isinstance(d, tuple) and d[0] == 'p' else (None, None)
    if o is not None:
        E.check_len(st, o, off, n, inst, 'written')
        if isinstance(off, int) and off and isinstance(n, int):
            E.clear(st, o, off, n, 'fill')       # a member of a larger object: the others keep their values
        else:
            E.havoc(st, d)
            st.cont[o.oid] = ('pre', E.content(st, s), n)
    b = st.copy()
    b.forks += 1
    st.forks += 1
    r = E.sym(st, inst, 64, (1, BIG))
    return [(st, ('p', d[1], r) if isinstance(d, tuple) and d[0] == 'p' else U), (b, 0)]


def m_gettimeofday(E, st, inst, av, src):
    p = av[0][1]
    need(E, st, p, inst, src, 0)
    o, off = E.access(st, p, inst, 16, 'written')
    if o is not None and isinstance(off, int):
        n = E.site(st, inst)
        E.poke(st, o, off, ('s', n + 's', 64, (0, 1 << 40)), 8)
        E.poke(st, o, off + 8, ('s', n + 'u', 64, (0, 999999)), 8)
    return [(st, 0)]


def m_exit(E, st, inst, av, src):
    rec(E, st, src, av, inst, None)
    if getattr(E.cfg, 'on_exit', None):
        E.cfg.on_exit(E, st, inst, av)
    return None


def m_throw(E, st, inst, av, src):
    return None


def m_rethrow(E, st, inst, av, src):
    """the exception the caller was handed is thrown again: continues where this call is caught"""
    dst = inst.a[3]
    if dst is not None and len(dst) > 1 and dst[1] is not None and E.goto(st, st.frames[-1], dst[1]):
        E.work.append(st)
    return None


def m_assert(E, st, inst, av, src):
    """an obligation written into an analysis harness"""
    c, w = av[0][1], av[1][1]
    E.oblige('assert')
    t = iv(st, c) if not isinstance(c, int) else (c, c)
    if t[0] <= 0 <= t[1] and truth_of(st, c) is not True:
        lit = E.literal(st, w)
        E.error(st, 'assert', inst, 'not established: ' + (lit.decode() if lit else '?'))
    return [(st, None)]


def truth_of(st, c):
    if isinstance(c, int):
        return c != 0
    return truth(st, c) if is_bool(c) else None


def m_bioctrl(E, st, inst, av, src):
    vals = [v for _, v, _ in av]
    use(E, st, vals[0], inst, src)
    if vals[1] == 115 and isinstance(vals[3], tuple):       # BIO_get_mem_ptr
        m = E.lazy(st, 'X:' + E.site(st, inst), tname='buf_mem_st')
        st.nn[m[1]] = True
        o = E.obj(st, m[1])
        d = E.lazy(st, m[1] + '.data')
        st.nn[d[1]] = True
        st.cont[d[1]] = ('biodata', vals[0][1] if isinstance(vals[0], tuple) else vals[0])
        E.poke(st, o, 0, ('s', 'len:' + d[1], 64, (0, 1 << 40)), 8)
        E.poke(st, o, 8, d, 8)
        setout(E, st, vals[3], m, inst)
    if vals[1] == 3 and isinstance(vals[3], tuple):
        p = E.lazy(st, 'X:' + E.site(st, inst), parent=None)
        st.nn[p[1]] = True
        st.cont[p[1]] = ('biodata', vals[0][1] if isinstance(vals[0], tuple) else vals[0])
        setout(E, st, vals[3], p, inst)
        # borrowed from the BIO: dies with it
        st.ext['own:' + p[1]] = 1
    r = E.sym(st, inst, wtyped(inst), (0, 1 << 31))
    rec(E, st, src, av, inst, r)
    return [(st, r)]


def m_sknum(E, st, inst, av, src):
    """one number per stack until something is pushed"""
    v = av[0][1]
    use(E, st, v, inst, src)
    if v == 0 or (isinstance(v, tuple) and st_isnull(st, v) == 1):
        r = -1
    elif isinstance(v, tuple) and v[0] == 'p':
        r = ('s', 'sknum:%s.%s' % (v[1], st.ext.get('skn:' + v[1], 0)), 32, (0, (1 << 31) - 1))
    else:
        r = E.sym(st, inst, 32, (-1, (1 << 31) - 1))
    rec(E, st, src, av, inst, r)
    return [(st, r)]


def m_skvalue(E, st, inst, av, src):
    v, i = av[0][1], av[1][1]
    use(E, st, v, inst, src)
    p = E.lazy(st, 'X:' + E.site(st, inst))
    st.nn[p[1]] = True
    st.cont[p[1]] = (src, E.content(st, v) if isinstance(v, tuple) else v, i)
    rec(E, st, src, av, inst, p, E.cfg.snap(E, st, src, [x for _, x, _ in av]) if E.cfg.snap and src in E.cfg.record else None)
    return [(st, p)]


def m_skpush(E, st, inst, av, src):
    """takes the element on success only"""
    vals = [v for _, v, _ in av]
    for v in vals:
        use(E, st, v, inst, src)
    bad = st.copy()
    addfail(E, bad, src, inst)
    el = vals[1]
    owned = isinstance(el, tuple) and el[0] == 'p' and el[1] not in st.esc and st.stt.get(el[1]) == 'L'
    if isinstance(el, tuple):
        E.escape(st, el)
    site = E.site(st, inst)
    E.site(bad, inst)
    if isinstance(vals[0], tuple) and vals[0][0] == 'p':
        if owned:
            k = 'ske:' + vals[0][1]
            st.ext[k] = (st.ext.get(k) or ()) + (el[1],)
        k = 'skn:' + vals[0][1]
        n = st.ext.get(k, 0)
        st.ext[k] = n + 1 if n < 4 else site
    r = ('s', site + '+', 32, (1, (1 << 31) - 1))
    rec(E, st, src, av, inst, r)
    return [(st, r), (bad, 0)]


def m_push(E, st, inst, av, src):
    """push_*_list: copies its arguments; refuses NULL ones"""
    vals = [v for _, v, _ in av]
    for v in vals:
        use(E, st, v, inst, src)
    bad = st.copy()
    addfail(E, bad, src, inst)
    outs = []
    impossible = False
    nargs = 3 if src == 'push_keyvalue_list' else 2
    for v in vals[:nargs]:
        if v == 0 or (isinstance(v, tuple) and v[0] == 'p' and st_isnull(st, v) == 1):
            impossible = True
    if not impossible:
        for v in vals[:nargs]:
            if isinstance(v, tuple) and v[0] == 'p' and st_isnull(st, v) is None:
                st.nn[v[1]] = True
        if isinstance(vals[0], tuple) and vals[0][0] == 'p':
            o = E.obj(st, vals[0][1])
            prev = st.cont.get(o.oid) or ('list',)
            if prev[0] != 'list':
                prev = ('list', prev)
            if len(prev) < 12:
                st.cont[o.oid] = prev + (tuple(E.content(st, v) for v in vals[1:nargs]),)
        if src == 'push_ptr_list':
            E.escape(st, vals[1])
        rec(E, st, src, av, inst, 0)
        outs.append((st, 0))
    rec(E, bad, src, av, inst, -1)
    outs.append((bad, -1))
    return outs


def m_getcert_meta(E, st, inst, av, src):
    vals = [v for _, v, _ in av]
    use(E, st, vals[0], inst, src)
    need(E, st, vals[1], inst, src, 1)
    bad = st.copy()
    addfail(E, bad, src, inst)
    if isinstance(vals[1], tuple):
        o, off = E.access(st, vals[1], inst, None, 'written')
        if o is not None:
            so = E.prog.fields('crypto_cert_meta') or {}
            E.poke(st, o, off + so.get('serial_number', 0), ('s', E.site(st, inst) + 'sn', 64), 8)
            for f in ('issuer', 'subject'):
                q = E.peek(st, o, off + so[f], ('ptr',), 8, inst)
                if isinstance(q, tuple) and q[0] == 'p':
                    st.cont[q[1]] = ('certname', f, E.content(st, vals[0]))
    rec(E, st, src, av, inst, 0)
    rec(E, bad, src, av, inst, -1)
    return [(st, 0), (bad, -1)]


CONFIG_LOAD = ('load_brski_config', 'load_pledge_config', 'load_registrar_config', 'load_masa_config')


def m_load_config(E, st, inst, av, src):
    """fills a configuration struct; what it now owns is one pseudo-object kept in a hidden cell"""
    vals = [v for _, v, _ in av]
    for i in (0, 1):
        use(E, st, vals[i], inst, src)
        need(E, st, vals[i], inst, src, i)
    bad = st.copy()
    addfail(E, bad, src, inst)
    E.site(bad, inst)
    c = vals[1]
    if isinstance(c, tuple) and c[0] == 'p' and isinstance(c[2], int):
        o = E.obj(st, c[1])
        n = {'load_pledge_config': 'pledge_config', 'load_registrar_config': 'registrar_config',
             'load_masa_config': 'masa_config'}.get(src, 'brski_config')
        size = E.prog.struct_size(n) or (1 << 40)
        st.ext[c[1]] = st.ext.get(c[1], 0) + 1
        E.clear(st, o, c[2], size, 'havoc', ('cfg:%s:%d' % (c[1], st.ext[c[1]]),))
        if src in CONFIG_LOAD:
            h = E.alloc(st, inst, 'brski_config', init='lazy', objtag=('cfg', c[1], c[2]))
            E.poke(st, o, -8 - c[2], h, 8)
    rec(E, st, src, av, inst, 0)
    rec(E, bad, src, av, inst, -1)
    return [(st, 0), (bad, -1)]


def m_free_config(E, st, inst, av, src):
    c = av[0][1]
    use(E, st, c, inst, src)
    if isinstance(c, tuple) and c[0] == 'p':
        for oid, o in list(st.objs.items()):
            if o.tag and o.tag[0] == 'cfg' and o.tag[1] == c[1] and st.stt.get(oid) == 'L' and \
                    (src == 'free_config_content' or o.tag[2] == c[2]):
                st.stt[oid] = 'F'
                E.poke(st, E.obj(st, c[1]), -8 - o.tag[2], 0, 8)
    rec(E, st, src, av, inst, None)
    return [(st, None)]


def m_getcert_serial(E, st, inst, av, src):
    vals = [v for _, v, _ in av]
    p0 = vals[0]
    use(E, st, p0, inst, src)
    bad = st.copy()
    addfail(E, bad, src, inst)
    c = E.content(st, p0)
    if isinstance(p0, tuple) and p0[0] == 'p':
        o = E.obj(st, p0[1])
        so = E.prog.fields('crypto_cert_meta') or {}
        if o is not None and isinstance(p0[2], int):
            q = E.peek(st, o, p0[2] + so.get('subject', 0), ('ptr',), 8, inst)
            if isinstance(q, tuple):
                use(E, st, q, inst, src)
                c = E.content(st, q)
    p = E.lazy(st, 'X:' + E.site(st, inst))
    E.site(bad, inst)
    st.nn[p[1]] = True
    st.cont[p[1]] = ('serialof', c)
    rec(E, st, src, av, inst, p)
    rec(E, bad, src, av, inst, 0)
    return [(st, p), (bad, 0)]


# ---------------------------------------------------------------- C++ standard library
def skey(v):
    return ('S', v[1], v[2]) if isinstance(v, tuple) and v[0] == 'p' else None


def sget(E, st, v):
    k = skey(v)
    if k is None:
        return ('val', v)
    if k in st.cont:
        return st.cont[k]
    return ('str', v[1], v[2])


_flat = {}


def flat(d):
    """'std::map<K, V>::operator[](K&&)' -> ('std::map::operator[]', 'K&&')"""
    r = _flat.get(d)
    if r is None:
        out, depth, i = [], 0, 0
        s = d.replace('operator()', 'operator_call').replace('operator->', 'operator_arrow').replace('operator<<', 'operator_shl') \
             .replace('operator>>', 'operator_shr').replace('->', '__')
        for ch in s:
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif depth <= 0:
                out.append(ch)
        t = ''.join(out)
        h, _, prm = t.partition('(')
        r = _flat[d] = (h.split()[-1] if h.split() else '', prm.rpartition(')')[0])
    return r


def closure(E, st, v):
    """what the members of the object v points at hold: ((offset, content), ...)"""
    if not (isinstance(v, tuple) and v[0] == 'p' and isinstance(v[2], int)):
        return ()
    out = {k[2] - v[2]: c for k, c in st.cont.items() if k[0] == 'S' and k[1] == v[1] and isinstance(k[2], int)}
    for k, c in (st.mem.get(v[1]) or {}).items():
        if isinstance(k, int):
            out.setdefault(k - v[2], E.content(st, c[0]) if isinstance(c[0], tuple) else ('num', c[0]))
    return tuple(sorted(out.items()))


def m_stdfn(E, st, inst, av, h, prm, rty):
    """std::function: which callable it holds travels with copies and moves"""
    vals = [v for _, v, _ in av]
    k = skey(vals[0])
    m = h[len('std::function::'):]
    if m in ('function', 'operator=') and len(vals) > 1 and k:
        v = vals[1]
        if isinstance(v, tuple) and v[0] == 'f':
            st.cont[k] = ('callable', v[1])
        elif isinstance(v, tuple) and v[0] == 'p':
            if 'std::function' in prm.split('(')[0]:
                st.cont[k] = st.cont.get(skey(v)) or ('fnobj', v[1], v[2])
            else:
                o = E.obj(st, v[1]) if '(*' in prm and isinstance(v[2], int) else None
                fp = E.peek(st, o, v[2], ('ptr',), 8, inst) if o is not None else None
                if isinstance(fp, tuple) and fp[0] == 'f':
                    st.cont[k] = ('callable', fp[1])
                else:
                    name, _ = E.callee(st, st.frames[-1], inst)
                    st.cont[k] = ('lambda', name, closure(E, st, v))
        rec(E, st, 'std::function', av, inst, None, st.cont.get(k))
        return [(st, vals[0] if rty[0] == 'ptr' else None)]
    if m == 'operator_call':
        for ty, v, bv in av:
            if bv and bv[0] == 'sret' and skey(v):
                st.cont[skey(v)] = ('s', E.site(st, inst))
        r = E.unk(st, inst, rty) if rty[0] != 'void' else None
        rec(E, st, 'std::function.call', av, inst, r)
        for i, (v, t) in enumerate(zip(vals[1:], prm.split(','))):
            if isinstance(v, tuple) and v[0] == 'p' and 'const' not in t and '&' in t:
                if skey(v) in st.cont:
                    st.cont[skey(v)] = ('answer', E.site(st, inst), i)
                for k in [k for k in st.cont if k[0] == 'S' and k[1].startswith('MAP:%s.%s[' % (v[1], v[2]))]:
                    del st.cont[k]
        return [(st, r)]
    if m.startswith('~'):
        return [(st, None)]
    return None


def m_strchr(E, st, inst, av, src):
    vals = [v for _, v, _ in av]
    lit = E.literal(st, vals[0]) if isinstance(vals[0], tuple) else None
    if lit is not None and isinstance(vals[1], int) and 0 < vals[1] < 256:
        k = (lit.find if src == 'strchr' else lit.rfind)(bytes([vals[1]]))
        r = ('p', vals[0][1], vals[0][2] + k) if k >= 0 else 0
        rec(E, st, src, av, inst, r)
        return [(st, r)]
    return m_ext(E, st, inst, av, src)


END = 1 << 20


def m_vec_one(E, st, inst, av, h):
    """iteration over a vector that holds exactly one (arbitrary) element"""
    vals = [v for _, v, _ in av]

    def it(v):
        o = E.obj(st, v[1]) if isinstance(v, tuple) and v[0] == 'p' else None
        return E.peek(st, o, v[2], ('ptr',), 8, inst) if o is not None and isinstance(v[2], int) else None

    if h in ('std::vector::begin', 'std::vector::cbegin', 'std::vector::end', 'std::vector::cend') and skey(vals[0]):
        p = E.lazy(st, 'VEC:%s.%s' % vals[0][1:3])
        st.nn[p[1]] = True
        return [(st, p if 'begin' in h else ('p', p[1], END))]
    if h in ('__gnu_cxx::operator!=', '__gnu_cxx::operator==') and len(vals) == 2:
        a, b = it(vals[0]), it(vals[1])
        if all(isinstance(x, tuple) and x[0] == 'p' and x[1].startswith('VEC:') for x in (a, b)):
            return [(st, int((a == b) == h.endswith('==')))]
    if h.startswith('__gnu_cxx::__normal_iterator::operator'):
        a = it(vals[0])
        if isinstance(a, tuple) and a[0] == 'p' and a[1].startswith('VEC:'):
            if h.endswith(('operator*', 'operator_arrow')):
                return [(st, a)]
            if h.endswith('operator++'):
                setout(E, st, vals[0], ('p', a[1], END), inst)
                return [(st, vals[0] if len(vals) == 1 else a)]
    if h == 'std::vector::size':
        return [(st, 1)]
    if h in ('std::vector::operator[]', 'std::vector::at', 'std::vector::front', 'std::vector::back'):
        p = E.lazy(st, 'VEC:%s.%s' % vals[0][1:3])
        st.nn[p[1]] = True
        return [(st, p)]
    return None


MAPSET = {'std::%s::%s' % (m, f) for m in ('map', 'unordered_map') for f in ('insert_or_assign', 'emplace', 'try_emplace')}


def textarg(E, st, v):
    """the text a std::string or character array holds"""
    if not isinstance(v, tuple):
        return ('val', v)
    lit = E.literal(st, v) if v[0] == 'p' else None
    return ('lit', lit) if lit is not None else sget(E, st, v) if skey(v) in st.cont else E.content(st, v)


def m_cxx(E, st, inst, av, src):
    name, _ = E.callee(st, st.frames[-1], inst)
    d = E.prog.dem(name)
    vals = [v for _, v, _ in av]
    rty = inst.a[0]
    h, prm = flat(d)
    if h.startswith('std::function::'):
        r = m_stdfn(E, st, inst, av, h, prm, rty)
        if r is not None:
            return r
    if E.models.vec_one:
        r = m_vec_one(E, st, inst, av, h)
        if r is not None:
            return r
    if h in ('std::map::operator[]', 'std::unordered_map::operator[]') and isinstance(vals[0], tuple) and vals[0][0] == 'p':
        use(E, st, vals[0], inst, h)
        key = sget(E, st, vals[1]) if isinstance(vals[1], tuple) else ('val', vals[1])
        oid = 'MAP:%s.%s[%s]' % (vals[0][1], vals[0][2], key[1].decode('latin1') if key[0] == 'lit' else key)
        p = E.lazy(st, oid)
        st.nn[oid] = True
        rec(E, st, h, av, inst, p, key)
        return [(st, p)]
    if h in MAPSET and len(vals) == 3 and skey(vals[0]):
        for v in vals:
            if isinstance(v, tuple):
                use(E, st, v, inst, h)
        key, val = (textarg(E, st, v) for v in vals[1:])
        oid = 'MAP:%s.%s[%s]' % (vals[0][1], vals[0][2], key[1].decode('latin1') if key[0] == 'lit' else key)
        p = E.lazy(st, oid)
        st.nn[oid] = True
        rec(E, st, 'std::map::operator[]', av, inst, p, key)
        if skey(p) not in st.cont or h.endswith('assign'):
            st.cont[skey(p)] = val
            rec(E, st, 'string.assign', [(('ptr',), p, None), av[2]], inst, None, val)
        return [(st, E.unk(st, inst, rty) if rty[0] != 'void' else None)]
    for v in vals:
        if isinstance(v, tuple):
            use(E, st, v, inst, d.split('(')[0])
    if h.endswith('::operator_shl') and rty[0] == 'ptr' and len(vals) == 2:
        x = None
        if E.cfg.snap and h in E.cfg.record:
            x = E.cfg.snap(E, st, h, vals)
            if 'basic_string' in prm + d[d.find('operator<<'):] and isinstance(vals[1], tuple) and skey(vals[1]) in st.cont and isinstance(x, dict) and 'c' in x:
                x['c'] = (x['c'][0], sget(E, st, vals[1]))
        rec(E, st, h, av, inst, vals[0], x)
        return [(st, vals[0])]
    if 'httplib_post_request' in d:
        return m_http(E, st, inst, av, d)
    if 'https_post_request' in d:
        return None
    if h.startswith('std::') and ('basic_string' in d or 'std::operator+' in d or 'std::__cxx11::to_string' in d):
        mm = h.rsplit('::', 1)[1] if 'basic_string::' in h else ''
        sret = bool(av and av[0][2] and av[0][2][0] == 'sret')
        if mm in ('c_str', 'data'):
            c = sget(E, st, vals[0])
            oid = 'STR:%s.%s' % (vals[0][1], vals[0][2]) if isinstance(vals[0], tuple) and vals[0][0] == 'p' else 'STR:?'
            oid = '%s:%x' % (oid, hash(c) & 0xffffff)
            p = E.lazy(st, oid)
            st.nn[oid] = True
            st.cont[oid] = c
            return [(st, p)]
        if mm in ('length', 'size'):
            c = sget(E, st, vals[0])
            if c[0] == 'lit':
                return [(st, len(c[1]))]
            return [(st, ('s', 'strlen:%r' % (c,), 64, (0, 1 << 40)))]
        if mm == 'compare' and len(vals) >= 4 and isinstance(vals[1], int) and isinstance(vals[2], int):
            a, b = sget(E, st, vals[0]), E.content(st, vals[3]) if 'char const*' in prm else sget(E, st, vals[3])
            if a[0] == b[0] == 'lit' and vals[1] <= len(a[1]):
                x, y = a[1][vals[1]:vals[1] + vals[2]], b[1]
                return [(st, -1 if x < y else int(x > y))]
            return [(st, E.unk(st, inst, rty))]
        if h in ('std::operator==', 'std::operator!=') or mm == 'compare' and len(vals) == 2:
            cs = []
            kinds = (['string'] if mm else []) + prm.split(',')
            for v, kd in zip(vals[:2], kinds):
                lit = E.literal(st, v) if isinstance(v, tuple) and v[0] == 'p' else None
                cs.append(('lit', lit) if lit is not None else E.content(st, v) if 'char const*' in kd else sget(E, st, v))
            if len(cs) < 2:
                return [(st, E.unk(st, inst, rty))]
            from .engine import constraint
            eq = None
            if cs[0] == cs[1]:
                eq = 1
            elif cs[0][0] == cs[1][0] == 'lit':
                eq = 0
            elif ('lit', b'') in cs:
                c = cs[1 - cs.index(('lit', b''))]
                sy = ('s', 'strlen:%r' % (c,), 64, (0, 1 << 40))
            else:
                sy = ('s', 'strcmp:%r:%r:None' % tuple(sorted(cs, key=repr)), 32)
            if mm == 'compare':
                return [(st, int(not eq) if eq is not None else sy if sy[2] == 32 else ('s', 'cmp:' + sy[1], 32))]
            if h == 'std::operator!=':
                return [(st, int(not eq) if eq is not None else constraint('ne', sy, 0))]
            return [(st, eq if eq is not None else constraint('eq', sy, 0))]
        if mm == 'empty':
            c = sget(E, st, vals[0])
            if c[0] == 'lit':
                return [(st, int(not c[1]))]
            from .engine import constraint
            return [(st, constraint('eq', ('s', 'strlen:%r' % (c,), 64, (0, 1 << 40)), 0))]
        if mm in ('basic_string', 'operator=', 'assign'):
            k = skey(vals[0])
            c = ('lit', b'')
            if len(vals) > 1 and isinstance(vals[1], (tuple, int)):
                if prm.startswith('char const*'):
                    need(E, st, vals[1], inst, 'std::string', 0)
                    c = E.content(st, vals[1])
                elif 'basic_string' in prm:
                    c = sget(E, st, vals[1])
            elif mm == 'basic_string' and len(vals) == 1:
                c = ('lit', b'')
            if k:
                st.cont[k] = c
            rec(E, st, 'string.' + ('ctor' if mm == 'basic_string' else 'assign'), av, inst, None, c)
            return [(st, vals[0] if rty[0] == 'ptr' else None)]
        if mm in ('operator+=', 'append', 'push_back'):
            k = skey(vals[0])
            x = ('lit', bytes([vals[1] & 255])) if isinstance(vals[1], int) and prm == 'char' else ('val', repr(vals[1]))
            if prm.startswith('char const*'):
                x = E.content(st, vals[1])
            elif isinstance(vals[1], tuple) and vals[1][0] == 'p':
                x = sget(E, st, vals[1])
            if k:
                st.cont[k] = ('cat', sget(E, st, vals[0]), x)
            rec(E, st, 'string.append', av, inst, None, x)
            return [(st, vals[0] if rty[0] == 'ptr' else None)]
        if mm.startswith('~'):
            return [(st, None)]
        if sret:
            k = skey(vals[0])
            if 'operator+' in d and len(vals) > 2:
                cs = []
                prm = d[d.rindex('operator+'):]
                for v in vals[1:3]:
                    lit = E.literal(st, v) if isinstance(v, tuple) and v[0] == 'p' else None
                    cs.append(('lit', lit) if lit is not None else sget(E, st, v) if isinstance(v, tuple) and skey(v) in st.cont else E.content(st, v) if isinstance(v, tuple) else ('val', v))
                if k:
                    st.cont[k] = ('cat', cs[0], cs[1])
            elif k:
                st.cont[k] = ('s', E.site(st, inst))
            return [(st, None)]
    r = E.unk(st, inst, rty) if rty[0] != 'void' else None
    if isinstance(r, tuple) and r[0] == 'p':
        st.nn[r[1]] = True
    for ty, v, bv in av:
        if bv and bv[0] == 'sret' and skey(v):
            st.cont[skey(v)] = ('s', E.site(st, inst))
    rec(E, st, h, av, inst, r)
    if not h.startswith('std::'):
        for v in vals:
            if isinstance(v, tuple):
                E.escape(st, v)
    return [(st, r)]


def m_http(E, st, inst, av, d):
    """the HTTPS client: negative = transport failure, else the HTTP status and the peer's reply"""
    vals = [v for _, v, _ in av]
    src = 'https_post_request_ca' if '_ca(' in d else 'https_post_request'
    bad, err = st.copy(), st.copy()
    site = E.site(st, inst)
    E.site(bad, inst)
    E.site(err, inst)
    body = sget(E, st, vals[6])
    res = vals[-1]
    info = tuple(sget(E, st, v) if isinstance(v, tuple) and v[0] == 'p' else v for v in vals)
    if E.cfg.snap and ('*' in E.cfg.record or src in E.cfg.record):
        E.cfg.snap(E, st, src, vals)
    for s, tag in ((st, 'ok'), (err, 'err')):
        if src == 'https_post_request' and isinstance(res, tuple):
            fo = E.prog.fields('HttpResponse') or {}
            o = E.obj(s, res[1])
            p = E.alloc(s, inst, 'X509', init='lazy', tag='peer' + tag)
            s.cont[p[1]] = ('tlspeer', site)
            E.poke(s, o, res[2] + fo.get('peer_certificate', 0), p, 8)
            s.cont[('S', res[1], res[2] + fo.get('response', 0))] = ('reply', site, tag)
        elif isinstance(res, tuple):
            s.cont[skey(res)] = ('reply', site, tag)
    addfail(E, bad, src, inst)
    if body != ('lit', b''):
        addfail(E, err, src + ' (HTTP error status)', inst)
    r = ('s', site + '+', 32, (100, 399))
    re_ = ('s', site + 'err', 32, (400, 599))
    rb = ('s', site + '-', 32, (-(1 << 31), -1))
    rec(E, st, src, av, inst, r, info)
    rec(E, err, src, av, inst, re_, info)
    rec(E, bad, src, av, inst, rb, info)
    return [(st, r), (err, re_), (bad, rb)]


SPECIAL = {
    'serialize_str2time': m_str2time,
    'tolower': m_tolower, 'toupper': m_tolower,
    'sa_assert': m_assert, 'strchr': m_strchr, 'strrchr': m_strchr,
    'malloc': m_malloc, 'calloc': m_malloc, 'realloc': m_realloc, 'free': m_free, 'strlen': m_strlen, 'strnlen': m_strnlen,
    'strcmp': m_strcmp, 'strncmp': m_strcmp, 'memcmp': m_strcmp, 'strcasecmp': m_strcmp, 'strncasecmp': m_strcmp,
    'CRYPTO_memcmp': m_strcmp, 'strncpy': m_strncpy, 'sprintf': m_sprintf, 'snprintf': m_sprintf,
    'strcat': m_strcat, 'vsnprintf': m_vformat, 'vsprintf': m_vformat, 'vasprintf': m_vformat, 'asprintf': m_vformat, 'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memccpy': m_memccpy,
    'exit': m_exit, '_exit': m_exit, 'abort': m_exit, '__cxa_throw': m_throw,
    '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE': m_rethrow, '_ZSt9terminatev': m_exit,
    '__clang_call_terminate': m_exit, 'BIO_ctrl': m_bioctrl, 'OPENSSL_sk_push': m_skpush, 'OPENSSL_sk_num': m_sknum, 'OPENSSL_sk_value': m_skvalue,
    'push_array_list': m_push, 'push_keyvalue_list': m_push, 'push_ptr_list': m_push,
    'load_brski_config': m_load_config, 'load_pledge_config': m_load_config, 'load_registrar_config': m_load_config,
    'load_masa_config': m_load_config, 'free_config_content': m_free_config, 'free_pledge_config_content': m_free_config,
    'free_registrar_config_content': m_free_config, 'free_masa_config_content': m_free_config,
    **{k: m_ctype for k in CTYPE},
    'gettimeofday': m_gettimeofday, 'crypto_getcert_meta': m_getcert_meta, 'crypto_getcert_serial': m_getcert_serial,
}
