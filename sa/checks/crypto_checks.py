"""V01 (CMS verification), V06 (signing, certificate issuing, chain verification)."""
import re
from ..build import Program
from ..engine import iv, st_isnull
from ..report import Report, Anchor
from .. import gates as G
from .gate_checks import Root, REC, VERIFY, DESER, opened, same_or_null, SIGNS

SSL = {'CMS_verify', 'CMS_sign', 'OPENSSL_sk_push', 'OPENSSL_sk_num', 'OPENSSL_sk_value', 'X509_STORE_add_cert', 'X509_STORE_add_crl', 'X509_build_chain',
       'X509_verify', 'X509_cmp', 'X509_sign', 'X509_set_pubkey', 'X509_set_issuer_name', 'X509_set_subject_name', 'X509_set_serialNumber',
       'ASN1_INTEGER_set_uint64', 'X509_gmtime_adj', 'X509_NAME_add_entry_by_txt', 'X509V3_EXT_conf_nid', 'X509_add_ext', 'X509_set_version',
       'X509_set1_notAfter', 'ASN1_TIME_set_string', 'BIO_write', 'BIO_write_ex', 'i2d_CMS_bio', 'i2d_X509', 'd2i_PrivateKey', 'd2i_AutoPrivateKey', 'd2i_X509',
       'push_array_list', 'X509_STORE_CTX_init', 'X509_verify_cert', 'EVP_PKEY_CTX_set_rsa_keygen_bits', 'EVP_PKEY_CTX_set_ec_paramgen_curve_nid',
       'X509_STORE_set_flags', 'X509_getm_notAfter', 'X509_getm_notBefore', 'd2i_X509_CRL', 'X509_set_notBefore', 'X509_set_notAfter',
       'EVP_PKEY_keygen', 'i2d_PrivateKey', 'EVP_PKEY_paramgen', 'EVP_PKEY_CTX_new', 'EVP_PKEY_CTX_new_id', 'EVP_PKEY_CTX_new_from_name'}

CMS_TEXT, CMS_NOCERTS, CMS_NO_CONTENT, CMS_NO_ATTR, CMS_NOINTERN, CMS_NOVERIFY, CMS_DETACHED, CMS_BINARY = 1, 2, 4, 8, 16, 32, 64, 128
CMS_NOATTR, CMS_NOSMIMECAP, CMS_STREAM, CMS_NOCRL, CMS_PARTIAL = 256, 512, 4096, 8192, 16384


def ok1(end, e):
    return e.ret is not None and (iv(end.st, e.ret)[0] >= 1 if isinstance(e.ret, (int, tuple)) and not (isinstance(e.ret, tuple) and e.ret[0] == 'p') else False)


def listwalk(end, i):
    """the list passed as parameter i: (elements visited, end of the list reached, walked at all)"""
    head = ('p', 'P:' + end.r.p[i], end.r.P.fields('BinaryArrayList')['list'])
    seen, done, any_ = [], False, False
    for k, f in end.st.facts.items():
        if k[0] == 'peq' and head in k[1:]:
            any_ = True
            o = k[1] if k[2] == head else k[2]
            if f[0] == f[1] == 1:
                done = True
            elif f[0] == f[1] == 0 and o[1].startswith('P:') and o[2] == head[2]:
                seen.append(o[1])
    return seen, done, any_


def mentions(c, what):
    if c == what:
        return True
    return isinstance(c, tuple) and any(mentions(x, what) for x in c)


def elem_arr(end, oid):
    return ('cont', '%s.%d' % (oid, end.r.P.fields('BinaryArrayList')['arr']), 0)


def cont(end, v):
    return end.r.E.content(end.st, v) if isinstance(v, tuple) else v


def cert_stack(end, sk, i, what, rule):
    """sk holds every certificate of the list passed as parameter i"""
    if end.null(i):
        if sk != 0 and any(e.args[0] == sk for e in end.named('OPENSSL_sk_push')):
            end.bad(rule, '%s holds certificates although none were given' % what)
        return
    if sk == 0 or not isinstance(sk, tuple):
        end.bad(rule, '%s is not used' % what)
        return
    pushed = [cont(end, e.args[1]) for e in end.named('OPENSSL_sk_push') if e.args[0] == sk and ok1(end, e)]
    complete(end, i, pushed, what, rule)
    for c in pushed:
        if not (isinstance(c, tuple) and c[0] in ('crypto_cert2context', 'd2i_X509')):
            end.bad(rule, '%s also holds something else' % what)


def complete(end, i, used, what, rule):
    seen, done, any_ = listwalk(end, i)
    end.r.rep.count('list elements followed', len(seen))
    for o in seen:
        a = elem_arr(end, o)
        if not any(mentions(c, a) for c in used):
            end.bad(rule, 'an element of %s is left out' % what)
            return
    if not done:
        end.bad(rule, 'the end of %s is not reached' % what)


def cert_store(end, s, i, rule):
    if end.null(i):
        if isinstance(s, tuple):
            end.bad(rule, 'a certificate store is used although none was given')
        return
    if not isinstance(s, tuple) or cont(end, s) != ('X509_STORE_new',):
        end.bad(rule, 'the certificate store is not used')
        return
    used = [cont(end, e.args[1]) for e in end.named('X509_STORE_add_cert', 'X509_STORE_add_crl') if e.args[0] == s and ok1(end, e)]
    P, E = end.r.P, end.r.E
    seen, done, any_ = listwalk(end, i)
    fl = P.fields('BinaryArrayList')['flags']
    want = {v for n, v in P.enums.items() if n in ('CRYPTO_CERTIFICATE_VALID', 'CRYPTO_CERTIFICATE_CRL')}
    for o in seen:
        ob = end.st.objs.get(o)
        f = E.peek(end.st, ob, fl, ('i', 32), 4, None) if ob is not None else None
        lo, hi = iv(end.st, f) if f is not None else (None, None)
        if lo is not None and lo == hi and lo in want and not any(mentions(c, elem_arr(end, o)) for c in used):
            end.bad(rule, 'an element of the store is left out')
    if not done:
        end.bad(rule, 'the end of the store is not reached')


def verify_cms(P, rep):
    r = Root(P, rep, 'V01', VERIFY, SSL)
    judged = 0
    for end in r.ends:
        st, E = end.st, r.E
        a = r.parr(0)
        v = None
        for e in end.named('CMS_verify'):
            c0 = cont(end, e.args[0])
            if ok1(end, e) and isinstance(c0, tuple) and c0[0].startswith(('d2i_CMS', 'SMIME', 'PEM')) and mentions(c0, a[0]):
                v = e
        if v is None:
            end.bad('signature-not-verified', 'success without CMS_verify accepting the given structure')
            continue
        judged += 1
        if v.args[3] != 0:
            end.bad('detached-content', 'the content verified is not the one inside the structure')
        cert_stack(end, v.args[1], 1, 'the certificate list', 'certificates')
        cert_store(end, v.args[2], 2, 'store')
        fl = v.args[5]
        if not isinstance(fl, int):
            lo, hi = iv(st, fl)
            fl = lo if lo == hi else -1
        allowed = CMS_BINARY | (CMS_NOVERIFY if v.args[2] == 0 or end.null(2) else 0)
        if fl & ~allowed:
            end.bad('verification-flags', 'CMS_verify is told to skip a check (flags 0x%x)' % (fl & 0xffffffff))
        out = E.obj(st, 'P:' + r.p[3])
        p = G.peek(E, st, out, 0, ('ptr',), 8)
        if p == 0 or st_isnull(st, p) == 1:
            if iv(st, end.v) != (0, 0):
                end.bad('data', 'success without data')
        elif cont(end, p) != ('biodata', v.args[4][1] if isinstance(v.args[4], tuple) else None):
            end.bad('data', 'the data handed out is not the verified content')
        if not end.null(4):
            oc = E.obj(st, 'P:' + r.p[4])
            q = G.peek(E, st, oc, 0, ('ptr',), 8)
            c = cont(end, q)
            if c not in (0, ('nul',)) and isinstance(c, tuple):
                if c[0] == 'list':
                    for x in c[2:]:
                        if not (mentions(x, 'CMS_get0_signers') and mentions(x, cont(end, v.args[0]))):
                            end.bad('signer-certificates', "a certificate handed out is not a signer's")
                elif c != ('init_array_list',):
                    end.bad('signer-certificates', 'what is handed out are not the signer certificates')
    rep.count('CMS_verify paths judged', judged)
    return r


def verify_voucher(P, rep):
    r = Root(P, rep, 'V01', 'verify_cms_voucher', REC)
    for end in r.ends:
        V = opened(end, r.parr(0), r.P_(0), 1, 2)
        if V is None or ('p', V.o, 0) != end.v:
            end.bad('voucher-not-verified', 'a voucher is returned that was not read from the verified content')
            continue
        for e in end.named(VERIFY):
            for d in end.named(DESER):
                if end.ok(e) and d.args[1] != e.ret and not G.same(end.st, d.args[1], e.ret):
                    end.bad('length', 'the voucher is not read from exactly the verified bytes')
    # whoever else reads a voucher from bytes has to have verified them
    n = 0
    for f in P.repo_functions():
        f.parse()
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call' and i.a[1] == ('f', DESER):
                    n += 1
                    nm = f.mod.fn_srcname(f)
                    if nm == 'verify_cms_voucher':
                        continue
                    q = Root(P, rep, 'V01', nm, REC, all_ends=True)
                    for end in q.ends:
                        for d in end.named(DESER):
                            if not (isinstance(d.c[0], tuple) and d.c[0][0] == VERIFY):
                                end.bad('voucher-not-verified', 'a voucher is read from bytes that were not verified')
    rep.count('call sites of ' + DESER, n)
    return r


def v01(tier):
    rep = Report('V01', 'Every successful path of crypto_verify_cms has CMS_verify return 1 on the decoded input, with every given '
                 'certificate, the given store and no check switched off, and hands out exactly the verified content; every voucher '
                 'read from bytes is read from such content.')
    P = Program()
    verify_cms(P, rep)
    verify_voucher(P, rep)
    return rep


# ------------------------------------------------------------------ V06
KEYS = {'crypto_eckey2context': ('d2i_PrivateKey', 408), 'crypto_rsakey2context': ('d2i_PrivateKey', 6), 'crypto_key2context': ('d2i_AutoPrivateKey', None)}


def is_key(c, a, kinds=tuple(KEYS)):
    return isinstance(c, tuple) and c and (c[0] in kinds or c[0] in ('d2i_PrivateKey', 'd2i_AutoPrivateKey')) and mentions(c, a)


def is_cert(c, a):
    return isinstance(c, tuple) and c and c[0] in ('crypto_cert2context', 'd2i_X509') and mentions(c, a)


def key_contexts(P, rep):
    for nm, (fn, ty) in KEYS.items():
        r = Root(P, rep, 'V06', nm, SSL)
        for end in r.ends:
            c = cont(end, end.v)
            if not (isinstance(c, tuple) and c[0] == fn and mentions(c, r.P_(0))):
                end.bad('key', 'the key is not read from the given bytes with %s' % fn)
                continue
            for e in end.named(fn):
                if ty is not None and e.args[0] != ty:
                    end.bad('key', 'a key of another type is read')
    r = Root(P, rep, 'V06', 'crypto_cert2context', SSL)
    for end in r.ends:
        if not is_cert(cont(end, end.v), r.P_(0)):
            end.bad('certificate', 'the certificate is not read from the given bytes')


def sign_cms(P, rep):
    for nm in SIGNS:
        r = Root(P, rep, 'V06', nm, SSL)
        kinds = {'crypto_sign_cms': 'crypto_key2context', 'crypto_sign_eccms': 'crypto_eckey2context', 'crypto_sign_rsacms': 'crypto_rsakey2context'}
        for end in r.ends:
            st, E = end.st, r.E
            ss = [e for e in end.named('CMS_sign') if end.ok(e)]
            if not ss:
                end.bad('not-signed', 'success without a signature')
                continue
            s = ss[-1]
            if not is_cert(cont(end, s.args[0]), r.P_(2)):
                end.bad('signer-certificate', 'the signer certificate is not the one given')
            if not is_key(cont(end, s.args[1]), r.P_(4)):
                end.bad('signer-key', 'the signing key is not the one given')
            cert_stack(end, s.args[2], 6, 'the certificate list', 'certificates')
            w = [e for e in end.named('BIO_write', 'BIO_write_ex') if e.args[0] == s.args[3]]
            n = w[0].args[2] if w else None
            if isinstance(n, tuple) and n[0] == 'tr':
                n = n[2]
            ln = E.peek(st, None, 0, None, 0, None) if False else None
            if len(w) != 1 or w[0].args[1] != ('p', 'P:' + r.p[0], 0) or not (isinstance(n, tuple) and n[0] == 's' and n[1] == 'P:' + r.p[1]):
                end.bad('signed-data', 'what is signed is not exactly the given data')
            elif iv(st, w[0].ret)[0] < 0:
                end.bad('signed-data', 'success although the data could not be written')
            fl = s.args[4]
            if not isinstance(fl, int) or not fl & CMS_BINARY or fl & ~(CMS_BINARY | CMS_NOSMIMECAP):
                end.bad('signature-flags', 'CMS_sign flags are %s' % fl)
            out = E.obj(st, 'P:' + r.p[7])
            p = G.peek(E, st, out, 0, ('ptr',), 8)
            c = cont(end, p)
            enc = [e for e in end.named('i2d_CMS_bio') if ok1(end, e) and e.args[1] == s.ret]
            good = any(c == ('biodata', e.args[0][1]) for e in enc) or (isinstance(c, tuple) and c[0] == 'der' and mentions(c, cont(end, s.ret)))
            if p == 0 or st_isnull(st, p) == 1:
                if iv(st, end.v) != (0, 0):
                    end.bad('output', 'success without output')
            elif not good:
                end.bad('output', 'what is handed out is not the encoded signature')


def issued(end, x, key):
    """x is signed with key, the signature was checked and the name/public key set before"""
    st = end.st
    s = [k for k, e in enumerate(end.ev) if e.name == 'X509_sign' and e.args[0] == x and ok1(end, e)]
    if not s:
        end.bad('not-signed', 'success without a signature on the certificate')
        return False
    e = end.ev[s[-1]]
    if e.args[1] != key:
        end.bad('signing-key', 'the certificate is signed with another key')
    if cont(end, e.args[2]) not in (('EVP_sha256',), ('EVP_sha384',), ('EVP_sha512',)):
        end.bad('digest', 'the certificate is not signed with SHA-256')
    if not any(v.name == 'X509_verify' and v.args[0] == x and v.args[1] == key and ok1(end, v) for v in end.ev[s[-1]:]):
        end.bad('signature-not-checked', 'the new signature is not verified')
    for v in end.ev[s[-1]:]:
        if v.name.startswith(('X509_set', 'X509_add_ext')) and v.args[0] == x:
            end.bad('changed-after-signing', 'the certificate is changed after it was signed')
    return True


def meta_rules(end, x, mp):
    st, E, P = end.st, end.r.E, end.r.P
    mo = end.r.P.fields('crypto_cert_meta')
    ver = [e for e in end.named('X509_set_version') if e.args[0] == x and ok1(end, e)]
    if not ver or ver[-1].args[1] != 2:
        end.bad('version', 'the certificate is not an X.509 v3 certificate')
    sn = [e for e in end.named('X509_set_serialNumber') if e.args[0] == x and ok1(end, e)]
    okv = False
    for e in sn:
        for u in end.named('ASN1_INTEGER_set_uint64'):
            if u.args[0] == e.args[1] and ok1(end, u) and isinstance(u.args[1], tuple) and u.args[1][1] == '%s.%d' % (mp, mo['serial_number']):
                okv = True
    if not okv:
        end.bad('serial-number', 'the serial number is not the one given')
    for fn, fld in (('X509_getm_notBefore', 'not_before'), ('X509_getm_notAfter', 'not_after')):
        good = False
        for e in end.named('X509_gmtime_adj'):
            c = cont(end, e.args[0])
            if isinstance(c, tuple) and c[0] == fn and e.args[1:] and isinstance(e.args[1], tuple) and e.args[1][0] == 's' and e.args[1][1] == '%s.%d' % (mp, mo[fld]) and end.ok(e):
                good = True
            if isinstance(c, tuple) and c[0] == fn and isinstance(e.args[1], int):
                f = E.peek(st, E.obj(st, mp), mo[fld], ('i', 64), 8, None)
                good = good or iv(st, f) == (e.args[1], e.args[1])
        if fld == 'not_after' and not good:
            for e in end.named('X509_set1_notAfter'):
                if e.args[0] == x and ok1(end, e):
                    for t in end.named('ASN1_TIME_set_string', 'ASN1_TIME_set_string_X509'):
                        if t.args[0] == e.args[1] and ok1(end, t) and t.args[1] == ('p', '%s.%d' % (mp, mo['not_after_absolute']), 0):
                            good = True
        if not good:
            end.bad('validity', '%s is not the one given' % fld)
    for fn, fld in (('X509_set_issuer_name', 'issuer'), ('X509_set_subject_name', 'subject')):
        lst = '%s.%d' % (mp, mo[fld])
        es = [e for e in end.named(fn) if e.args[0] == x and ok1(end, e)]
        if st.nn.get(lst) is False:
            if es:
                end.bad('name', 'the %s is set although none was given' % fld)
            continue
        if not es:
            end.bad('name', 'the %s is not set' % fld)
            continue
        nm = es[-1].args[1]
        adds = [e for e in end.named('X509_NAME_add_entry_by_txt') if e.args[0] == nm and ok1(end, e)]
        for e in adds:
            if not (isinstance(e.args[1], tuple) and e.args[1][1].startswith(lst + '.') and isinstance(e.args[3], tuple) and e.args[3][1].startswith(lst + '.')):
                end.bad('name', 'an entry of the %s comes from elsewhere' % fld)
        kv = P.fields('keyvalue_list')
        head = ('p', lst, kv['list'])
        done = False
        for k, f in st.facts.items():
            if k[0] == 'peq' and head in k[1:]:
                o = k[1] if k[2] == head else k[2]
                if f[0] == f[1] == 1:
                    done = True
                elif f[0] == f[1] == 0 and o[1].startswith('P:') and o[2] == head[2]:
                    want = (('p', '%s.%d' % (o[1], kv['key']), 0), ('p', '%s.%d' % (o[1], kv['value']), 0))
                    if not any((e.args[1], e.args[3]) == want for e in adds):
                        end.bad('name', 'an entry of the %s is left out' % fld)
        if not done:
            end.bad('name', 'the end of the %s is not reached' % fld)
    bc = '%s.%d' % (mp, mo['basic_constraints'])
    ext = [e for e in end.named('X509_add_ext') if e.args[0] == x and ok1(end, e)]
    if st.nn.get(bc) is False:
        if ext:
            end.bad('basic-constraints', 'an extension is added although none was given')
    else:
        mk = [e for e in end.named('X509V3_EXT_conf_nid') if end.ok(e) and e.args[2] == 87 and e.args[3] == ('p', bc, 0)]
        if not any(e.args[1] == m.ret for e in ext for m in mk):
            end.bad('basic-constraints', 'the basic constraints given are not added')


def gen_certs(P, rep):
    for nm, kc in (('crypto_generate_eccert', 'crypto_eckey2context'), ('crypto_generate_rsacert', 'crypto_rsakey2context')):
        r = Root(P, rep, 'V06', nm, SSL)
        for end in r.ends:
            enc = [e for e in end.named('i2d_X509') if ok1(end, e)]
            if not enc:
                end.bad('output', 'success without an encoded certificate')
                continue
            x = enc[-1].args[0]
            pk = [e for e in end.named('X509_set_pubkey') if e.args[0] == x and ok1(end, e)]
            if not pk or not is_key(cont(end, pk[-1].args[1]), r.P_(1)):
                end.bad('public-key', 'the public key is not that of the key given')
                continue
            issued(end, x, pk[-1].args[1])
            meta_rules(end, x, 'P:' + r.p[0])
            out_is_der(end, 3, x)


def out_is_der(end, i, x, wrapped=True):
    E, st = end.r.E, end.st
    o = E.obj(st, 'P:' + end.r.p[i])
    p = G.peek(E, st, o, 0, ('ptr',), 8)
    c = cont(end, p)
    if not (isinstance(c, tuple) and c[0] == 'der' and c[1] == cont(end, x)):
        end.bad('output', 'the certificate handed out is not the one that was signed')


def sign_cert(P, rep):
    r = Root(P, rep, 'V06', 'crypto_sign_cert', SSL)
    for end in r.ends:
        E, st = r.E, end.st
        enc = [e for e in end.named('i2d_X509') if ok1(end, e)]
        if not enc:
            end.bad('output', 'success without an encoded certificate')
            continue
        x = enc[-1].args[0]
        c = cont(end, x)
        if not is_cert(c, ('cont', 'P:%s.0' % r.p[5], 0)):
            end.bad('subject-certificate', 'the certificate signed is not the one given')
        ks = [e.args[1] for e in end.named('X509_sign') if e.args[0] == x]
        if ks and not is_key(cont(end, ks[-1]), r.P_(0)):
            end.bad('signing-key', 'the certificate is signed with another key')
        issued(end, x, ks[-1] if ks else None)
        iss = [e for e in end.named('X509_set_issuer_name') if e.args[0] == x and ok1(end, e)]
        ic = cont(end, iss[-1].args[1]) if iss else None
        if not (isinstance(ic, tuple) and ic[0] == 'X509_get_subject_name' and is_cert(ic[1], r.P_(2))):
            end.bad('issuer', "the issuer is not the CA certificate's subject")
        out_is_der(end, 5, x)


def chain(P, rep):
    r = Root(P, rep, 'V06', 'crypto_verify_cert', SSL)
    judged = 0
    for end in r.ends:
        st, E = end.st, r.E
        b = [e for e in end.named('X509_build_chain') if end.ok(e)]
        if not b:
            end.bad('chain-not-built', 'a certificate is accepted without building a chain')
            continue
        e = b[-1]
        if not is_cert(cont(end, e.args[0]), r.P_(0)):
            end.bad('chain-subject', 'the chain is not that of the certificate given')
        cert_stack(end, e.args[1], 2, 'the certificate list', 'certificates')
        cert_store(end, e.args[2], 3, 'store')
        cc = cont(end, e.ret)
        num = [v.ret for v in end.named('OPENSSL_sk_num') if v.args[0] == e.ret]
        if not num:
            end.bad('empty-chain', 'an empty chain is accepted')
            continue
        lo, hi = iv(st, num[-1])
        if lo < 1:
            end.bad('empty-chain', 'an empty chain is accepted')
        good = set()
        for v in end.named('X509_verify'):
            if not ok1(end, v):
                continue
            s, k = cont(end, v.args[0]), cont(end, v.args[1])
            if s[:2] == ('OPENSSL_sk_value', cc) and k[0] in ('X509_get0_pubkey', 'X509_get_pubkey') and k[1][:2] == ('OPENSSL_sk_value', cc) \
                    and isinstance(s[2], int) and k[1][2] == s[2] + 1:
                good.add(s[2])
        if hi <= 6:
            judged += 1
            if not set(range(hi - 1)) <= good:
                end.bad('chain-signature', 'a chain is accepted although not every signature in it was verified')
        elif hi > 1 << 20 and not good:
            end.bad('chain-signature', 'a chain is accepted although its signatures were not verified')
        if e.args[2] == 0 or end.null(3):
            anchored = False
            for v in end.named('X509_cmp'):
                if v.ret is None or iv(st, v.ret) != (0, 0):
                    continue
                cs = [cont(end, a) for a in v.args[:2]]
                last = [c for c in cs if isinstance(c, tuple) and c[:2] == ('OPENSSL_sk_value', cc) and is_last(st, c[2], num[-1])]
                own = [c for c in cs if isinstance(c, tuple) and c[:2] == ('OPENSSL_sk_value', cont(end, e.args[1]))]
                if last and own:
                    anchored = True
            if not anchored:
                end.bad('chain-anchor', 'a chain is accepted that does not end in one of the certificates given')
    rep.count('chains judged', judged)


def is_last(st, idx, num):
    from ..engine import ladd
    d = ladd(num, idx, -1)
    return iv(st, d) == (1, 1) if d is not None else False


def v06(tier):
    rep = Report('V06', 'Every successful path of the signing functions signs exactly the given data or certificate with the given key, and '
                 'hands out that signature; every path of crypto_verify_cert that accepts a certificate verified each signature of the '
                 'chain and, without a store, its anchor.')
    P = Program()
    key_contexts(P, rep)
    sign_cms(P, rep)
    gen_certs(P, rep)
    sign_cert(P, rep)
    chain(P, rep)
    return rep
