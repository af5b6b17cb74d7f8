"""V22: private keys go only where keys are meant to go.  V26: text is formatted with constant formats only."""
import re

from ..build import Program
from ..report import Report, Anchor
from ..engine import Engine, Config, U
from ..models import LOGGERS, API, EXT, skey
from .. import gates as G
from .concurrency_checks import Graph, handlers, line_of, name, globals_in
from .server_checks import file_of, HTTP_SRCS
from .cli_checks import Cli, OUT, STREAM, MAIN_OPS

# ------------------------------------------------------------------ V26
# function -> (position of the format, position of the first value or None when the values are in a va_list, 'print' or 'scan' or 'time')
FORMATS = {'printf': (0, 1), 'fprintf': (1, 2), 'dprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'asprintf': (1, 2), 'vprintf': (0, None),
           'vfprintf': (1, None), 'vdprintf': (1, None), 'vsprintf': (1, None), 'vsnprintf': (2, None), 'vasprintf': (1, None), 'syslog': (1, 2),
           'vsyslog': (1, None), 'err': (1, 2), 'errx': (1, 2), 'warn': (0, 1), 'warnx': (0, 1), 'BIO_printf': (1, 2), 'BIO_snprintf': (2, 3),
           'BIO_vprintf': (1, None), 'ERR_add_error_vdata': (1, None), '__fprintf_chk': (2, 3), '__printf_chk': (1, 2), '__sprintf_chk': (3, 4),
           '__snprintf_chk': (4, 5), '__vfprintf_chk': (2, None), 'swprintf': (2, 3), 'wprintf': (0, 1), 'error': (2, 3)}
SCANS = {'sscanf': (1, 2), '__isoc99_sscanf': (1, 2), '__isoc23_sscanf': (1, 2), 'fscanf': (1, 2), '__isoc99_fscanf': (1, 2), '__isoc23_fscanf': (1, 2),
         'scanf': (0, 1), '__isoc99_scanf': (0, 1), '__isoc23_scanf': (0, 1), 'vsscanf': (1, None), 'strftime': (2, None), 'strptime': (1, None), 'strfmon': (2, None)}
CONV = re.compile(r"%(?:%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|q|L)?([a-zA-Z]))")
CSTR = ('::c_str', '::data', '::begin')


def values(fmt):
    """the values a format takes, in order: (conversion, accepted IR types)"""
    out = []
    for m in CONV.finditer(fmt):
        if m.group(0) == '%%':
            continue
        for star in (m.group(2), m.group(3)):
            if star == '*':
                out.append(('*', (('i', 32),)))
        ln, c = m.group(4), m.group(5)
        if c in 'diouxXcC':
            out.append((m.group(0), (('i', 64),) if ln in ('l', 'll', 'z', 'j', 't', 'q') else (('i', 32),)))
        elif c in 'spnS':
            out.append((m.group(0), (('ptr',),)))
        elif c in 'fFeEgGaA':
            out.append((m.group(0), (('double',), ('x86_fp80',), ('fp', 'double'), ('f', 64))))
        elif c == 'm':
            continue
        else:
            out.append((m.group(0), None))
    return out


class Formats:
    def __init__(self, g, rep):
        self.g, self.rep, self.P = g, rep, g.P
        self.defs = {}
        self.known = {}
        for d in (FORMATS, SCANS):
            for n, x in d.items():
                self.known[n] = x
        self.callers = {}
        for f in g.fns:
            for c, i in g.calls[f]:
                h = g.find(f, c)
                self.callers.setdefault(h if h is not None and h.blocks else c, []).append((f, i))

    def definitions(self, f):
        d = self.defs.get(f)
        if d is None:
            d = self.defs[f] = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
        return d

    def string(self, mod, x):
        """the text of a constant string, or None"""
        nm = x[1].lstrip('@').split(':')[-1]
        m = next((m for m in self.P.mods.values() if x[1].startswith('@%s:' % m.name)), mod)
        raw = m.globals_raw.get(nm)
        if raw is None or not re.search(r'\bconstant\b', raw.split('"')[0].split('{')[0]):
            return None
        k = re.search(r'c"((?:[^"\\]|\\.)*)"', raw)
        if k is None:
            return '' if 'zeroinitializer' in raw else None
        t = re.sub(r'\\([0-9A-Fa-f]{2}|\\)', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), k.group(1))
        return t[x[2] if isinstance(x[2], int) else 0:].split('\0')[0]

    def origins(self, f, v, seen=None, depth=0):
        """where a format can come from: ('text', str) | ('const', why) | ('param', k) | ('other', why)"""
        seen = set() if seen is None else seen
        if isinstance(v, tuple) and v[0] == 'p':
            s = self.string(f.mod, v)
            if s is not None:
                yield ('text', s)
            elif self.const_object(f, v):
                yield ('const', v[1])
            else:
                yield ('other', 'the variable %s' % v[1].split(':')[-1].lstrip('@'))
            return
        if not isinstance(v, str):
            yield ('other', 'a computed address') if v != 0 else ('text', '')
            return
        if v in seen:
            return
        if depth > 40:
            yield ('other', 'a computed value')
            return
        seen.add(v)
        ps = [n for ty, n, bv in f.params]
        if v in ps:
            yield ('param', ps.index(v))
            return
        i = self.definitions(f).get(v)
        if i is None:
            yield ('other', 'a computed value')
        elif i.op == 'phi':
            for x in i.a[1].values():
                yield from self.origins(f, x, seen, depth + 1)
        elif i.op == 'select':
            for x in i.a[2:4]:
                yield from self.origins(f, x, seen, depth + 1)
        elif i.op == 'cast':
            yield from self.origins(f, i.a[2], seen, depth + 1)
        elif i.op == 'gep':
            for o in self.origins(f, i.a[1], seen, depth + 1):
                yield ('const', 'part of a constant') if o[0] in ('text', 'const') else o
        elif i.op == 'load':
            # an element of a table of constants
            os_ = list(self.origins(f, i.a[1], set(seen), depth + 1))
            for o in os_ or [('other', '')]:
                yield o if o[0] == 'const' else ('other', 'a value read from memory') if o[0] != 'text' else ('const', 'a table')
        elif i.op == 'call':
            c = i.a[1][1] if isinstance(i.a[1], tuple) and i.a[1][0] == 'f' else None
            d = self.P.dem(c) if c and c.startswith('_Z') else c
            if d and re.search(r'basic_string.*::(c_str|data)\(', d) and i.a[2]:
                got = False
                for o in self.origins(f, i.a[2][0][1], seen, depth + 1):
                    got = True
                    yield o if o[0] == 'const' else ('other', 'a string object')
                return
            if c in ('gettext', 'dgettext', 'ngettext'):
                yield from self.origins(f, i.a[2][-1 if c == 'dgettext' else 0][1], seen, depth + 1)
                return
            h = self.g.find(f, c) if c else None
            if h is None or not h.blocks:
                yield ('other', 'the result of %s' % (d or 'an indirect call'))
                return
            for b in h.order:
                for j in h.blocks[b]:
                    if j.op == 'ret' and j.a[1] is not None:
                        for o in self.origins(h, j.a[1], set(), depth + 3):
                            if o[0] == 'param' and o[1] < len(i.a[2]):
                                yield from self.origins(f, i.a[2][o[1]][1], seen, depth + 3)
                            else:
                                yield o
        elif i.op == 'alloca':
            yield from self.local_string(f, v, seen, depth)
        else:
            yield ('other', 'a computed value')

    def local_string(self, f, v, seen, depth):
        """a local string object: constant when it is only made from constants"""
        made = False
        for b in f.order:
            for i in f.blocks[b]:
                if i.op != 'call':
                    if i.op == 'store' and (i.a[1] == v or i.a[2] == v):
                        yield ('other', 'a local variable')
                    continue
                pos = [k for k, x in enumerate(i.a[2]) if x[1] == v]
                c = i.a[1][1] if isinstance(i.a[1], tuple) and i.a[1][0] == 'f' else ''
                if not pos or c.startswith('llvm.lifetime') or c.startswith('llvm.dbg'):
                    continue
                d = self.P.dem(c) if c.startswith('_Z') else c
                if c.startswith('_ZNK') or re.search(r'::~basic_string|::(begin|end|size|length|empty|c_str|data)\(', d):
                    continue
                if pos == [0] and len(i.a[2]) >= 2 and re.search(r'::basic_string(<.*>)?\(|::operator=\(|::assign\(', d):
                    made = True
                    for o in self.origins(f, i.a[2][1][1], seen, depth + 1):
                        yield ('const', 'a string') if o[0] in ('text', 'const') else ('other', 'a string object')
                    continue
                yield ('other', 'a string object' if 'string' in d else 'a local variable')
        if not made:
            yield ('other', 'a local variable')

    def const_object(self, f, v):
        """a constant table, or a string object declared const"""
        nm = v[1].lstrip('@').split(':')[-1]
        raw = f.mod.globals_raw.get(nm)
        if raw is None:
            return False
        if re.search(r'\bconstant\b', raw.split('"')[0].split('{')[0].split('[')[0]):
            return True
        if ' internal ' in ' ' + raw and not self.touched(f.mod, v[1]):
            return True
        k = re.search(r'!dbg !(\d+)', raw)
        if k is None:
            return False
        var = f.mod.mdfield(int(k.group(1)), 'var')
        ty = f.mod.mdfield(var, 'type') if var is not None else None
        return ty is not None and 'DW_TAG_const_type' in f.mod.md.get(ty, '')

    def touched(self, mod, oid):
        """is a variable ever stored to, or its address given away"""
        for f in mod.fns.values():
            if not f.blocks:
                continue
            f.parse()
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op in ('load', 'gep', 'cast', 'icmp'):
                        continue
                    if oid in set(globals_in(i.a)):
                        return True
        return False

    def run(self):
        todo = list(self.known.items())
        done = set()
        while todo:
            callee, (k, first) = todo.pop()
            key = (callee if isinstance(callee, str) else callee.name, k)
            if key in done:
                continue
            done.add(key)
            for f, i in self.callers.get(callee, ()):
                if k >= len(i.a[2]):
                    continue
                self.rep.count('format arguments judged')
                for o in self.origins(f, i.a[2][k][1]):
                    if o[0] == 'other':
                        self.rep.viol('format-not-constant', file_of(f), name(f), '%s is used as the format of %s' %
                                      (o[1], callee if isinstance(callee, str) else name(callee)), line_of(f, i))
                    elif o[0] == 'param':
                        self.rep.count('functions that pass a format on')
                        todo.append((f, (o[1], o[1] + 1 if self.variadic(f, o[1]) else None)))
                    elif o[0] == 'text' and first is not None and callee not in SCANS:
                        self.fits(f, i, o[1], i.a[2][first:], callee if isinstance(callee, str) else name(callee))

    def variadic(self, f, k):
        return k == len(f.params) - 1 and any(c.startswith('llvm.va_start') for c, _ in self.g.calls[f])

    def fits(self, f, i, fmt, args, callee):
        want = values(fmt)
        self.rep.count('formats checked against their values')
        if len(args) < len(want):
            self.rep.viol('missing-value', file_of(f), name(f), 'the format "%s" of %s takes %d values, %d are given' %
                          (fmt.strip()[:60], callee, len(want), len(args)), line_of(f, i))
            return
        for (c, tys), (ty, v, bv) in zip(want, args):
            if c.endswith('n') and tys == (('ptr',),) and c[-1] == 'n':
                self.rep.viol('format-writes', file_of(f), name(f), 'the format of %s stores through %s' % (callee, c), line_of(f, i))
            elif tys is not None and not self.accepts(tys, ty):
                self.rep.viol('value-type', file_of(f), name(f), 'the value for %s in a format of %s has another type' % (c, callee), line_of(f, i))

    def accepts(self, tys, ty):
        if tys[0][0] == 'i':
            return ty == tys[0]
        if tys[0][0] == 'ptr':
            return ty[0] == 'ptr'
        return ty[0] not in ('i', 'ptr')


def v26(tier):
    rep = Report('V26', 'At every call of a function that takes a format (library functions, and every function of the project found to pass one on), '
                 'the format is traced back to constant text on every path of definitions, and every conversion is matched with a value of its width.')
    P = Program()
    rep.part(formats, P, rep)
    rep.part(formats_http, rep)
    rep.assumptions = ['calls through pointers do not reach a function that takes a format']
    return rep


def formats(P, rep):
    Formats(Graph(P), rep).run()
    rep.need(rep.counts.get('format arguments judged', 0) > 100, 'hardly any formats found')


def formats_http(rep):
    P = Program(HTTP_SRCS)
    g = Graph(P)
    g.fns = [f for f in g.fns if 'httplib.h' not in file_of(f)]
    Formats(g, rep).run()


# ------------------------------------------------------------------ V22
KEYSRC = {'file_to_keybuf', 'crypto_generate_rsakey', 'crypto_generate_eckey', 'crypto_eckey2context', 'crypto_rsakey2context', 'crypto_key2context',
          'PEM_read_PrivateKey', 'PEM_read_bio_PrivateKey', 'd2i_PrivateKey', 'd2i_AutoPrivateKey', 'd2i_PrivateKey_bio', 'd2i_PrivateKey_fp',
          'i2d_PrivateKey', 'EVP_PKEY_keygen', 'EVP_PKEY_generate', 'EVP_PKEY_Q_keygen', 'EVP_EC_gen', 'EVP_RSA_gen', 'evpkey_to_derbuf'}
# project functions whose result holds what they are given; the result of any other call does not tell its arguments
TRANSPARENT = {'copy_binary_array', 'serialize_array2base64str', 'serialize_base64str2array', 'sys_strdup', 'sys_memdup', 'strdup', 'strndup', 'printf_hex',
               'bio_to_ptr', 'serialize_escapestr', 'serialize_keyvalue2json', 'get_attr_array_voucher'}

# functions of the project that are meant to be given a private key, or to hand one back: the arguments it stands in
KEYARGS = {'sign_pledge_voucher_request': (5,), 'sign_voucher_request': (6,), 'sign_masa_pledge_voucher': (5,), 'crypto_sign_cert': (0,),
           'crypto_generate_eccert': (1,), 'crypto_generate_rsacert': (1,), 'crypto_eckey2context': (0,), 'crypto_rsakey2context': (0,),
           'crypto_key2context': (0,), 'crypto_free_keycontext': (0,), 'crypto_sign_eccms': (4,), 'crypto_sign_rsacms': (4,), 'crypto_sign_cms': (4,),
           'crypto_generate_eckey': (0,), 'keybuf_to_file': (0,), 'generate_sign_cert': (1,), 'post_sign_cert': (4,), 'evpkey_to_derbuf': (0, 1)}
# functions that neither keep nor show what they are given
NEUTRAL = {'free_binary_array', 'free_binary_array_content', 'init_binary_array', 'compare_binary_array', 'is_base64'}
some = lambda *k: lambda n: k
rest = lambda k: lambda n: range(k, n)
# what is written by functions that write: the arguments
WRITES = {'printf': rest(1), 'fprintf': rest(2), 'dprintf': rest(2), 'vprintf': rest(1), 'vfprintf': rest(2), 'puts': some(0), 'fputs': some(0), 'fwrite': some(0),
          'write': some(1), 'pwrite': some(1), 'send': some(1), 'sendto': some(1), 'BIO_printf': rest(2), 'syslog': rest(2), 'fputc': some(0), 'putchar': some(0),
          'CMS_sign': some(3), 'CMS_final': some(1), 'X509_NAME_add_entry_by_txt': some(3), 'X509_NAME_add_entry_by_NID': some(3),
          'ASN1_STRING_set': some(1), 'ASN1_OCTET_STRING_set': some(1), 'X509_add1_ext_i2d': some(2), 'X509V3_EXT_conf_nid': some(3), 'setenv': some(1),
          'BIO_new_file': some(0), 'fopen': some(0), 'open': some(0), 'perror': some(0)}
SENDS = {'https_post_request', 'https_post_request_ca', 'httplib_post_request'}
KEYFILES = {'PEM_write_PrivateKey', 'PEM_write_PKCS8PrivateKey', 'PEM_write_bio_PrivateKey', 'PEM_write_bio_PKCS8PrivateKey', 'PEM_write_ECPrivateKey',
            'PEM_write_RSAPrivateKey', 'PEM_write_bio_ECPrivateKey', 'PEM_write_bio_RSAPrivateKey', 'i2d_PrivateKey_fp', 'i2d_PrivateKey_bio', 'keybuf_to_file',
            'i2d_PKCS8PrivateKey_fp', 'i2d_PKCS8PrivateKey_bio', 'PEM_write_PKCS8PrivateKey_nid', 'EVP_PKEY_print_private', 'EVP_PKEY_print_private_fp'}


def holds(E, st, v, secret):
    if secret(E.content(st, v)) or secret(st.cont.get(v[1])) or secret(st.cont.get(skey(v))):
        return True
    a = G.arr(E, st, v)
    return a is not None and secret(a[0])


class Keys:
    """one function with the given parameters holding private keys"""

    def __init__(self, P, rep, f, idx, opaque):
        self.P, self.rep, self.f, self.opaque = P, rep, f, opaque
        nm = [n for ty, n, bv in f.params if not (bv and bv[0] == 'sret')]
        self.roots = tuple('P:' + nm[i] for i in idx if i < len(nm))
        self.passed = {}
        self.nm, self.shown = nm, set()
        self.E, self.R = G.run(P, f, {'*'}, self.snap, param_null={})
        rep.count('functions')
        rep.count('paths to a return', len(self.R.ends))
        rep.count('interpreted instructions', self.R.steps)

    def secret(self, c, depth=0):
        if not isinstance(c, tuple) or not c or depth > 20:
            return False
        k = c[0]
        if k == 'cont' and len(c) == 3:
            o = c[1]
            return isinstance(o, str) and any(o == r or o.startswith((r + '.', r + '~')) for r in self.roots)
        if isinstance(k, str) and k in KEYSRC:
            return True
        if isinstance(k, str) and k in self.opaque and k not in TRANSPARENT:
            return False
        return any(self.secret(x, depth + 1) for x in c)

    def held(self, E, st, v):
        """does the value v, or the buffer inside the structure it points at, hold a key"""
        if not (isinstance(v, tuple) and v[0] == 'p'):
            return False
        return holds(E, st, v, self.secret)

    def snap(self, E, st, src, vals):
        if src in KEYFILES and vals and re.search(r'@(stdout|stderr)', repr(vals[0]) + repr(E.content(st, vals[0]))):
            self.shown.add(src)
        for i, v in enumerate(vals):
            if self.held(E, st, v):
                self.passed.setdefault(src, {}).setdefault(i, (E.content(st, v), E.cur))
        return {}

    def leaks(self):
        """what the function does with a key that only a key file, a signature or the key's owner may see"""
        for src, args in self.passed.items():
            for i, (c, inst) in args.items():
                what = None
                if src in LOGGERS:
                    what = 'a log entry holds'
                elif src in WRITES and i in WRITES[src](len(args)):
                    what = 'the output written with %s holds' % src
                elif re.match(r'std::.*operator_shl$', src) and i == 1:
                    what = 'the output written to a stream holds'
                elif src in self.opaque and src in API and i not in KEYARGS.get(src, ()) and src not in TRANSPARENT | NEUTRAL:
                    what = '%s is given' % src
                elif src in KEYFILES and src in self.shown:
                    what = 'the standard output or error of the process is given'
                elif src in SENDS:
                    what = '%s is given' % src
                if what:
                    yield src, i, what, inst
        for st, v, inst in self.R.ends:
            for oid, c in st.cont.items():
                if isinstance(oid, tuple) and len(oid) == 3 and oid[0] == 'S':
                    oid = oid[1]
                if isinstance(oid, str) and oid.startswith('MAP:'):
                    oid = oid[4:]
                if not isinstance(oid, str) or not oid.startswith('P:') or not isinstance(c, tuple):
                    continue
                if any(oid == r or oid.startswith((r + '.', r + '~')) for r in self.roots) or self.own(oid):
                    continue
                if self.secret(c):
                    yield 'return', oid, 'on return the %s of the caller holds' % self.param_of(oid), inst

    def param_of(self, oid):
        return oid[2:].split('.')[0].split('~')[0]

    def own(self, oid):
        """a parameter through which the function hands a key back"""
        n = self.param_of(oid)
        return n in self.nm and self.nm.index(n) in KEYARGS.get(name(self.f), ())


def v22(tier):
    rep = Report('V22', 'Every function that obtains a private key (reads one from a file, generates one, decodes one) and every function that is given one is '
                 'interpreted on every path; wherever bytes that come from a key - directly, copied, or encoded as text - are passed on, the receiver is judged: '
                 'a log entry, printed or written output, a request, a field of a voucher or certificate, signed content, or a reply is a leak. '
                 'On the call graph, no request handler reaches a function that stores private keys.')
    P = Program()
    rep.part(key_flows, P, rep)
    rep.part(key_files, P, rep)
    rep.part(key_main, P, rep)
    rep.assumptions = ['OpenSSL only signs with the keys it is given', 'certificates and signatures do not tell the key they were made with']
    return rep


def key_flows(P, rep):
    g = Graph(P)
    opaque = set(API) | set(EXT) | set(KEYARGS)
    src = lambda c: P.dem(c).split('(')[0] if c.startswith('_Z') else c
    # functions that get hold of a key themselves or through functions of their own that are not interpreted separately
    own = {f for f in g.fns if f.blocks and any(src(c) in KEYSRC for c, _ in g.calls[f])}
    while True:
        more = {f for f in g.fns if f.blocks and f not in own
                and any(h in own and name(h) not in opaque for h in (g.find(f, c) for c, _ in g.calls[f]))}
        if not more:
            break
        own |= more
    todo = [(f, KEYARGS.get(name(f), ())) for f in g.fns if f.blocks and name(f) != 'main' and (f in own or name(f) in KEYARGS)]
    rep.need(len(todo) > 12, 'the functions that handle private keys were not found')
    for f, idx in todo:
        rep.part(key_function, P, rep, f, idx, opaque)
    rep.need(rep.counts.get('places a key is passed to', 0) > 20, 'no key is passed on anywhere')


def key_function(P, rep, f, idx, opaque):
    k = Keys(P, rep, f, idx, opaque)
    for src, args in k.passed.items():
        rep.count('places a key is passed to', len(args))
        rep.sample('%s -> %s' % (name(f), src))
    for src, i, what, inst in k.leaks():
        h = inst.fn if inst is not None else f
        rep.viol('key-leak', file_of(h), name(h), '%s a private key' % what, k.E.loc(inst)[1] if inst is not None else None)


def key_files(P, rep):
    """keys are stored on request of the operator only, never while a request is handled"""
    g = Graph(P)
    roots = handlers(P, g.fns)
    rep.need(len(roots) >= 5, 'the request handlers were not found')
    reach = g.reach(roots)
    rep.count('functions reachable from request handlers', len(reach))
    for f in g.fns:
        if f not in reach:
            continue
        for c, i in g.calls[f]:
            s = P.dem(c).split('(')[0] if c.startswith('_Z') else c
            if s in KEYFILES:
                rep.viol('key-stored', file_of(f), name(f), 'while a request is handled %s stores a private key' % s, line_of(f, i))


def key_main(P, rep):
    """the program itself shows the key it was asked to make on standard output or in the key file, nowhere else"""
    main = P.fn('main')
    rep.need(main is not None, 'main is not defined')
    inits = [f for f in main.mod.fns.values() if f.name.startswith('_GLOBAL__sub_I')]
    secret = lambda c: any(x in repr(c) for x in ("('post_sign_cert', 4)", "('generate_sign_cert', 1)", "('crypto_generate_eckey', 0)", "('file_to_keybuf',"))
    for opts in ('c', 'co', 'cp', 'ciopad'):
        got = {}

        def snap(E, st, src, vals):
            for i, v in enumerate(vals):
                if isinstance(v, tuple) and v[0] == 'p' and holds(E, st, v, secret):
                    k = STREAM.get(src)
                    err = k is not None and k < len(vals) and any(x in repr(vals[k]) + repr(E.content(st, vals[k]) if isinstance(vals[k], tuple) else '')
                                                                  for x in ('stderr', '_ZSt4cerr', '_ZSt4clog', 'fopen'))
                    got.setdefault((src, i, err), E.cur)
        c = Cli(P, main, inits, opts, 'sign', sum(2 if o in 'ciopa' else 1 for o in opts), record={'*'}, snap=snap)
        rep.count('paths to an exit', len(c.ends))
        rep.count('places a key is passed to', len(got))
        for (src, i, err), inst in got.items():
            what = None
            if src in LOGGERS:
                what = 'a log entry holds'
            elif err:
                what = 'output other than standard output holds'
            elif src in API and i not in KEYARGS.get(src, ()) and src not in TRANSPARENT | NEUTRAL or src in SENDS or src in MAIN_OPS and src != 'post_sign_cert':
                what = '%s is given' % src
            if what:
                h = inst.fn
                rep.viol('key-leak', file_of(h), name(h), '%s a private key' % what, c.E.loc(inst)[1])
