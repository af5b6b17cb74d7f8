"""V23: identities are made of fresh randomness."""
import re

from ..build import Program
from ..engine import U, iv, ladd
from ..models import API, S, apply, setout
from ..report import Report, Anchor
from .. import gates as G
from .concurrency_checks import Graph, line_of, name
from .server_checks import Fn, file_of

WEAK = {'rand', 'rand_r', 'random', 'random_r', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'jrand48', 'srand', 'srandom', 'srand48',
        'RAND_pseudo_bytes', 'RAND_seed', 'RAND_add', 'std::rand', 'std::srand'}
WEAKCXX = re.compile(r'std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|minstd_rand|uniform_int_distribution)')
GOODRAND = ('RAND_bytes', 'RAND_priv_bytes', 'RAND_bytes_ex', 'RAND_priv_bytes_ex', 'getrandom', 'getentropy')
CURVES = {415: 'P-256', 715: 'P-384', 716: 'P-521'}
EVP_PKEY_RSA, EVP_PKEY_EC = 6, 408


def v23(tier):
    rep = Report('V23', 'The functions that draw random bytes, make keys and make the certificate a pledge enrols with are interpreted on every path. '
                 'On every successful path the random bytes fill the whole buffer and come from the generator of OpenSSL that reported success; '
                 'the key is the one the key generator returned, on the curve or with the bits asked for; serial number and subject serialNumber '
                 'of the certificate come from random buffers of at least 64 bits that were drawn successfully, and the key was generated on this path. '
                 'No other random generator is used anywhere.')
    P = Program()
    rep.part(random_bytes, P, rep)
    rep.part(ec_key, P, rep)
    rep.part(rsa_key, P, rep)
    rep.part(enrol_cert, P, rep)
    rep.part(hex_digits, P, rep)
    rep.part(other_generators, P, rep)
    rep.assumptions = ['the generator of OpenSSL is seeded and unpredictable']
    return rep


def need(P, n):
    f = P.fn(n)
    if f is None:
        raise Anchor('%s is not defined' % n)
    f.parse()
    return f


def okint(st, v):
    return isinstance(v, int) and v >= 0 and v < 1 << 31 or isinstance(v, tuple) and v is not U and v[0] == 's' and iv(st, v)[0] >= 0


def maybe_ok(st, v):
    return isinstance(v, int) and 0 <= v < 1 << 31 or isinstance(v, tuple) and v is not U and v[0] == 's' and iv(st, v)[1] >= 0 or v is U


def random_bytes(P, rep):
    f = need(P, 'crypto_getrand')
    k = Fn(P, rep, f, {'*'})
    seen = 0
    for st, v, inst in k.ends:
        if not maybe_ok(st, v):
            continue
        seen += 1
        n = k.p[0]
        a = G.arr(k.E, st, ('p', 'P:' + n, 0))
        good = [e for e in G.events(st) if e[0] in GOODRAND and (e[3] == 1 or e[0].startswith('get'))]
        full = [e for e in good if a and k.E.content(st, e[1][1 if e[0].endswith('_ex') else 0]) == a[0]
                and same(st, e[1][2 if e[0].endswith('_ex') else 1], a[1])]
        rep.count('successful paths judged')
        if not good:
            k.bad('not-random', 'success is reported although no random bytes were drawn successfully', st, inst)
        elif not full:
            k.bad('not-filled', 'success is reported although the buffer was not filled with random bytes from start to end', st, inst)
    if not seen:
        k.bad('never', 'random bytes are never drawn successfully')


def same(st, x, y):
    return G.same(st, whole(st, x), whole(st, y))


def whole(st, x):
    """a length made narrower, where it is known to fit"""
    if isinstance(x, tuple) and x and x[0] == 'tr' and iv(st, x[2])[0] >= 0 and iv(st, x[2])[1] < 1 << (x[1] - 1):
        return x[2]
    return x


def ec_key(P, rep):
    f = need(P, 'crypto_generate_eckey')
    k = Fn(P, rep, f, {'*'})
    key_paths(k, rep, lambda st, v: ('p', 'P:' + k.p[0], 0), EVP_PKEY_EC)


def rsa_key(P, rep):
    f = need(P, 'crypto_generate_rsakey')
    k = Fn(P, rep, f, {'*'})
    key_paths(k, rep, lambda st, v: v, EVP_PKEY_RSA)


def key_paths(k, rep, place, kind):
    E, seen = k.E, 0
    for st, v, inst in k.ends:
        ok = maybe_ok(st, v) if kind == EVP_PKEY_EC else isinstance(v, tuple) and v[0] == 'p'
        if not ok:
            continue
        seen += 1
        rep.count('successful paths judged')
        o = E.obj(st, place(st, v)[1])
        p = G.peek(E, st, o, place(st, v)[2], ('ptr',), 8)
        c = repr(E.content(st, p)) if p is not U else ''
        evs = G.events(st)
        gen = [e for e in evs if e[0] in ('EVP_PKEY_keygen', 'EVP_PKEY_generate', 'EVP_PKEY_Q_keygen', 'EVP_EC_gen', 'EVP_RSA_gen') and good(st, e)]
        if not gen:
            k.bad('not-generated', 'a key is handed out that was not generated', st, inst)
            continue
        if "'der'" in c and gen[-1][0] not in c:
            k.bad('not-generated', 'the key handed out is not the one generated', st, inst)
        if gen[-1][0] in ('EVP_PKEY_Q_keygen', 'EVP_EC_gen', 'EVP_RSA_gen'):
            continue
        if kind == EVP_PKEY_EC:
            cv = [e for e in evs if e[0] in ('EVP_PKEY_CTX_set_ec_paramgen_curve_nid', 'EVP_PKEY_CTX_set_group_name') and good(st, e)]
            if not cv:
                k.bad('curve', 'the curve of the key was not chosen', st, inst)
            elif cv[-1][0].endswith('nid') and cv[-1][1][1] not in CURVES:
                k.bad('curve', 'the curve of the key is none of P-256, P-384 and P-521', st, inst)
        else:
            bits = [e for e in evs if e[0] == 'EVP_PKEY_CTX_set_rsa_keygen_bits' and good(st, e)]
            want = 'P:' + k.p[0]
            if not bits or want not in repr(bits[-1][1][1]) and want[2:] not in repr(bits[-1][1][1]):
                k.bad('bits', 'the key does not have the number of bits asked for', st, inst)
    if not seen:
        k.bad('never', 'a key is never generated successfully')


def good(st, e):
    r = e[3]
    return isinstance(r, int) and r > 0 or isinstance(r, tuple) and (r[0] == 'p' or iv(st, r)[0] > 0)


def getrand(E, st, inst, av, src):
    """the buffer's content and, if it is a number, its value come from this call"""
    outs = apply(E, st, inst, av, src, API.get(src) or S('i00', '0', wr=''))
    site = E.site(st, inst)
    for s, v in outs:
        if not okint(s, v):
            continue
        b = av[0][1]
        fo = E.prog.fields('BinaryArray') or {}
        o = E.obj(s, b[1])
        p = G.peek(E, s, o, b[2] + fo.get('array', 0), ('ptr',), 8) if o is not None else U
        n = G.peek(E, s, o, b[2] + fo.get('length', 8), ('i', 64), 8) if o is not None else U
        if isinstance(p, tuple) and p[0] == 'p':
            if isinstance(n, int) and n in (4, 8) and isinstance(p[2], int) and E.obj(s, p[1]) is not None:
                E.poke(s, E.obj(s, p[1]), p[2], ('s', 'RANDOM:%d:%s' % (n * 8, site), n * 8, (0, (1 << (n * 8)) - 1)), n)
            s.cont[('RND', p[1])] = (n if isinstance(n, int) else 0, p[2])
            s.cont[p[1]] = ('RANDOM', n if isinstance(n, int) else str(n), site)
    return outs


def hexed(E, st, inst, av, src):
    """hexadecimal digits of the bytes given"""
    v = [v for _, v, _ in av]
    c = E.content(st, v[2])
    n = v[3]
    if isinstance(v[0], tuple) and v[0][0] == 'p':
        E.havoc_obj(st, v[0][1]) if hasattr(E, 'havoc_obj') else None
        st.cont[v[0][1]] = ('HEX', c, n if isinstance(n, int) else str(n), v[1] if isinstance(v[1], int) else str(v[1]))
    return [(st, E.unk(st, inst, inst.a[0]))] if inst.a[0][0] != 'void' else [(st, None)]


REC = {'crypto_generate_eccert', 'crypto_generate_rsacert', 'crypto_generate_eckey', 'crypto_generate_rsakey', 'crypto_getrand', 'push_keyvalue_list',
       'X509_sign', 'strtoul'}


def snap(E, st, src, vals):
    out = {'c': tuple(E.content(st, v) if isinstance(v, tuple) else ('num', v) for v in vals)}
    if src in ('crypto_generate_eccert', 'crypto_generate_rsacert'):
        o = E.obj(st, vals[0][1])
        fo = E.prog.fields('crypto_cert_meta') or {}
        if o is not None and 'serial_number' in fo:
            out['serial'] = G.peek(E, st, o, vals[0][2] + fo['serial_number'], ('i', 64), 8)
            for m, ty, n in (('basic_constraints', ('ptr',), 8), ('not_after_absolute', ('ptr',), 8), ('not_before', ('i', 64), 8), ('not_after', ('i', 64), 8)):
                if m in fo:
                    out[m] = G.peek(E, st, o, vals[0][2] + fo[m], ty, n)
            b = out.get('basic_constraints')
            out['bc'] = E.content(st, b) if isinstance(b, tuple) and b[0] == 'p' else b
            out['subject'] = G.peek(E, st, o, vals[0][2] + fo['subject'], ('ptr',), 8)
    return out


def enrol_cert(P, rep):
    f = need(P, 'generate_sign_cert')
    E, R = G.run(P, f, REC, snap, param_null={}, models={'crypto_getrand': getrand, 'printf_hex': hexed})
    rep.count('functions')
    rep.count('paths to a return', len(R.ends))
    rep.count('interpreted instructions', R.steps)
    nm, fl, seen = name(f), file_of(f), 0

    def bad(rule, msg, st, inst):
        rep.viol(rule, fl, nm, msg, E.loc(inst)[1] if inst is not None else None)
    for st, v, inst in R.ends:
        if not maybe_ok(st, v):
            continue
        seen += 1
        rep.count('successful paths judged')
        evs = G.events(st)
        mk = [e for e in evs if e[0].startswith('crypto_generate_') and e[0].endswith('cert') and okint(st, e[3])]
        if not mk:
            bad('no-certificate', 'success is reported although no certificate was made', st, inst)
            continue
        e = mk[-1]
        sn = e[4].get('serial')
        m = re.search(r"RANDOM:(\d+):", repr(sn))
        if m is None and known(sn):
            bad('serial-not-random', 'the serial number of the certificate is not random', st, inst)
        elif m is not None and (int(m.group(1)) < 64 or sn[0] != 's'):
            bad('serial-short', 'the serial number of the certificate has fewer than 64 random bits', st, inst)
        bc = e[4].get('bc')
        if isinstance(bc, tuple) and bc[0] == 'lit' and re.search(rb'CA\s*:\s*(true|yes|1)', bc[1], re.I):
            bad('authority', 'the certificate a pledge enrols with may sign other certificates', st, inst)
        nb, na, ab = (e[4].get(k) for k in ('not_before', 'not_after', 'not_after_absolute'))
        if isinstance(nb, int) and nb > 0:
            bad('not-valid', 'the certificate is not valid yet when the pledge enrols', st, inst)
        elif isinstance(nb, int) and isinstance(na, int) and ab == 0 and na <= nb:
            bad('not-valid', 'the certificate is never valid', st, inst)
        subj = [x for x in evs if x[0] == 'push_keyvalue_list' and x[1][0] == e[4].get('subject') and okint(st, x[3])]
        sns = [x for x in subj if x[4]['c'][1] in (('lit', b'serialNumber'), ('lit', b'2.5.4.5'))]
        rep.count('names judged', len(subj))
        if not sns:
            bad('no-identity', 'the subject of the certificate has no serialNumber', st, inst)
        for x in sns:
            c = x[4]['c'][2]
            r = repr(c)
            if 'RANDOM' not in r and (isinstance(c, tuple) and (c[0] in ('lit', 'num', 'nul') or c[:1] + c[2:] == ('cont', 0)
                                                                and str(c[1]).startswith('A:')) or "'HEX'" in r):
                bad('identity-not-random', 'the serialNumber of the subject is not random', st, inst)
            elif c[0] == 'fmt' and 'RANDOM' not in r and not re.search(r"A:|H:|~|'cont'", r):
                bad('identity-not-random', 'the serialNumber of the subject is not random', st, inst)
            elif c[0] == 'HEX' and 'RANDOM' in r and not (isinstance(c[1], tuple) and c[1][0] == 'RANDOM' and c[1][1] == c[2] and isinstance(c[2], int) and c[2] >= 8):
                bad('identity-short', 'the serialNumber of the subject has fewer than 64 random bits', st, inst)
            elif c[0] == 'HEX' and isinstance(c[3], int) and isinstance(c[2], int) and c[3] < 2 * c[2] + 1:
                bad('identity-short', 'the serialNumber of the subject is cut short', st, inst)
            elif sn is not None and m is not None and shared(r, repr(sn)):
                rep.notes.append('serial number and subject serialNumber come from the same random bytes')
        k = e[4]['c'][1]
        gen = [x for x in evs if x[0] in ("crypto_generate_eckey", "crypto_generate_rsakey") and (okint(st, x[3]) or good(st, x))]
        if not gen or gen[-1][0] not in repr(k):
            bad('key-not-fresh', 'the certificate is not made with the key generated with it', st, inst)
    if not seen:
        bad('never', 'a certificate is never made successfully', None, None)


def known(v):
    return v is not None and v is not U and (isinstance(v, int) or isinstance(v, tuple) and v[0] == 's' and not re.search('~|#|havoc', v[1]))


def shared(a, b):
    x, y = re.search(r"RANDOM', \S+ '([^']*)'", a), re.search(r"RANDOM:\d+:([^']*)'", b)
    return bool(x and y and x.group(1) == y.group(1))


def other_generators(P, rep):
    g = Graph(P)
    for f in g.fns:
        for c, i in g.calls[f]:
            d = P.dem(c) if c.startswith('_Z') else c
            rep.count('calls looked at for random generators')
            if d.split('(')[0] in WEAK or WEAKCXX.search(d):
                rep.viol('weak-generator', file_of(f), name(f), '%s is used' % d.split('(')[0].split('<')[0], line_of(f, i))
    rep.need(rep.counts.get('calls looked at for random generators', 0) > 500, 'hardly any calls found')


def hex_digits(P, rep):
    """a serialNumber made of random bytes shows all of them"""
    f = need(P, 'printf_hex')
    k = Fn(P, rep, f, {'snprintf', 'sprintf'})
    data = 'P:' + k.p[2]
    seen = 0
    for st, v, inst in k.ends:
        n, end = -1, None
        for e in G.events(st):
            m = re.findall(re.escape(data) + r'[.](\d+)', repr(e[1]))
            if not m:
                continue
            x = e[1][-1]
            if not (len(m) == 1 and isinstance(x, tuple) and (x[0] == 's' or x[0] == 'zx' and x[2][0] == 's')):
                break       # formatted some other way than a whole byte at a time
            n += 1
            seen += 1
            d = e[1][0]
            if e[0] == 'snprintf' and isinstance(d, tuple) and d[0] == 'p' and d[2] is not None:
                if end is not None and not (d[1] == end[1] and G.same(st, d[2], end[2])):
                    k.bad('digits', 'the digits of byte %d do not follow those before' % n, st, inst)
                end = (None, d[1], ladd(d[2], e[3]) if e[3] is not None else U)
                if end[2] == U:
                    end = None
            fmt = e[4]['c'][2 if e[0] == 'snprintf' else 1]
            if [int(x) for x in m] != [n]:
                k.bad('digits', 'byte %d of the data is not shown in place %d' % (int(m[0]), n) if int(m[0]) != n else 'a place shows several bytes', st, inst)
            elif fmt[0] == 'lit' and fmt[1] not in (b'%02X', b'%02x', b'%02hhX', b'%02hhx'):
                k.bad('digits', 'a byte is not shown as two hexadecimal digits', st, inst)
    rep.need(seen > 2, 'printf_hex does not format byte by byte')
