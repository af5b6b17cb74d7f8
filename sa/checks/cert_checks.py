"""V25: what is read out of a certificate is what the certificate says, under its own name."""
from ..build import Program
from ..engine import U, iv, st_isnull
from ..models import API, EXT, S, apply, use
from ..report import Report, Anchor
from .. import gates as G
from .crypto_checks import VERIFY, complete, mentions
from .gate_checks import Root
from .identity_checks import need, okint, maybe_ok
from .server_checks import Fn, args, unver, fn
from . import config_checks as C

# OpenSSL's numbers for the attributes of a name, and their short and long names
NIDS = {14: ('C', 'countryName'), 16: ('ST', 'stateOrProvinceName'), 15: ('L', 'localityName'), 17: ('O', 'organizationName'), 18: ('OU', 'organizationalUnitName'),
        13: ('CN', 'commonName'), 48: ('emailAddress',), 105: ('serialNumber',), 100: ('SN', 'surname'), 99: ('GN', 'givenName'), 101: ('initials',),
        106: ('title',), 107: ('description',), 173: ('name',), 174: ('dnQualifier',), 509: ('generationQualifier',), 391: ('DC', 'domainComponent'),
        458: ('UID', 'userId'), 509: ('generationQualifier',), 510: ('pseudonym',), 661: ('postalCode',), 660: ('street', 'streetAddress')}
ALWAYS = (14, 16, 15, 17, 18, 13, 48, 105, 100, 99)


def v25(tier):
    rep = Report('V25', 'crypto_getcert_meta is interpreted with every attribute of the names present, none present, and each one alone present or missing; on every '
                 'successful path the lists handed out hold the first value of each attribute present, under the name of that attribute, the issuer\'s in the '
                 'issuer\'s list and the subject\'s in the subject\'s, nothing else, and the number is the serial number. The other readers are interpreted on '
                 'all paths: what they return derives from the certificate given, whole.')
    P = Program()
    rep.part(meta, P, rep)
    rep.part(number, P, rep)
    rep.part(issuer_text, P, rep)
    rep.part(serial_of, rep, tier)
    rep.part(copies, P, rep)
    rep.part(cert_files, P, rep)
    rep.assumptions = ['OpenSSL finds, encodes and converts the attributes of a name as documented']
    return rep


# ------------------------------------------------------------------ the attributes of issuer and subject
def name_models(present):
    """a name that holds two values of each attribute in 'present'"""
    place = {n: 2 * i for i, n in enumerate(sorted(present))}
    at = {v: n for n, v in place.items()}

    def kind(E, st, v):
        c = repr(E.content(st, v))
        return 'issuer' if 'X509_get_issuer_name' in c else 'subject' if 'X509_get_subject_name' in c else None

    def index(E, st, inst, av, src):
        v = [x for _, x, _ in av]
        use(E, st, v[0], inst, src)
        nid, last = v[1], v[2]
        if not isinstance(nid, int) or not isinstance(last, int):
            return [(st, E.sym(st, inst, 32))]
        last = last - (1 << 32) if last >= 1 << 31 else last
        p = place.get(nid)
        return [(st, -1 if p is None or last > p else p if last < p else p + 1)]

    def entry(E, st, inst, av, src):
        v = [x for _, x, _ in av]
        use(E, st, v[0], inst, src)
        if not isinstance(v[1], int):
            return apply(E, st, inst, av, src, EXT[src])
        nid = at.get(v[1] // 2 * 2)
        if v[1] >= 1 << 31 or v[1] < 0 or nid is None:
            return [(st, 0)]
        p = E.lazy(st, 'X:' + E.site(st, inst))
        st.nn[p[1]] = True
        st.cont[p[1]] = ('ENTRY', nid, v[1] % 2, kind(E, st, v[0]), E.content(st, v[0]))
        return [(st, p)]

    def utf8(E, st, inst, av, src):
        outs = apply(E, st, inst, av, src, EXT[src])
        d = E.content(st, av[1][1])
        for s, r in outs:
            if okint(s, r):
                o = E.obj(s, av[0][1][1])
                q = G.peek(E, s, o, av[0][1][2], ('ptr',), 8)
                if isinstance(q, tuple) and q[0] == 'p':
                    s.cont[q[1]] = ('UTF8', d)
        return outs

    return {'X509_NAME_get_index_by_NID': index, 'X509_NAME_get_entry': entry, 'ASN1_STRING_to_UTF8': utf8}


OTHERWAYS = ('X509_NAME_entry_count', 'X509_NAME_get_text_by_NID', 'X509_NAME_get_text_by_OBJ', 'X509_NAME_get_index_by_OBJ', 'X509_NAME_ENTRY_get_object')


def meta(P, rep):
    f = need(P, 'crypto_getcert_meta')
    cases = [set(ALWAYS), set()] + [set(ALWAYS) - {n} for n in ALWAYS] + [{n} for n in ALWAYS]
    fo = P.fields('crypto_cert_meta') or {}
    rep.need('issuer' in fo and 'subject' in fo, 'the description of a certificate has other members')
    never = True
    for present in cases:
        k = Fn(P, rep, f, {'push_keyvalue_list', 'X509_get_subject_name', 'X509_get_issuer_name', 'X509_get_serialNumber'} | set(OTHERWAYS), unroll=24,
               models=name_models(present))
        cert, m = ['P:' + n for n in k.p[:2]]
        for st, v, inst in k.ends:
            if not maybe_ok(st, v):
                continue
            never = False
            evs = G.events(st)
            if any(e[0] in OTHERWAYS for e in evs):
                rep.notes.append('the attributes of names are read in another way: which are read is not judged')
                return
            rep.count('descriptions judged')
            got = {'issuer': {}, 'subject': {}}
            for e in evs:
                if e[0] != 'push_keyvalue_list' or not okint(st, e[3]):
                    continue
                where = listof(k, st, e[1][0], m, fo)
                key, val = e[4]['c'][1], e[4]['c'][2]
                if where is None:
                    k.bad('wrong-list', 'a fact about the certificate is filed in another list', st, inst)
                    continue
                if key[0] != 'lit':
                    rep.notes.append('the name of an attribute is not a constant: not judged')
                    return
                en = find(val, 'ENTRY')
                kn = key[1].split(b'\0')[0].decode('latin1')
                if en is None:
                    k.bad('wrong-value', 'what is filed as %s of the %s is not a value of the certificate' % (kn, where), st, inst)
                    continue
                if not mentions(en, ('cont', cert, 0)):
                    k.bad('wrong-value', 'what is filed as %s of the %s comes from another certificate' % (kn, where), st, inst)
                if en[3] != where:
                    k.bad('wrong-list', 'the %s of the %s is filed as the %s\'s' % (kn, en[3], where), st, inst)
                if en[1] in NIDS and kn not in NIDS[en[1]]:
                    k.bad('wrong-name', 'the %s of the %s is filed under %s' % (NIDS[en[1]][0], where, kn), st, inst)
                got[where].setdefault(en[1], []).append(en[2])
            for where in got:
                for n in present:
                    vals = got[where].get(n)
                    if not vals:
                        k.bad('left-out', 'the %s of the %s is left out' % (NIDS[n][0], where), st, inst)
                    elif vals[0] != 0:
                        k.bad('wrong-value', 'the first %s of the %s is left out' % (NIDS[n][0], where), st, inst)
    if never:
        k.bad('never', 'a certificate is never described successfully')


def find(c, tag):
    if isinstance(c, tuple):
        if c and c[0] == tag:
            return c
        for x in c:
            r = find(x, tag)
            if r is not None:
                return r
    return None


def listof(k, st, p, m, fo):
    o = k.E.obj(st, m)
    for w in ('issuer', 'subject'):
        if isinstance(p, tuple) and o is not None and p == G.peek(k.E, st, o, fo[w], ('ptr',), 8):
            return w
    return None


def number(P, rep):
    f = need(P, 'crypto_getcert_meta')

    def get(E, st, inst, av, src):
        c = E.content(st, av[1][1])
        outs = apply(E, st, inst, av, src, EXT[src])
        for s, r in outs:
            if r == 1 or isinstance(r, tuple) and r[0] == 's' and iv(s, r)[0] > 0:
                p = av[0][1]
                o = E.obj(s, p[1]) if isinstance(p, tuple) else None
                if o is not None:
                    E.poke(s, o, p[2], ('s', 'NUMBER:%s' % E.site(s, inst), 64), 8)
                    s.cont[('NUMBER', p[1], p[2])] = c
        return outs
    k = Fn(P, rep, f, {'X509_get_serialNumber', 'X509_get0_serialNumber', 'ASN1_INTEGER_get_uint64', 'ASN1_INTEGER_get', 'ASN1_INTEGER_get_int64'}, unroll=2,
           models=dict(name_models(set()), ASN1_INTEGER_get_uint64=get))
    fo = P.fields('crypto_cert_meta') or {}
    good = 0
    for st, v, inst in k.ends:
        if not maybe_ok(st, v):
            continue
        evs = G.events(st)
        if any(e[0] in ('ASN1_INTEGER_get', 'ASN1_INTEGER_get_int64') for e in evs):
            rep.notes.append('the serial number is converted in another way: not judged')
            return
        if st.fails:
            continue
        conv = [e for e in evs if e[0] == 'ASN1_INTEGER_get_uint64']
        o = k.E.obj(st, 'P:' + k.p[1])
        n = G.peek(k.E, st, o, fo['serial_number'], ('i', 64), 8)
        rep.count('serial numbers judged')
        num = [e for e in evs if e[0] in ('X509_get_serialNumber', 'X509_get0_serialNumber')]
        if conv and conv[-1][3] != 0 and not (isinstance(n, tuple) and n[0] == 's' and n[1].startswith('NUMBER:')):
            k.bad('wrong-number', 'the serial number handed out is not the one of the certificate', st, inst)
        elif conv and conv[-1][3] != 0:
            c = conv[-1][4]['c'][1]
            if not mentions(c, ('cont', 'P:' + k.p[0], 0)) or 'serialNumber' not in repr(c):
                k.bad('wrong-number', 'the serial number handed out is not the one of the certificate', st, inst)
            good += 1
        elif not num:
            k.bad('wrong-number', 'success is reported although the serial number was not read', st, inst)
    if not good:
        k.bad('never', 'the serial number is never read')


# ------------------------------------------------------------------ the issuer as text
def issuer_text(P, rep):
    f = need(P, 'crypto_getcert_issuer')
    k = Fn(P, rep, f, {'*'})
    seen = 0
    for st, v, inst in k.ends:
        if v == 0 or not isinstance(v, tuple):
            continue
        seen += 1
        rep.count('issuer texts judged')
        evs = G.events(st)
        pr = [e for e in evs if e[0] in ('X509_NAME_print_ex', 'X509_NAME_oneline', 'X509_NAME_print_ex_fp', 'X509_NAME_print') and okint(st, e[3])]
        if not pr:
            k.bad('not-read', 'success although the issuer was not read', st, inst)
            continue
        if pr[-1][0] != 'X509_NAME_print_ex':
            rep.notes.append('the issuer is turned into text in another way: not judged')
            continue
        e = pr[-1]
        if not (mentions(e[4]['c'][1], ('cont', 'P:' + k.p[0], 0)) and find(e[4]['c'][1], 'X509_get_issuer_name')):
            k.bad('wrong-value', 'the text is not the issuer of the certificate', st, inst)
        a = G.arr(k.E, st, v)
        rd = [x for x in evs if x[0] in ('BIO_ctrl', 'BIO_read', 'BIO_read_ex') and x[1][0] == e[1][0]]
        if not rd or a is None or a[0] == ('nul',) and maybe_text(st, a[1]):
            k.bad('wrong-value', 'what is handed out is not the text', st, inst)
    if not seen:
        k.bad('never', 'the issuer is never handed out')


def maybe_text(st, n):
    return n is U or (n if isinstance(n, int) else iv(st, n)[1]) != 0


# ------------------------------------------------------------------ the subject's serial number
def serial_of(rep, tier):
    import os
    C.driver(rep, ['voucher/crypto_ossl.c', 'voucher/keyvalue.c', 'voucher/array.c', 'utils/os.c', 'utils/log.c', os.path.join(C.HARN, 'serial.c')],
             ('sa_serial_first', 'sa_serial_none', 'sa_serial_list'), set(('crypto_getcert_serial', 'init_keyvalue_list', 'free_keyvalue_list', 'push_keyvalue_list')),
             'src/voucher/crypto_ossl.c', kinds={'assert'})


# ------------------------------------------------------------------ copies
def copies(P, rep):
    for nm, want in (('crypto_cert2buf', 'array'), ('crypto_copycert', 'cert')):
        f = need(P, nm)
        k = Fn(P, rep, f, {'*'})
        seen = 0
        for st, v, inst in k.ends:
            if v == 0 or not isinstance(v, tuple):
                continue
            seen += 1
            rep.count('copies judged')
            cert = ('cont', 'P:' + k.p[0], 0)
            c = G.arr(k.E, st, v)[0] if want == 'array' else k.E.content(st, v)
            if not mentions(c, cert):
                k.bad('wrong-copy', 'what is handed out is not the certificate given', st, inst)
            if want == 'array':
                n = G.arr(k.E, st, v)[1]
                enc = [e for e in G.events(st) if e[0] in ('i2d_X509', 'cert_to_derbuf') and okint(st, e[3])]
                if n == 0 or not enc or not same(st, n, enc):
                    k.bad('wrong-copy', 'the length handed out is not that of the certificate', st, inst)
        if not seen:
            k.bad('never', 'a certificate is never copied')


def same(st, n, enc):
    """the length is one the encoder reported"""
    s = repr(n)
    return any(G.same(st, n, e[3]) or isinstance(e[3], tuple) and e[3][0] == 's' and e[3][1] in s for e in enc)


# ------------------------------------------------------------------ lists of files
def cert_files(P, rep):
    fn(P, 'load_cert_files')
    r = Root(P, rep, 'V25', 'load_cert_files', {'file_to_x509buf', 'push_array_list', 'init_array_list'})
    judged = 0
    for end in r.ends:
        st = end.st
        o = r.E.obj(st, 'P:' + r.p[1])
        out = G.peek(r.E, st, o, 0, ('ptr',), 8)
        if out == 0 or not isinstance(out, tuple) or st_isnull(st, out) == 1:
            used = [e for e in end.named('file_to_x509buf')]
            if used:
                end.bad('left-out', 'files were loaded but nothing is handed out')
            continue
        pushed = [r.E.content(st, e.args[1]) for e in end.named('push_array_list') if e.args[0] == out]
        judged += 1
        rep.count('lists of files judged')
        complete(end, 0, pushed, 'the list of files', 'left-out')
        for c in pushed:
            if not find(c, 'file_to_x509buf'):
                end.bad('wrong-value', 'the list loaded holds something that was not loaded from a file')
    if not judged:
        rep.viol('never', 'src/brski/config.c', 'load_cert_files', 'a list of files is never loaded')
