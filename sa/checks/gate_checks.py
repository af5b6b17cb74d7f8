"""V01..V05: what every successful path of the voucher protocol established and emitted."""
from ..build import Program
from ..engine import iv, ladd, U, st_isnull
from ..report import Report, Anchor
from .. import gates as G
from ..suite import roots

VERIFY, DESER, SER = 'crypto_verify_cms', 'deserialize_voucher', 'serialize_voucher'
SIGNS = ('crypto_sign_cms', 'crypto_sign_eccms', 'crypto_sign_rsacms')
REC = {VERIFY, DESER, SER, 'crypto_verify_cert', 'indirect'} | set(SIGNS)
ATTRS = ('created_on', 'expires_on', 'assertion', 'serial_number', 'idevid_issuer', 'pinned_domain_cert',
         'domain_cert_revocation_checks', 'nonce', 'last_renewal_date', 'prior_signed_voucher_request',
         'proximity_registrar_cert')


class Ev:
    def __init__(self, x):
        self.name, self.args, self.loc, self.ret, self.snap = x
        s = self.snap if isinstance(self.snap, dict) else {}
        self.c = s.get('c', ())          # contents of the arguments
        self.a = s.get('a', ())          # (content, length) of BinaryArray arguments
        self.v = s.get('v')              # voucher members
        self.m = s.get('m')


_pt = {}


def snap(E, st, src, vals):
    if src not in _pt:
        f = E.prog.fn(src)
        _pt[src] = E.prog.param_types(f) if f is not None else ()
    pt = _pt[src]
    out = {'c': tuple(E.content(st, v) if isinstance(v, (tuple, int)) else v for v in vals),
           'a': tuple(G.arr(E, st, v) if i < len(pt) and pt[i] == 'BinaryArray*' else None for i, v in enumerate(vals)),
           'm': tuple(fields_of(E, st, v) if isinstance(v, tuple) and v[0] == 'p' and i < len(pt) and pt[i] == 'tm*' else None for i, v in enumerate(vals))}
    if src == SER:
        out['v'] = G.voucher_fields(E, st, vals[0])
    return out


def fields_of(E, st, v):
    o = E.obj(st, v[1])
    if o is None or not isinstance(v[2], int):
        return None
    tm = E.prog.fields('tm')
    return tuple((f, G.peek(E, st, o, v[2] + tm[f], ('i', 32), 4)) for f in G.TM)


class Root:
    """one function, every path that reports success"""

    def __init__(self, P, rep, rule, name, record, api=False, **kw):
        self.f = P.fn(name)
        if self.f is None:
            raise Anchor('%s is not defined below src/' % name)
        self.P, self.rep, self.rule, self.name = P, rep, rule, name
        kw.setdefault('param_null', {})
        all_ends = kw.pop('all_ends', False)
        self.E, R = G.run(P, self.f, record, snap, use_request_api=api, **kw)
        self.R = R
        self.p = [nm for ty, nm, bv in self.f.params if not (bv and bv[0] == 'sret')]
        self.file = self.f.mod.fn_file(self.f)
        self.file = self.file[self.file.index('/src/') + 1:]
        rk = self.E.models.ret_kind(self.E, self.f)
        self.ends = []
        for st, v, inst in R.ends:
            if all_ends:
                pass
            elif rk == 'null':
                if st_isnull(st, v) == 1:
                    continue
            elif rk in ('neg', 'status', 'zero'):
                lo, hi = iv(st, v) if isinstance(v, (tuple, int)) and v != U else (-1 << 62, 1 << 62)
                if (rk == 'neg' and hi < 0) or (rk == 'status' and lo >= 400) or (rk == 'zero' and not lo <= 0 <= hi):
                    continue
            self.ends.append(End(self, st, v, inst))
        rep.count('functions')
        rep.count('paths to a return', len(R.ends))
        rep.count('successful paths', len(self.ends))
        rep.count('interpreted instructions', R.steps)
        if R.truncated:
            rep.notes.append('%s: stopped at the state limit' % name)
        if not self.ends and not R.truncated:
            self.bad('never-succeeds', 'no path of %s reports success' % name)

    def P_(self, i):
        return ('cont', 'P:' + self.p[i], 0)

    def parr(self, i):
        n = self.p[i]
        fo = self.P.fields('BinaryArray')
        return (('cont', 'P:%s.%d' % (n, fo['array']), 0), ('s', 'P:%s.%d' % (n, fo['length']), 64))

    def ptm(self, i):
        return 'P:%s' % self.p[i]

    def bad(self, rule, msg, end=None, line=None):
        path = []
        if end is not None:
            from ..engine import unlink
            path = [str(x) for x in unlink(end.st.trace)]
            line = line or self.E.loc(end.inst)[1]
        self.rep.viol(rule, self.file, self.name, msg, line, path)


class End:
    def __init__(self, root, st, v, inst):
        self.r, self.st, self.v, self.inst = root, st, v, inst
        self.ev = [Ev(x) for x in G.events(st)]

    def named(self, *names):
        return [e for e in self.ev if e.name in names]

    def d(self, c):
        return G.desc(self.r.E, self.st, c)

    def null(self, i):
        return self.st.nn.get('P:' + self.r.p[i]) is False

    def ok(self, e):
        """the call reported success on this path"""
        if e.ret is None or e.ret == U:
            return False
        if isinstance(e.ret, tuple) and e.ret[0] == 'p':
            return st_isnull(self.st, e.ret) != 1
        lo, hi = iv(self.st, e.ret)
        return lo >= 0

    def bad(self, rule, msg):
        self.r.bad(rule, msg, self)


def ptr_contents(e, skip=()):
    return tuple(c for i, (c, v) in enumerate(zip(e.c, e.args)) if i not in skip and isinstance(v, tuple) and v[0] == 'p')


def same_or_null(end, i, c):
    """content c of an argument is parameter i, or NULL where the parameter is NULL"""
    return c == end.r.P_(i) or (c == ('nul',) and end.null(i))


class Vch:
    """the voucher the CMS structure held, once verified"""

    def __init__(self, end, ptr, out4=None):
        self.o = ptr[1]
        self.P = end.r.P
        self.fo = self.P.fields('Voucher')
        self.end = end
        self.certs = out4

    def name(self, attr, add=0):
        return '%s.%d' % (self.o, self.fo[attr] + add)

    def str(self, attr):
        return ('cont', self.name(attr), 0)

    def arr(self, attr):
        b = self.P.fields('BinaryArray')
        return (('cont', self.name(attr, b['array']), 0), ('s', self.name(attr, b['length']), 64))

    def int(self, attr):
        E, st = self.end.r.E, self.end.st      # as it was read, whatever was stored over it since
        return E.read_init(st, st.objs[self.o], self.fo[attr], ('i', 32), 4)

    def empty_arr(self, attr):
        a = self.arr(attr)
        return self.end.st.nn.get(a[0][1]) is False or iv(self.end.st, a[1]) == (0, 0)


def opened(end, want_arr, want_ptr, certs, store):
    """the voucher obtained by verifying exactly the wanted CMS with the wanted certificates and store"""
    st = end.st
    for e in end.named(VERIFY):
        if not end.ok(e):
            continue
        if not (e.c[0] == want_ptr or (e.a[0] is not None and e.a[0][0] == want_arr[0] and G.same(st, e.a[0][1], want_arr[1]))):
            continue
        if not same_or_null(end, certs, e.c[1]) or not same_or_null(end, store, e.c[2]):
            continue
        pc = tuple(c for i, (c, v) in enumerate(zip(e.c, e.args)) if i not in (3, 4) and isinstance(v, tuple) and v[0] == 'p')
        for d in end.named(DESER):
            if d.c[0] == (VERIFY, 3) + pc and end.ok(d) and isinstance(d.ret, tuple):
                return Vch(end, d.ret, (VERIFY, 4) + pc)
    return None


def norm(c):
    """a bounded copy of the whole string is that string"""
    while isinstance(c, tuple) and c and c[0] == 'pre':
        n = c[2]
        if isinstance(n, int) and n < 64:
            break
        c = c[1]
    return c


def str_is(end, got, *want):
    """the string is one of the wanted ones, or known equal to one"""
    got = norm(got)
    for w in want:
        if got == w or G.eq_str(end.r.E, end.st, got, w):
            return True
    return False


def arr_is(end, got, want):
    return got is not None and got[0] == want[0] and G.same(end.st, got[1], want[1]) or G.eq_arr(end.r.E, end.st, got, want)


def tm_is(fields, base):
    """every member was copied from the struct tm called base"""
    offs = dict(zip(G.TM, (0, 4, 8, 12, 16, 20)))
    return all(isinstance(v, tuple) and v[0] == 's' and v[1] == '%s.%d' % (base, offs[f]) for f, v in fields)


def tm_empty(end, fields):
    return all(G.zero(end.st, v) for f, v in fields)


def is_empty(end, attr, x):
    if x[0] == 'arr':
        return x[1] == ('nul',) or G.zero(end.st, x[2])
    if x[0] == 'str':
        return x[1] == ('nul',)
    if x[0] == 'tm':
        return tm_empty(end, x[1])
    return G.zero(end.st, x[1])


def emitted(end):
    """(voucher members, sign event) of the voucher whose signed serialisation is returned"""
    r, E, st = end.r, end.r.E, end.st
    out = G.arr(E, st, end.v)
    if out is None:
        return None
    for s in end.named(*SIGNS):
        if not end.ok(s):
            continue
        oc = (s.name, 7) + ptr_contents(s, (7,))
        if out[0] != oc or not G.same(st, out[1], s.ret):
            continue
        for e in end.named(SER):
            if end.ok(e) and isinstance(e.ret, tuple) and s.c[0] == (SER,) + ptr_contents(e):
                return e.v, s
    return None


def check_sign(end, s, cert, key, add):
    r = end.r
    a, k = r.parr(cert), r.parr(key)
    if not (s.c[2] == a[0] and G.same(end.st, s.args[3], a[1])):
        end.bad('signing-certificate', 'the voucher is not signed with the certificate passed as parameter %d' % (cert + 1))
    if not (s.c[4] == k[0] and G.same(end.st, s.args[5], k[1])):
        end.bad('signing-key', 'the voucher is not signed with the key passed as parameter %d' % (key + 1))
    if not same_or_null(end, add, s.c[6]):
        end.bad('additional-certificates', 'the additional certificates passed as parameter %d are not put into the CMS structure' % (add + 1))
    n = s.args[1]
    if not (isinstance(n, tuple) and n[0] == 's' and n[1].startswith('strlen:') and repr(s.c[0]) in n[1]):
        end.bad('signed-length', 'the signed data is not the whole serialised voucher')


def check_rest_empty(end, v, used):
    for a in ATTRS:
        if a in v and a not in used and not is_empty(end, a, v[a]):
            end.bad('unexpected-attribute', 'the voucher also carries %s' % a)
    end.r.rep.count('voucher members checked', len(v))


PROX = 'VOUCHER_ASSERTION_PROXIMITY'


def prox(P):
    if PROX not in P.enums:
        raise Anchor('no enumerator ' + PROX)
    return P.enums[PROX]


# ------------------------------------------------------------------ V05 pledge request
def pledge_request(P, rep):
    r = Root(P, rep, 'V05', 'sign_pledge_voucher_request', REC)
    for end in r.ends:
        em = emitted(end)
        if em is None:
            end.bad('request-not-signed', 'the returned bytes are not the signed serialisation of a voucher')
            continue
        v, s = em
        if not tm_is(v['created_on'][1], r.ptm(0)):
            end.bad('created-on', 'created-on is not the time passed as parameter 1')
        if not str_is(end, v['serial_number'][1], r.P_(1)):
            end.bad('serial-number', "serial-number is not the pledge's own")
        if end.null(2):
            if not is_empty(end, 'nonce', v['nonce']):
                end.bad('nonce', 'a nonce is sent although none was given')
        elif not arr_is(end, v['nonce'][1:], r.parr(2)):
            end.bad('nonce', 'the nonce sent is not the one given')
        if v['assertion'][1] != prox(P):
            end.bad('assertion', 'the assertion is not proximity')
        if not arr_is(end, v['proximity_registrar_cert'][1:], r.parr(3)):
            end.bad('proximity-registrar-cert', "proximity-registrar-cert is not the registrar's TLS certificate")
        check_rest_empty(end, v, {'created_on', 'serial_number', 'nonce', 'assertion', 'proximity_registrar_cert'})
        check_sign(end, s, 4, 5, 6)
    return r


# ------------------------------------------------------------------ V03 registrar request
def registrar_request(P, rep):
    r = Root(P, rep, 'V03', 'sign_voucher_request', REC)
    for end in r.ends:
        st = end.st
        L = opened(end, r.parr(0), r.P_(0), 7, 8)
        if L is None:
            end.bad('pledge-request-not-verified', 'success without verifying the pledge request with the given certificates and store')
            continue
        if not G.eq_str(r.E, st, L.str('serial_number'), r.P_(2)):
            end.bad('serial-number-gate', 'success without the serial-number of the request matching the IDevID serial')
        if not arr_is(end, L.arr('proximity_registrar_cert'), r.parr(4)):
            end.bad('proximity-gate', "success without proximity-registrar-cert matching the registrar's TLS certificate")
        if iv(st, L.int('assertion')) != (prox(P), prox(P)):
            end.bad('assertion-gate', 'success with an assertion other than proximity')
        em = emitted(end)
        if em is None:
            end.bad('request-not-signed', 'the returned bytes are not the signed serialisation of a voucher')
            continue
        v, s = em
        if not tm_is(v['created_on'][1], r.ptm(1)):
            end.bad('created-on', 'created-on is not the time passed as parameter 2')
        if not str_is(end, v['serial_number'][1], r.P_(2)):
            end.bad('serial-number', 'serial-number is not the one from the IDevID certificate')
        check_nonce(end, v, L)
        if not arr_is(end, v['idevid_issuer'][1:], r.parr(3)):
            end.bad('idevid-issuer', 'idevid-issuer is not the issuer given')
        if not arr_is(end, v['prior_signed_voucher_request'][1:], r.parr(0)):
            end.bad('prior-signed-voucher-request', "prior-signed-voucher-request is not the pledge's signed request")
        check_rest_empty(end, v, {'created_on', 'serial_number', 'nonce', 'idevid_issuer', 'prior_signed_voucher_request'})
        check_sign(end, s, 5, 6, 9)
    return r


def check_nonce(end, v, src):
    if is_empty(end, 'nonce', v['nonce']):
        if not src.empty_arr('nonce') and not arr_is(end, v['nonce'][1:], src.arr('nonce')):
            end.bad('nonce', 'the nonce of the request is dropped')
    elif not arr_is(end, v['nonce'][1:], src.arr('nonce')):
        end.bad('nonce', 'the nonce is not the one of the request')


# ------------------------------------------------------------------ V04 MASA
def masa_issue(P, rep):
    r = Root(P, rep, 'V04', 'sign_masa_pledge_voucher', REC)
    for end in r.ends:
        st = end.st
        R = opened(end, r.parr(0), r.P_(0), 6, 7)
        if R is None:
            end.bad('request-not-verified', 'success without verifying the registrar request with the given certificates and store')
            continue
        off = ('off', None, R.fo['prior_signed_voucher_request'])
        pc = [e.c[0] for e in end.named(VERIFY) if isinstance(e.c[0], tuple) and e.c[0][0] == 'off' and e.c[0][2] == off[2]
              and e.args[0][1] == R.o]
        L = opened(end, R.arr('prior_signed_voucher_request'), pc[0] if pc else ('none',), 8, 9)
        if L is None:
            end.bad('prior-request-not-verified', "success without verifying the pledge's signed request inside it")
            continue
        if not G.eq_str(r.E, st, L.str('serial_number'), R.str('serial_number')):
            end.bad('serial-number-gate', 'success without the two requests naming the same serial-number')
        cb = [e for e in end.named('indirect')]
        good = None
        for e in cb:
            if len(e.args) == 4 and end.ok(e):
                good = e
        if good is None:
            end.bad('authorisation', 'a voucher is issued without asking the callback, or after it refused')
            continue
        if not str_is(end, good.c[0], L.str('serial_number'), R.str('serial_number')):
            end.bad('authorisation', "the callback is not asked about the pledge's serial-number")
        if good.c[1] != R.certs and not (good.c[1] == ('nul',)):
            end.bad('authorisation', "the callback does not get the certificates that signed the registrar's request")
        if not same_or_null(end, 3, good.c[2]):
            end.bad('authorisation', 'the callback does not get its own context')
        em = emitted(end)
        if em is None:
            end.bad('voucher-not-signed', 'the returned bytes are not the signed serialisation of a voucher')
            continue
        v, s = em
        if v['assertion'][1] != prox(P):
            end.bad('assertion', 'the assertion is not proximity')
        if not str_is(end, v['serial_number'][1], L.str('serial_number'), R.str('serial_number')):
            end.bad('serial-number', "serial-number is not the pledge's")
        check_nonce(end, v, R)
        pin = v['pinned_domain_cert']
        if not (isinstance(pin[1], tuple) and pin[1][0] == 'cb' and pin[2] == ('s', 'len:' + str(pin[1][1]), 64, (0, 1 << 40))):
            end.bad('pinned-domain-cert', 'pinned-domain-cert is not the certificate the callback chose')
        if not G.zero(st, v['domain_cert_revocation_checks'][1]):
            end.bad('revocation-checks', 'domain-cert-revocation-checks is not false')
        if not tm_is(v['expires_on'][1], r.ptm(1)):
            end.bad('expires-on', 'expires-on is not the time passed as parameter 2')
        check_rest_empty(end, v, {'assertion', 'serial_number', 'nonce', 'pinned_domain_cert', 'domain_cert_revocation_checks', 'expires_on'})
        check_sign(end, s, 4, 5, 10)
    return r


# ------------------------------------------------------------------ V02 pledge acceptance
def pledge_accept(P, rep):
    r = Root(P, rep, 'V02', 'verify_masa_pledge_voucher', REC)
    for end in r.ends:
        st = end.st
        V = opened(end, r.parr(0), r.P_(0), 5, 6)
        if V is None:
            end.bad('voucher-not-verified', 'success without verifying the voucher with the given certificates and store')
            continue
        if not G.eq_str(r.E, st, V.str('serial_number'), r.P_(1)):
            end.bad('serial-number-gate', "success without the voucher's serial-number matching the pledge's")
        if not end.null(2) and not arr_is(end, V.arr('nonce'), r.parr(2)):
            end.bad('nonce-gate', "success without the voucher's nonce matching the pledge's")
        pin = V.arr('pinned_domain_cert')
        good = False
        for e in end.named('crypto_verify_cert'):
            t = r.parr(3)
            if not end.ok(e):
                continue
            lst = e.c[2]
            if e.c[0] == t[0] and G.same(st, e.args[1], t[1]) and lst[0] == 'list' and len(lst[2]) == 1 and lst[2][0] == pin[0] \
                    and same_or_null(end, 4, e.c[3]):
                good = True
        if not good:
            end.bad('registrar-not-authenticated', "success without the registrar's TLS certificate verified against pinned-domain-cert")
        out = G.arr(r.E, st, ('p', 'P:' + r.p[8], 0))
        if out is None or out[0] != pin[0] or not G.same(st, out[1], pin[1]):
            end.bad('pinned-domain-cert', "the certificate handed out is not the voucher's pinned-domain-cert")
        rep.count('gates checked', 5)
    return r


# ------------------------------------------------------------------ handlers and pledge drivers
def expect(end, rule, what, got, want):
    end.r.rep.count('argument origins checked')
    if isinstance(want, str):
        want = (want,)
    if got not in want:
        end.bad(rule, '%s is %s, not %s' % (what, short(got), short(want[0])))


def short(s):
    return s if len(s) < 160 else s[:157] + '...'


def darr(end, a):
    return end.d(a[0]) if a is not None else 'nothing'


def b64in(end, e, i):
    """argument i is the decoded form of ...: description"""
    a = e.a[i]
    return darr(end, a)


def is_local_now(end, tm):
    return tm is not None


def registrar_handler(P, rep):
    r = Root(P, rep, 'V03', 'registrar_requestvoucher', {'crypto_getcert_meta', 'crypto_getcert_serial', 'sign_voucher_request',
             'https_post_request', 'get_localtime', 'serialize_base64str2array', 'string.assign', 'crypto_getcert_issuer'}, api=True)
    ctx, body, peer = r.p[5], r.p[1], r.p[2]
    for end in r.ends:
        sv = [e for e in end.named('sign_voucher_request') if end.ok(e)]
        if not sv:
            end.bad('no-voucher-request', 'success without a signed voucher request')
            continue
        e = sv[-1]
        expect(end, 'handler-input', 'the pledge request', darr(end, e.a[0]), 'serialize_base64str2array(2, str(P:%s, 0))' % body)
        expect(end, 'handler-input', 'the serial number', end.d(e.c[2]), 'serialof(certname(subject, %s))' % peer)
        expect(end, 'handler-input', 'the IDevID issuer', darr(end, e.a[3]), 'crypto_getcert_issuer(%s)' % peer)
        c = ctx + '->rconf->'
        expect(end, 'handler-input', "the registrar's TLS certificate", darr(end, e.a[4]), 'file_to_x509buf(%stls_cert_path)' % c)
        expect(end, 'handler-input', 'the signing certificate', darr(end, e.a[5]), 'file_to_x509buf(%scms_sign_cert_path)' % c)
        expect(end, 'handler-input', 'the signing key', darr(end, e.a[6]), 'file_to_keybuf(%scms_sign_key_path)' % c)
        expect(end, 'handler-input', 'the certificates verifying pledges', end.d(e.c[7]), ('load_cert_files(1, %scms_verify_certs_paths)' % c, 'NULL'))
        expect(end, 'handler-input', 'the store verifying pledges', end.d(e.c[8]), ('load_cert_files(1, %scms_verify_store_paths)' % c, 'NULL' if pathnull(end, ctx, 'cms_verify_store_paths') else '-'))
        expect(end, 'handler-input', 'the additional certificates', end.d(e.c[9]), ('load_cert_files(1, %scms_add_certs_paths)' % c, 'NULL'))
        if not any(end.ok(g) and g.args[0][1] == e.args[1][1] for g in end.named('get_localtime')):
            end.bad('handler-input', 'created-on is not the current time')
        posts = [x for x in end.ev if x.name == 'https_post_request' and isinstance(x.snap, tuple)]
        okp = [x for x in posts if x.ret is not None and iv(end.st, x.ret)[0] >= 0 and iv(end.st, x.ret)[1] < 400]
        if len(okp) != 1:
            end.bad('masa-not-asked', 'success without the MASA accepting the voucher request')
            continue
        x = okp[0]
        ds = [end.d(y) for y in x.snap]
        expect(end, 'masa-request', 'the client key', ds[0], c + 'tls_key_path')
        expect(end, 'masa-request', 'the client certificate', ds[1], c + 'tls_cert_path')
        expect(end, 'masa-request', 'the address', ds[2], ctx + '->mconf->bind_address')
        expect(end, 'masa-request', 'the port', ds[3], 'value<%s->mconf->port>' % ctx)
        expect(end, 'masa-request', 'the path', ds[4], '"/.well-known/brski/requestvoucher"')
        expect(end, 'masa-request', 'the media type', ds[7], '"application/voucher-cms+json"')
        sc = ('sign_voucher_request',) + ptr_contents(e)
        if x.snap[6] != ('serialize_array2base64str', 2, sc):
            end.bad('masa-request', 'the body sent to the MASA is not the signed voucher request')
        resp = end.st.cont.get(('S', 'P:' + r.p[4], 0))
        if resp is None or resp[0] != 'reply' or resp[2] != 'ok':
            end.bad('masa-response', "the response is not the MASA's answer")
    return r


def pathnull(end, ctx, field):
    """the optional configuration value is absent on this path"""
    st = end.st
    for o, b in st.nn.items():
        if b is False and G.path_of(end.r.E, st, o) == '%s->rconf->%s' % (ctx, field):
            return True
    return False


def masa_handler(P, rep):
    r = Root(P, rep, 'V04', 'masa_requestvoucher', {'sign_masa_pledge_voucher', 'serialize_str2time', 'string.assign'}, api=True)
    ctx, body = r.p[5], r.p[1]
    for end in r.ends:
        sv = [e for e in end.named('sign_masa_pledge_voucher') if end.ok(e)]
        if not sv:
            end.bad('no-voucher', 'success without a signed voucher')
            continue
        e = sv[-1]
        m, c = ctx + '->mconf->', ctx + '->rconf->'
        expect(end, 'handler-input', 'the voucher request', darr(end, e.a[0]), 'serialize_base64str2array(2, str(P:%s, 0))' % body)
        expect(end, 'handler-input', 'the signing certificate', darr(end, e.a[4]), 'file_to_x509buf(%scms_sign_cert_path)' % m)
        expect(end, 'handler-input', 'the signing key', darr(end, e.a[5]), 'file_to_keybuf(%scms_sign_key_path)' % m)
        for i, what, t in ((6, 'the certificates verifying registrars', m + 'cms_verify_certs_paths'),
                           (7, 'the store verifying registrars', m + 'cms_verify_store_paths'),
                           (8, 'the certificates verifying pledges', c + 'cms_verify_certs_paths'),
                           (9, 'the store verifying pledges', c + 'cms_verify_store_paths'),
                           (10, 'the additional certificates', m + 'cms_add_certs_paths')):
            ok = ['load_cert_files(1, %s)' % t]
            if any(b is False and G.path_of(r.E, end.st, o) == t for o, b in end.st.nn.items()):
                ok.append('NULL')
            expect(end, 'handler-input', what, end.d(e.c[i]), ok)
        st2 = [t for t in end.named('serialize_str2time') if end.ok(t) and end.d(t.c[0]) == m + 'expires_on' and t.args[1][1] == e.args[1][1]]
        if not st2:
            end.bad('handler-input', 'expires-on is not the configured time')
        cb = e.args[2]
        if not (isinstance(cb, tuple) and cb[0] == 'f'):
            end.bad('handler-input', 'no callback chooses the pinned certificate')
        sc = ('sign_masa_pledge_voucher',) + ptr_contents(e)
        resp = end.st.cont.get(('S', 'P:' + r.p[4], 0))
        if resp != ('serialize_array2base64str', 2, sc):
            end.bad('masa-response', 'the response is not the signed voucher')
    # the callback
    cbn = {e.args[2][1] for end in r.ends for e in end.named('sign_masa_pledge_voucher') if isinstance(e.args[2], tuple) and e.args[2][0] == 'f'}
    for n in cbn:
        f = P.find(n)
        if f is None:
            continue
        nm = f.mod.fn_srcname(f)
        q = Root(P, rep, 'V04', nm, set())
        fo = P.fields('MasaContext') or {}
        for end in q.ends:
            out = G.arr(q.E, end.st, ('p', 'P:' + q.p[3], 0))
            want = '%s->ldevid_ca_cert->array' % q.p[2]
            if out is None or end.d(out[0]) != want or end.d(out[1]) != 'value<%s->ldevid_ca_cert->length>' % q.p[2]:
                end.bad('pinned-domain-cert', "the pinned certificate is not the MASA's configured LDevID CA certificate")
    for end in r.ends:
        pass
    return r


def pledge_driver(P, rep, what):
    """post_voucher_pledge_request / post_sign_cert: what the pledge sends, to whom, and what it checks"""
    r = Root(P, rep, what, 'post_voucher_pledge_request', {'sign_pledge_voucher_request', 'verify_masa_pledge_voucher', 'https_post_request',
             'get_localtime', 'serialize_str2time', 'serialize_base64str2array'}, api=True)
    pc, rc = r.p[0], r.p[1]
    for end in r.ends:
        posts = [x for x in end.ev if x.name == 'https_post_request' and isinstance(x.snap, tuple)]
        sp = [e for e in end.named('sign_pledge_voucher_request') if end.ok(e)]
        vm = [e for e in end.named('verify_masa_pledge_voucher') if end.ok(e)]
        for x in posts:
            ds = [end.d(y) for y in x.snap]
            expect(end, 'pledge-request', 'the client key', ds[0], pc + '->idevid_key_path')
            expect(end, 'pledge-request', 'the client certificate', ds[1], pc + '->idevid_cert_path')
            expect(end, 'pledge-request', 'the address', ds[2], rc + '->bind_address')
            expect(end, 'pledge-request', 'the port', ds[3], 'value<%s->port>' % rc)
            expect(end, 'pledge-request', 'the path', ds[4], '"/.well-known/brski/requestvoucher"')
            expect(end, 'pledge-request', 'the media type', ds[7], '"application/voucher-cms+json"')
        if what == 'V05':
            if not sp:
                end.bad('pledge-request', 'success without a signed voucher request')
                continue
            e = sp[-1]
            expect(end, 'driver-input', 'the serial number', end.d(e.c[1]), (pc + '->serial_number'))
            got = darr(end, e.a[2]) if e.a[2] else 'NULL'
            nonce_null = any(b is False and G.path_of(r.E, end.st, o) == pc + '->nonce' for o, b in end.st.nn.items())
            expect(end, 'driver-input', 'the nonce', got, 'NULL' if nonce_null else 'serialize_base64str2array(2, %s->nonce)' % pc)
            peers = {('tlspeer', ) + (y,) for x in posts for y in ()}
            a = e.a[3][0] if e.a[3] else None
            if not (isinstance(a, tuple) and a[0] == 'crypto_cert2buf' and a[1][0] == 'tlspeer'):
                end.bad('driver-input', 'proximity-registrar-cert is not the certificate of the TLS peer')
            expect(end, 'driver-input', 'the signing certificate', darr(end, e.a[4]), 'file_to_x509buf(%s->cms_sign_cert_path)' % pc)
            expect(end, 'driver-input', 'the signing key', darr(end, e.a[5]), 'file_to_keybuf(%s->cms_sign_key_path)' % pc)
            expect(end, 'driver-input', 'the additional certificates', end.d(e.c[6]), ('load_cert_files(1, %s->cms_add_certs_paths)' % pc, 'NULL'))
            tm = e.args[0][1]
            now = any(end.ok(g) and g.args[0][1] == tm for g in end.named('get_localtime'))
            cfg = any(end.ok(g) and g.args[1][1] == tm and end.d(g.c[0]) == pc + '->created_on' for g in end.named('serialize_str2time'))
            if not now and not cfg:
                end.bad('driver-input', 'created-on is neither the configured nor the current time')
            sc = ('sign_pledge_voucher_request',) + ptr_contents(e)
            if not any(x.snap[6] == ('serialize_array2base64str', 2, sc) for x in posts):
                end.bad('pledge-request', 'the body sent to the registrar is not the signed voucher request')
        else:
            if not vm:
                end.bad('voucher-not-checked', 'success without checking the voucher')
                continue
            e = vm[-1]
            a = e.a[0][0] if e.a[0] else None
            last = posts[-1] if posts else None
            if not (isinstance(a, tuple) and a[0] == 'serialize_base64str2array' and a[2][0] == 'reply' and a[2][2] == 'ok'):
                end.bad('driver-input', "what is checked is not the registrar's answer")
            expect(end, 'driver-input', 'the serial number', end.d(e.c[1]), pc + '->serial_number')
            nonce_null = any(b is False and G.path_of(r.E, end.st, o) == pc + '->nonce' for o, b in end.st.nn.items())
            expect(end, 'driver-input', 'the nonce', darr(end, e.a[2]) if e.a[2] else 'NULL', 'NULL' if nonce_null else 'serialize_base64str2array(2, %s->nonce)' % pc)
            t = e.a[3][0] if e.a[3] else None
            if not (isinstance(t, tuple) and t[0] == 'crypto_cert2buf' and t[1][0] == 'tlspeer' and isinstance(a, tuple) and len(a) > 2 and a[2][0] == 'reply'
                    and t[1][1] == a[2][1]):
                end.bad('driver-input', 'the certificate checked is not the one of the connection that delivered the voucher')
            expect(end, 'driver-input', 'the certificates verifying the MASA', end.d(e.c[5]), ('load_cert_files(1, %s->cms_verify_certs_paths)' % pc, 'NULL'))
            ok = ['load_cert_files(1, %s->cms_verify_store_paths)' % pc]
            if any(b is False and G.path_of(r.E, end.st, o) == pc + '->cms_verify_store_paths' for o, b in end.st.nn.items()):
                ok.append('NULL')
            expect(end, 'driver-input', 'the store verifying the MASA', end.d(e.c[6]), ok)
            out = G.arr(r.E, end.st, ('p', 'P:' + r.p[3], 0))
            if out is None or out[0] != ('pinned',):
                end.bad('pinned-domain-cert', 'the certificate handed out is not the one the voucher pins')
    return r


def v02(tier):
    rep = Report('V02', 'Every path of verify_masa_pledge_voucher that returns success carries: the voucher verified with the given '
                 'certificates and store, equal serial-number, equal nonce (when one was sent), the TLS certificate verified against '
                 'pinned-domain-cert; the certificate handed out is the pinned one. The pledge driver passes the right inputs.')
    P = Program()
    pledge_accept(P, rep)
    pledge_driver(P, rep, 'V02')
    return rep


def v03(tier):
    rep = Report('V03', 'Every path of sign_voucher_request that returns a request carries the gates on the pledge request, and the '
                 'voucher serialised and signed holds exactly the required attributes; the handler feeds it from the authenticated peer.')
    P = Program()
    registrar_request(P, rep)
    registrar_handler(P, rep)
    return rep


def v04(tier):
    rep = Report('V04', 'Every path of sign_masa_pledge_voucher that returns a voucher carries the gates on both requests and the '
                 'callback, and the voucher serialised and signed holds exactly the required attributes.')
    P = Program()
    masa_issue(P, rep)
    masa_handler(P, rep)
    return rep


def v05(tier):
    rep = Report('V05', 'Every path of sign_pledge_voucher_request that returns a request serialises and signs a voucher holding exactly '
                 'the required attributes; the pledge driver sends it, over its IDevID connection.')
    P = Program()
    pledge_request(P, rep)
    pledge_driver(P, rep, 'V05')
    return rep
