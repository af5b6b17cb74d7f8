"""V16..V18: what HTTP replies say, which route reaches which handler, and how the TLS endpoints are set up."""
import re

from ..build import Program
from ..engine import iv, U, st_isnull
from ..models import flat, skey
from ..report import Report, Anchor
from .. import gates as G
from .gate_checks import Root

HTTP_SRCS = ['brski/http/httplib_wrapper.cpp', 'brski/http/https_server.cpp', 'brski/http/https_client.cpp']
CT = 'application/voucher-cms+json'


def args(E, st, src, vals):
    """content of every argument: strings by their text, other objects by their origin"""
    ty = string_args(E, st, len(vals))
    out = {'c': tuple(st.cont.get(skey(v)) or (('str', v[1], v[2]) if t and skey(v) else E.content(st, v) if isinstance(v, (tuple, int)) else ('num', v))
                      for v, t in zip(vals, ty))}
    if src == 'https_start':
        fo, o = E.prog.fields('http_config') or {}, E.obj(st, vals[0][1])
        out['cfg'] = {n: val(E, st, o, vals[0][2] + off, n != 'port') for n, off in fo.items()}
        c = E.obj(st, vals[2][1]) if isinstance(vals[2], tuple) and vals[2][0] == 'p' else None
        fo = E.prog.fields('RegistrarContext' if 'registrar' in E.fname(E.root) else 'MasaContext') or {}
        out['ctx'] = {n: G.peek(E, st, c, vals[2][2] + fo[n], ('ptr',), 8) for n in ('rconf', 'mconf') if n in fo} if c is not None else {}
    if src == 'crypto_sign_cert' and isinstance(vals[-1], tuple) and vals[-1][0] == 'p':
        o = E.obj(st, vals[-1][1])
        p = G.peek(E, st, o, vals[-1][2], ('ptr',), 8) if o is not None else U
        out['in'] = E.content(st, p) if p is not U else None
    if src.startswith('std::vector::'):
        out['el'] = tuple(route_of(E, st, ('p', vals[1][1], vals[1][2] + i * 72))
                          for i in range(vals[2] if len(vals) > 2 and isinstance(vals[2], int) and 0 < vals[2] < 100 else 1)) \
            if len(vals) > 1 and isinstance(vals[1], tuple) and vals[1][0] == 'p' and isinstance(vals[1][2], int) else ()
    return out


def string_args(E, st, n):
    """which arguments of the call at hand are std::string objects"""
    name, _ = E.callee(st, st.frames[-1], E.cur)
    d = E.prog.dem(name) if name else ''
    if '(' not in d:
        return [False] * n
    ps = [('basic_string' in p or re.search(r'std::(__cxx11::)?string\b', p)) and '*' not in p and 'vector' not in p and 'map' not in p for p in flat(d)[1].split(',')]
    ps = [False] * max(0, n - len(ps)) + ps
    return ps[:n]


def val(E, st, o, off, ptr):
    v = G.peek(E, st, o, off, ('ptr',) if ptr else ('i', 32), 8 if ptr else 4)
    if ptr:
        return ('nul',) if v == 0 else E.content(st, v) if isinstance(v, tuple) else ('num', v)
    return v if isinstance(v, tuple) and v[0] == 's' else ('num', v)


def unver(c):
    """the origin of a value, whatever happened in between to the object holding it"""
    if isinstance(c, str):
        return re.sub(r'~\d+', '', c)
    return tuple(unver(x) for x in c) if isinstance(c, tuple) else c


def route_of(E, st, p):
    fo = E.prog.fields('RouteTuple') or {}
    at = lambda n: ('p', p[1], p[2] + fo[n])
    o = E.obj(st, p[1])
    return (st.cont.get(skey(at('path'))), G.peek(E, st, o, p[2] + fo['method'], ('i', 32), 4) if o is not None else None,
            st.cont.get(skey(at('handle'))))


def file_of(f):
    fl = f.mod.fn_file(f)
    return fl[fl.index('/src/') + 1:] if '/src/' in fl else fl


class Fn:
    """one function and all its paths, events with argument contents"""

    def __init__(self, P, rep, f, record, snap=args, **kw):
        self.P, self.rep, self.f = P, rep, f
        self.E, R = G.run(P, f, record, snap, param_null={}, **kw)
        self.name, self.file = f.mod.fn_srcname(f), file_of(f)
        self.ends, self.R = R.ends, R
        self.p = [nm for ty, nm, bv in f.params if not (bv and bv[0] == 'sret')]
        rep.count('functions')
        rep.count('paths to a return', len(R.ends))
        rep.count('interpreted instructions', R.steps)
        if R.truncated:
            rep.notes.append('%s: stopped at the state limit' % self.name)

    def bad(self, rule, msg, st=None, inst=None, name=None):
        from ..engine import unlink
        self.rep.viol(rule, self.file, name or self.name, msg, self.E.loc(inst)[1] if inst is not None else None,
                      [str(x) for x in unlink(st.trace)] if st is not None else ())

    def d(self, st, c):
        return G.desc(self.E, st, c)


def fn(P, name):
    f = P.fn(name)
    if f is None:
        raise Anchor('%s is not defined below src/' % name)
    f.parse()
    return f


# ------------------------------------------------------------------ V17: routes
M = {'GET': 0, 'HEAD': 1, 'POST': 2, 'PUT': 3, 'DELETE': 4, 'CONNECT': 5, 'OPTIONS': 6, 'TRACE': 7, 'PATCH': 8, 'PRI': 9}
W = '/.well-known/'
REGISTRAR = {(W + 'brski/requestvoucher', 'POST'): 'registrar_requestvoucher', (W + 'brski/voucher_status', 'POST'): 'registrar_voucher_status',
             (W + 'brski/requestauditlog', 'POST'): 'registrar_requestauditlog', (W + 'brski/enrollstatus', 'POST'): 'registrar_enrollstatus',
             (W + 'est/simpleenroll', 'POST'): 'registrar_est_simpleenroll'}
MASA = {(W + 'brski/requestvoucher', 'POST'): 'masa_requestvoucher', (W + 'brski/voucher_status', 'POST'): 'masa_voucher_status',
        (W + 'brski/requestauditlog', 'POST'): 'masa_requestauditlog', (W + 'brski/enrollstatus', 'POST'): 'masa_enrollstatus',
        (W + 'est/cacerts', 'GET'): 'get_est_cacerts', (W + 'est/simpleenroll', 'POST'): 'post_est_simpleenroll',
        (W + 'est/simplereenroll', 'POST'): 'post_est_simplereenroll', (W + 'est/fullcmc', 'POST'): 'post_est_fullcmc',
        (W + 'est/serverkeygen', 'POST'): 'post_est_serverkeygen', (W + 'est/csrattrs', 'GET'): 'get_est_csrattrs'}
SERVERS = (('registrar_start', ['brski/registrar/registrar_server.cpp', 'brski/registrar/registrar_api.cpp', 'utils/os.c'], REGISTRAR),
           ('masa_start', ['brski/masa/masa_server.cpp', 'brski/masa/masa_api.cpp', 'utils/os.c'], MASA))
VEC = ('push_back', 'emplace_back', 'vector', 'operator=', 'assign', 'insert')


def route_table(rep, start, srcs, table):
    P = Program(srcs)
    r = Fn(P, rep, fn(P, start), {'std::vector::' + v for v in VEC} | {'https_start', 'httplib_start'}, unroll=24)
    seen = 0
    inv = {v: k for k, v in M.items()}
    for st, v, inst in r.ends:
        evs = G.events(st)
        starts = [e for e in evs if e[0] in ('https_start', 'httplib_start')]
        for s in starts:
            vec = s[1][1]
            got = {}
            for e in evs[:evs.index(s)]:
                if not e[0].startswith('std::vector::') or e[1][0] != vec:
                    continue
                for path, method, handle in e[4].get('el', ()):
                    if path is None or path[0] != 'lit' or not isinstance(method, int) or handle is None or handle[0] != 'callable':
                        got[None] = True
                        continue
                    k = (path[1].decode('latin1'), inv.get(method, str(method)))
                    f = P.find(handle[1], r.f.mod)
                    n = f.mod.fn_srcname(f) if f is not None else P.dem(handle[1]).split('(')[0]
                    rep.count('routes')
                    seen += 1
                    if k in got and got[k] != n:
                        r.bad('route', '%s %s is registered for %s and for %s' % (k[1], k[0], got[k], n), st)
                    got.setdefault(k, n)
            if None in got or not got:
                continue
            for k, n in table.items():
                g = got.get(k)
                if g is None:
                    r.bad('route', '%s %s is not registered' % (k[1], k[0]), st)
                elif g != n:
                    r.bad('route', '%s %s is answered by %s, not %s' % (k[1], k[0], g, n), st)
    rep.need(seen, 'no constant route table in %s' % start)


VERBS = {'Get': 'GET', 'Post': 'POST', 'Put': 'PUT', 'Delete': 'DELETE', 'Options': 'OPTIONS', 'Patch': 'PATCH'}


def target(P, f0):
    """the project function a std::function built by this constructor finally calls"""
    todo, seen = [f0], set()
    while todo:
        n, mod = todo.pop(0)
        f = P.find(n, mod)
        if f is None or n in seen:
            continue
        seen.add(n)
        if '/src/' in (f.mod.fn_file(f) or '') and 'httplib.h' not in f.mod.fn_file(f) and f.mod.fn_srcname(f).startswith('operator()'):
            return f
        f.parse()
        for b in f.order:
            for i in f.blocks[b]:
                vs = []
                if i.op == 'call':
                    vs = [v for _, v, _ in i.a[2]] + [i.a[1]]
                elif i.op == 'store':
                    vs = [i.a[1]]
                for v in vs:
                    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'f':
                        todo.append((v[1], f.mod))
    return None


def registration(rep, P):
    f = fn(P, 'httplib_register_routes')
    r = Fn(P, rep, f, {'httplib::Server::' + v for v in VERBS} | {'httplib::SSLServer::' + v for v in VERBS}, vec_one=True, unroll=3)
    fo = P.fields('RouteTuple')
    srv, vec, ctx = r.p[:3]
    el = 'VEC:P:%s.0' % vec
    handlers = {}
    done = set()
    for st, v, inst in r.ends:
        evs = G.events(st)
        o = st.objs.get(el)
        if o is None:
            continue
        m = G.peek(r.E, st, o, fo['method'], ('i', 32), 4)
        lo, hi = iv(st, m) if m is not U else (None, None)
        verb = [k for k, n in M.items() if n == lo] if lo is not None and lo == hi else []
        lo, hi = iv(st, v) if isinstance(v, (tuple, int)) else (0, 0)
        if hi < 0:
            continue
        for e in evs:
            w = VERBS[e[0].rsplit('::', 1)[1]]
            rep.count('registrations judged')
            if verb and w != verb[0]:
                r.bad('registration', 'a %s route is registered for %s requests' % (verb[0], w), st)
            if e[4]['c'][0] != ('cont', 'P:' + srv, 0):
                r.bad('registration', 'a route is registered with another server', st)
            if e[4]['c'][1] != ('str', el, fo['path']):
                r.bad('registration', 'a %s route is registered under another path' % w, st)
            k = e[4]['c'][2]
            if k and k[0] == 'lambda':
                t = target(P, (k[1], f.mod))
                if t is not None:
                    hs = [off for off, c in k[2] if c == ('fnobj', el, fo['handle'])]
                    us = [off for off, c in k[2] if c == ('cont', 'P:' + ctx, 0)]
                    handlers.setdefault(t.name, (t, w, hs, us))
            done.add((w, verb[0] if verb else None))
        if verb and verb[0] in VERBS.values():
            rep.count('methods followed')
            if not [e for e in evs if VERBS[e[0].rsplit('::', 1)[1]] == verb[0]]:
                r.bad('registration', 'a %s route is accepted without being registered' % verb[0], st)
            if len(evs) > 1:
                r.bad('registration', 'a %s route is registered more than once' % verb[0], st)
    rep.need(done, 'no route registration found')
    for t, w, hs, us in handlers.values():
        rep.part(dispatch, rep, P, t, w, hs, us)


def dispatch(rep, P, t, w, hs, us):
    """the closure registered for a route: calls the route's handler with the request and hands out what it answered"""
    t.parse()
    r = Fn(P, rep, t, {'std::function.call', 'SSL_get0_peer_certificate', 'SSL_get1_peer_certificate', 'httplib::Response::set_content',
                       'std::map::operator[]', 'get_request_header', 'httplib::Response::set_header'}, unroll=2)
    rq, rs = P.fields('Request'), P.fields('Response')
    req, res = r.p[1], r.p[2]
    name = '%s handler' % w
    for st, v, inst in r.ends:
        evs = G.events(st)
        calls = [e for e in evs if e[0] == 'std::function.call' and e[1][0][1] == 'P:' + r.p[0]]
        rep.count('dispatch paths')
        if len(calls) != 1:
            r.bad('dispatch', 'the handler of the route is called %d times for one request' % len(calls), st, name=name)
            continue
        e = calls[0]
        bad = lambda m: r.bad('dispatch', m, st, name=name)
        if hs and e[1][0][2] not in hs:
            bad('another function than the handler of the route is called')
        if len(e[1]) != 7:
            continue
        if e[1][2] != ('p', 'P:' + req, rq['body']) and e[4]['c'][2] != ('str', 'P:' + req, rq['body']):
            bad('the handler does not get the body of the request')
        certs = [x[3] for x in evs if x[0].startswith('SSL_get') and x[4]['c'][0] == ('cont', 'P:%s.%s' % (req, rq.get('ssl')), 0)]
        if e[1][3] != 0 and e[1][3] not in certs:
            bad("the handler does not get the peer's certificate")
        if e[1][3] == 0 and not any(st_isnull(st, c) == 1 for c in certs):
            bad("the handler does not get the peer's certificate")
        if e[1][6] == 0:
            bad('the handler does not get the context the server was started with')
        elif us and r.E.content(st, e[1][6]) not in [('cont', '%s.%d' % ('P:' + r.p[0], u), 0) for u in us]:
            bad('the handler does not get the context the server was started with')
        if e[1][1] == e[1][4]:
            bad('request and response headers are the same object')
        i = evs.index(e)
        sc = [x for x in evs[i:] if x[0] == 'httplib::Response::set_content' and x[1][0] == ('p', 'P:' + res, 0)]
        # the status, the body and the type of the reply are the ones the handler decided
        s = G.peek(r.E, st, st.objs.get('P:' + res), rs['status'], ('i', 32), 4) if st.objs.get('P:' + res) else None
        if not G.same(st, s, e[3]):
            r.bad('reply', "the status of the reply is not the handler's", st, name=name)
        if not sc:
            r.bad('reply', "the reply does not carry the handler's response", st, name=name)
            continue
        x = sc[-1]
        if x[4]['c'][1][0] != 'answer' or x[4]['c'][1][2] != 4:
            r.bad('reply', "the body of the reply is not the handler's response", st, name=name)
        ct = 'MAP:%s.%s[Content-Type]' % (e[1][4][1], e[1][4][2])
        got = x[4]['c'][2]
        if got != ('str', ct, 0):
            r.bad('reply', "the content type of the reply is not the handler's", st, name=name)


def v17(tier):
    rep = Report('V17', 'The vector of routes handed to the server holds, for every documented path and method, its own handler; each route is registered '
                 'under its path for its method, and the closure registered calls exactly that handler with the body, peer certificate and context.')
    for start, srcs, table in SERVERS:
        rep.part(route_table, rep, start, srcs, table)
    P = Program(HTTP_SRCS)
    rep.part(registration, rep, P)
    return rep


# ------------------------------------------------------------------ V18: TLS endpoints
def last(n):
    return n.rsplit('::', 1)[-1]


def server_setup(rep, P):
    f = fn(P, 'https_start')
    r = Fn(P, rep, f, {'httplib::SSLServer::SSLServer', 'httplib::Server::listen', 'httplib::SSLServer::listen', 'httplib_register_routes',
                       'set_error_handler', 'set_exception_handler', 'httplib::Server::set_error_handler', 'httplib::Server::set_exception_handler',
                       'httplib::Server::Get', 'httplib::Server::Post'}, vec_one=True, unroll=3)
    cfg = r.p[0]
    n = 0
    for st, v, inst in r.ends:
        evs = G.events(st)
        ctor = [e for e in evs if last(e[0]) == 'SSLServer']
        lis = [e for e in evs if last(e[0]) == 'listen']
        rep.count('server set-ups judged')
        if not lis:
            if iv(st, v)[0] >= 0 if isinstance(v, (tuple, int)) and v is not U else True:
                r.bad('server', 'success without a server listening', st)
            continue
        n += 1
        if len(ctor) != 1 or lis[0][1][0] != ctor[0][1][0]:
            r.bad('server', 'the server listening is not a TLS server set up from the configuration', st)
            continue
        e = ctor[0]
        for i, what, m in ((1, "the server's certificate", 'tls_cert_path'), (2, "the server's key", 'tls_key_path'),
                           (3, 'the CA that clients must be certified by', 'client_ca_cert_path')):
            if i >= len(e[1]):
                continue
            d = 'NULL' if e[1][i] == 0 or st_isnull(st, e[1][i]) == 1 else r.d(st, e[4]['c'][i])
            want = '%s->%s' % (cfg, m)
            null = any(b is False and G.path_of(r.E, st, o) == want for o, b in st.nn.items())
            if d != want and not (d == 'NULL' and null):
                r.bad('server', '%s is %s, not %s of the configuration' % (what, d, m), st)
        e = lis[0]
        d = r.d(st, e[4]['c'][1]) if e[4]['c'][1][0] != 'str' else None
        if d is not None and d != cfg + '->bind_address':
            r.bad('server', 'the server listens on %s, not bind_address of the configuration' % d, st)
        po = e[1][2]
        if r.E.loc and G.desc(r.E, st, ('s', po[1]) if isinstance(po, tuple) and po[0] == 's' else ('num', po)) != 'value<%s->port>' % cfg:
            r.bad('server', 'the server does not listen on port of the configuration', st)
        i = evs.index(e)
        for h in ('set_error_handler', 'set_exception_handler'):
            if not [x for x in evs[:i] if last(x[0]) == h]:
                r.bad('server', '%s is not called before the server listens' % h, st)
    rep.need(n, 'https_start never listens')


def listener(rep, start, srcs, want):
    P = Program(srcs)
    r = Fn(P, rep, fn(P, start), {'https_start', 'httplib_start'}, unroll=24)
    n = 0
    for st, v, inst in r.ends:
        for e in G.events(st):
            n += 1
            rep.count('server configurations judged')
            for k, w in want.items():
                c = e[4]['cfg'].get(k)
                d = 'NULL' if c in (('nul',), None) else r.d(st, unver(c))
                if w is not None and k == 'port':
                    w = 'value<%s>' % w
                null = w is not None and any(b is False and G.path_of(r.E, st, o) == w for o, b in st.nn.items())
                if d != (w or 'NULL') and not (d == 'NULL' and null):
                    r.bad('listener', '%s is %s, not %s' % (k, d, w or 'NULL'), st)
            for k, x in e[4]['ctx'].items():
                if x != ('p', 'P:' + k, 0) and not (x == 0 and st.nn.get('P:' + k) is False):
                    r.bad('listener', 'the handlers get another %s than the one given' % k, st)
            if not e[4]['ctx']:
                r.bad('listener', 'the handlers get no configuration', st)
    rep.need(n, '%s starts no server' % start)


def client(rep, P, name, ca):
    f = fn(P, name)
    own = ('httplib::ClientImpl::', 'httplib::Client::', 'httplib::SSLClient::')
    rec = {'httplib::SSLClient::SSLClient', 'crypto_copycert'} | {c + m for c in own for m in
           ('enable_server_certificate_verification', 'load_ca_cert_store', 'Post', 'server_cert')}
    rec |= {'httplib::Result::' + m for m in ('operator_arrow', 'operator->', 'operator*', 'value')}
    r = Fn(P, rep, f, rec, unroll=3, no_api=set())
    p = r.p
    S = lambda i: ('str', 'P:' + p[i], 0)
    key, cert = 0, 1
    if ca:
        store, host, port, path, body, ctype, verify, resp = 2, 3, 4, 5, 6, 7, None, 8
    else:
        store, host, port, path, verify, body, ctype, resp = None, 2, 3, 4, 5, 6, 7, 8
    rs, hr = P.fields('Response') or {}, P.fields('HttpResponse') or {}
    n = ok = 0
    for st, v, inst in r.ends:
        evs = G.events(st)
        posts = [e for e in evs if last(e[0]) == 'Post']
        rep.count('client paths judged')
        fails = isinstance(v, (int, tuple)) and v is not U and iv(st, v)[1] < 0
        bad = lambda m: r.bad('client', m, st)
        if not posts:
            if not fails:
                bad('success without a request sent')
            continue
        n += 1
        e = posts[0]
        if len(posts) > 1:
            bad('the request is sent more than once')
        ctor = [x for x in evs if last(x[0]) == 'SSLClient' and x[1][0] in e[1]]
        if not ctor:
            bad('the request is not sent over the TLS client')
            continue
        c = ctor[-1]
        k = e[1].index(c[1][0])
        given = lambda x, i, w: i < len(x[1]) and (x[4]['c'][i] == S(w) or x[1][i] == ('p', 'P:' + p[w], 0))
        for i, w in ((1, host), (3, cert), (4, key)):
            if not given(c, i, w):
                bad('argument %d of the TLS client is not %s' % (i, p[w]))
        if not G.same(st, c[1][2], ('s', 'P:' + p[port], 32)):
            bad('the port of the TLS client is not %s' % p[port])
        for i, w in ((1, path), (2, body), (3, ctype)):
            if not given(e, k + i, w):
                bad('argument %d of the request is not %s' % (i, p[w]))
        vs = [x for x in evs[:evs.index(e)] if last(x[0]) == 'enable_server_certificate_verification' and x[1][0] == c[1][0]]
        x = vs[-1][1][1] if vs else 1
        if verify is None:
            if x != 1 and (x is U or iv(st, x)[0] < 1):
                bad("verification of the server's certificate is switched off")
            ls = [x for x in evs[:evs.index(e)] if last(x[0]) == 'load_ca_cert_store' and x[1][0] == c[1][0]]
            if not any(x[4]['c'][1] == S(store) and G.same(st, x[1][2], ('s', 'strlen:%r' % (S(store),), 64, (0, 1 << 40))) for x in ls):
                bad("the server's certificate is not verified with the given CA")
        elif not verify_is(st, x, 'P:' + p[verify]):
            bad("the server's certificate is not verified as asked for")
        if fails:
            continue
        # what the caller gets is the reply
        ok += 1
        res = [x[3][1] for x in evs if x[0].startswith('httplib::Result::') and x[1][0] == e[1][0] and isinstance(x[3], tuple)]
        if not any(v == ('s', '%s.0.%d' % (o, rs['status']), 32) or v == ('s', '%s.%d' % (o, rs['status']), 32) or
                   G.same(st, v, G.peek(r.E, st, st.objs.get(o), rs['status'], ('i', 32), 4) if st.objs.get(o) else None) for o in res):
            bad('the value returned is not the status of the reply')
        out = ('p', 'P:' + p[resp], 0 if ca else hr['response'])
        if st.cont.get(skey(out)) not in [('str', o, rs['body']) for o in res]:
            bad('the response is not the body of the reply')
        if not ca:
            o = st.objs.get('P:' + p[resp])
            pc = G.peek(r.E, st, o, hr['peer_certificate'], ('ptr',), 8) if o is not None else None
            sc = [x[3] for x in evs if last(x[0]) == 'server_cert' and x[1][0] == c[1][0]]
            cp = [x for x in evs if x[0] == 'crypto_copycert' and x[1][0] in sc]
            if not any(pc == x[3] or x[3] == 0 or pc == 0 and st_isnull(st, x[3]) == 1 for x in cp):
                bad("the peer certificate is not a copy of the server's")
    rep.need(n, '%s sends nothing' % name)
    rep.need(ok, '%s never succeeds' % name)


def verify_is(st, x, name):
    """x has the value of the boolean parameter"""
    if x == ('s', name, 8) or isinstance(x, tuple) and x[0] in ('s', 'z', 'c', 'x') and name in repr(x) and iv(st, x)[0] >= 0:
        return True
    return isinstance(x, int) and iv(st, ('s', name, 8)) == (x & 1, x & 1)


def v18(tier):
    rep = Report('V18', 'The TLS server is built from the certificate, key and client CA of its configuration and the registrar and MASA hand it their own; '
                 'a TLS client presents the given certificate and key, connects to the given host and verifies the server as asked, and the pledge enrols only over '
                 'a connection verified with the pinned certificate.')
    P = Program(HTTP_SRCS)
    rep.part(server_setup, rep, P)
    for start, srcs, _ in SERVERS:
        s = start.split('_')[0]
        c = {'registrar': 'rconf', 'masa': 'mconf'}[s]
        rep.part(listener, rep, start, srcs, {k: '%s->%s' % (c, k) for k in ('bind_address', 'port', 'tls_cert_path', 'tls_key_path')}
                 | {'client_ca_cert_path': 'rconf->tls_ca_cert_path' if s == 'masa' else None})
    rep.part(client, rep, P, 'https_post_request', False)
    rep.part(client, rep, P, 'https_post_request_ca', True)
    rep.part(enrolment, rep)
    return rep


def text(c):
    """concatenation as a list of parts, adjacent literals merged"""
    if not (isinstance(c, tuple) and c and c[0] == 'cat'):
        return [c]
    out = []
    for x in (p for q in c[1:] for p in text(q)):
        if out and x and x[0] == 'lit' and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x[1])
        elif x != ('lit', b''):
            out.append(x)
    return out


def b64of(c):
    return c[2] if isinstance(c, tuple) and len(c) == 3 and c[0] == 'serialize_array2base64str' else c[1] \
        if isinstance(c, tuple) and len(c) == 2 and c[0] == 'serialize_array2base64str' else None


def enrolment(rep):
    P = Program()
    r = Root(P, rep, 'V18', 'post_sign_cert', {'https_post_request_ca', 'https_post_request', 'post_voucher_pledge_request', 'crypto_generate_eckey'}, api=True)
    pc, rc = r.p[0], r.p[1]
    for end in r.ends:
        rep.count('enrolments judged')
        bad = lambda m: r.bad('enrolment', m, end)
        sent = lambda n: [x for x in end.ev if x.name == n and x.ret is not None]
        es = sent('https_post_request_ca')
        pv = [(i, x) for i, x in enumerate(end.ev) if x.name.startswith('post_voucher_pledge_request')]
        done = [(i, x) for i, x in pv if x.name.endswith('#ret') and end.ok(x)]
        if [x for x in sent('https_post_request') if not done or end.ev.index(x) > done[0][0]]:
            bad('a request is sent whose server is not verified with the pinned certificate')
        if len(es) != 1:
            bad('success with %d enrolment requests' % len(es))
            continue
        x = es[0]
        s = x.snap
        ca = text(s[2])
        if not done or done[0][0] > end.ev.index(x):
            bad('a certificate is requested without a voucher received before')
        if len(ca) != 3 or b64of(ca[1]) is None or 'pinned' not in repr(b64of(ca[1])) or ca[0] != ('lit', b'-----BEGIN CERTIFICATE-----\n') or \
                ca[2][0] != 'lit' or ca[2][1].strip() != b'-----END CERTIFICATE-----' or not ca[2][1].startswith(b'\n'):
            bad('the CA of the connection is %s, not the pinned certificate in PEM form' % end.d(s[2])[:120])
        for i, w, what in ((0, pc + '->idevid_key_path', 'the key'), (1, pc + '->idevid_cert_path', 'the certificate'), (3, rc + '->bind_address', 'the host'),
                           (4, 'value<%s->port>' % rc, 'the port'), (5, '"/.well-known/est/simpleenroll"', 'the path'), (7, '"%s"' % CT, 'the content type')):
            d = end.d(unver(s[i]))
            if d != w:
                bad('%s of the enrolment is %s, not %s' % (what, d[:80], w))
        body = b64of(s[6])
        if body is None or not repr(body).startswith("('crypto_generate_eccert'"):
            bad('the certificate sent to be signed is %s' % end.d(s[6])[:80])
        key = G.arr(r.E, end.st, ('p', 'P:' + r.p[4], 0))
        cert = G.arr(r.E, end.st, ('p', 'P:' + r.p[3], 0))
        if key is None or not (isinstance(key[0], tuple) and key[0][0] == 'crypto_generate_eckey') or repr(key[0]) not in repr(body):
            bad('the key handed out is not the one of the certificate sent')
        c = cert[0] if cert else None
        if not (isinstance(c, tuple) and c[0] == 'serialize_base64str2array' and isinstance(c[-1], tuple) and c[-1][0] == 'reply' and c[-1][2] == 'ok'):
            bad('the certificate handed out is not the one in the reply')
        # a reply that is not a success is no certificate
        if not end.ok(x) or iv(end.st, x.ret)[1] >= 400:
            bad('success although the enrolment request failed')
    rep.need(rep.counts.get('enrolments judged'), 'no successful enrolment')


# ------------------------------------------------------------------ V16: what a reply says
REQUESTS = {'registrar_requestvoucher': ({CT}, 'the voucher in the reply of the MASA'),
            'masa_requestvoucher': ({CT, 'text/plain'}, 'the voucher signed for the request'),
            'registrar_est_simpleenroll': ({CT, 'text/plain'}, 'the certificate signed for the request')}
NOTSERVED = {'get_est_cacerts', 'post_est_simpleenroll', 'post_est_simplereenroll', 'post_est_fullcmc', 'post_est_serverkeygen', 'get_est_csrattrs'}


def issued(name, c):
    """does a response hold what the request asked for"""
    if name == 'registrar_requestvoucher':
        return isinstance(c, tuple) and c[0] == 'reply' and c[2] == 'ok'
    b = b64of(c)
    if name == 'masa_requestvoucher':
        return b is not None and 'sign_masa_pledge_voucher' in repr(b[:1])
    return b is not None and isinstance(b, tuple) and b[0] == 'crypto_sign_cert'


def handler(rep, P, name):
    r = Fn(P, rep, fn(P, name), {'crypto_sign_cert', 'https_post_request'}, use_request_api=True)
    hdr, resp, body, ctx = r.p[3], r.p[4], r.p[1], r.p[5]
    for st, v, inst in r.ends:
        rep.count('replies judged')
        bad = lambda m: r.bad('reply', m, st, inst)
        if v is U or not isinstance(v, (int, tuple)):
            continue
        lo, hi = iv(st, v)
        if not (200 <= lo <= hi <= 299 or 400 <= lo <= hi <= 599):
            bad('the status of a reply is %s, neither success nor an error' % (lo if lo == hi else 'between %d and %d' % (lo, hi)))
            continue
        c = st.cont.get(('S', 'P:' + resp, 0))
        ct = st.cont.get(('S', 'MAP:P:%s.0[Content-Type]' % hdr, 0))
        if lo < 300:
            if ct is None or ct[0] != 'lit' or not re.match(rb'[\w.+-]+/[\w.+-]+$', ct[1]):
                bad('a reply without the type of its content')
            elif name in REQUESTS and ct[1].decode() not in REQUESTS[name][0]:
                bad('%s is announced as %s' % (REQUESTS[name][1], ct[1].decode()))
            elif name not in REQUESTS and ct[1] != b'text/plain':
                bad('a text is announced as %s' % ct[1].decode())
            if name in REQUESTS and not issued(name, c):
                bad('the response to a request that succeeded is %s, not %s' % ('empty' if c in (None, ('lit', b'')) else r.d(st, c)[:80], REQUESTS[name][1]))
            if name in NOTSERVED:
                bad('a service that is not provided answers with success')
            if name not in REQUESTS and (c is None or c == ('lit', b'')):
                bad('success with an empty response')
        elif c is not None and (any(issued(n, c) for n in REQUESTS) or 'lit' not in c[0] and name in REQUESTS):
            bad('a reply with status %d carries %s' % (lo, r.d(st, c)[:80]))
        if name not in REQUESTS and name not in NOTSERVED and lo >= 300:
            bad('a request that is acknowledged by definition is refused')
        if name in NOTSERVED and lo >= 300 and lo != 503:
            bad('a service that is not provided answers with %d' % lo)
        if name == 'registrar_est_simpleenroll' and lo < 300:
            e = [x for x in G.events(st) if x[0] == 'crypto_sign_cert']
            k = b64of(c)
            if e and 'in' in e[-1][4]:
                src = e[-1][4]['in']
                if not (isinstance(src, tuple) and src[0] == 'serialize_base64str2array' and repr(('str', 'P:' + body, 0)) in repr(src)):
                    bad('the certificate signed is %s, not the one in the request' % r.d(st, src)[:80])
                d = r.d(st, unver(k)) if k else ''
                if '(%s->rconf->tls_ca_key_path' % ctx not in d or '(%s->rconf->tls_ca_cert_path' % ctx not in d:
                    bad('the certificate is not signed with the configured CA')
        if name == 'registrar_requestvoucher':
            # the MASA could not be asked or refused: 502 and a text
            posts = [x for x in G.events(st) if x[0] == 'https_post_request' and x[3] is not None]
            if posts and all(x[3] is not U and (iv(st, x[3])[1] < 0 or iv(st, x[3])[0] >= 400) for x in posts):
                if lo != 502:
                    bad('the MASA failed and the reply says %d' % lo)
                elif c is None or c == ('lit', b''):
                    bad('the MASA failed and the reply says nothing')


def closures(rep, P, name, verb):
    """the closures a function hands to the server"""
    r = Fn(P, rep, fn(P, name), {'httplib::Server::' + verb, 'httplib::SSLServer::' + verb}, vec_one=True)
    out = {}
    for st, v, inst in r.ends:
        for e in G.events(st):
            k = st.cont.get(skey(e[1][1])) or e[4]['c'][1]
            t = target(P, (k[1], r.f.mod)) if k and k[0] == 'lambda' else None
            if t is not None:
                out[t.name] = t
    rep.need(out, 'no closure is handed to %s' % verb)
    return out.values()


def error_reply(rep, P, verb):
    n = 0
    rs = P.fields('Response')
    for t in closures(rep, P, verb, verb):
        t.parse()
        r = Fn(P, rep, t, {'httplib::Response::' + x for x in ('set_content', 'set_header')} | {'std::__cxx11::basic_string::empty'}, unroll=2)
        res = r.p[2]
        texts = []
        for st, v, inst in r.ends:
            n += 1
            rep.count('error replies judged')
            evs = [e for e in G.events(st) if e[1][0] == ('p', 'P:' + res, 0)]
            bad = lambda m: r.bad('error-reply', m, st, name=verb)
            sc = [e for e in evs if last(e[0]) == 'set_content']
            if [e for e in evs if last(e[0]) == 'set_header' and len(e[4]['c']) > 1 and e[4]['c'][1][0] == 'lit' and e[4]['c'][1][1].lower() == b'content-type']:
                bad('a second Content-Type is added to the reply')
            if not sc:
                bad('an error is answered without content')
                continue
            c = sc[-1][4]['c']
            if len(c) == 3 and c[2] != ('lit', b'text/plain'):
                bad('the text of an error is announced as %s' % r.d(st, c[2]))
            texts.append(c[1])
            if c[1] == ('lit', b'') or iv(st, ('s', 'strlen:%r' % (c[1],), 64, (0, 1 << 40)))[0] < 1 and c[1] == ('str', 'P:' + res, rs['body']):
                bad('an error is answered with an empty text')
            if verb == 'set_exception_handler':
                o = st.objs.get('P:' + res)
                s = G.peek(r.E, st, o, rs['status'], ('i', 32), 4) if o is not None else U
                if s is U or iv(st, s)[0] < 500 or iv(st, s)[1] > 599:
                    bad('an exception is answered with a status that is no server error')
        if texts and verb == 'set_error_handler' and all(x == ('str', 'P:' + res, rs['body']) for x in texts):
            r.bad('error-reply', 'an error without a text is answered with none', name=verb)
    rep.need(n, 'no path through the closure of %s' % verb)


def v16(tier):
    rep = Report('V16', 'Every path of every request handler ends with one status of success or of an error; with success the response holds what was asked for '
                 'under its content type, with an error it holds none of it; error and exception replies are texts.')
    P = Program()
    for name in sorted(set(REGISTRAR.values()) | set(MASA.values())):
        rep.part(handler, rep, P, name)
    P = Program(['brski/http/httplib_wrapper.cpp'])
    for verb in ('set_error_handler', 'set_exception_handler'):
        rep.part(error_reply, rep, P, verb)
    return rep
