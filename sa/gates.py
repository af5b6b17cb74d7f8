"""Reads what a path of the interpreter established: which inputs the bytes handed to a callee come
from, which values were compared equal, what a voucher contained when it was serialised."""
import re
from .engine import Engine, Config, iv, ladd, unlink, truth, st_isnull, U, BIG, lin
from .suite import models_for, param_hook

OID = re.compile(r'^(.*?)((?:~\d+)?\.-?\d+)$')


def path_of(E, st, oid, depth=0):
    """'P:user_ctx.0.96' -> 'user_ctx->rconf->tls_cert_path', following debug-info field types"""
    if oid.startswith('P:') and OID.match(oid) is None:
        return oid[2:]
    m = OID.match(oid)
    if m is None or depth > 12:
        return None
    base, off = m.group(1), m.group(2)
    if '~' in off:
        return None
    o = st.objs.get(base)
    fp = None
    if o is not None:
        fp, _ = E.field_at(o.tname, int(off[1:]))
    b = path_of(E, st, base, depth + 1)
    if b is None:
        c = st.cont.get(base)
        b = desc(E, st, c, depth + 1) if c is not None else None
        if b is None:
            return None
    return '%s->%s' % (b, fp or off[1:])


def desc(E, st, c, depth=0):
    """content term -> stable text naming its origin"""
    if depth > 14:
        return '…'
    if isinstance(c, (int, str)):
        return str(c)
    if isinstance(c, bytes):
        return c.decode('latin1')
    if c is None:
        return 'NULL'
    if not isinstance(c, tuple) or not c:
        return str(c)
    k = c[0]
    if k == 'nul':
        return 'NULL'
    if k == 'lit':
        return '"%s"' % c[1].decode('latin1')
    if k == 'cont' and len(c) == 3:
        p = path_of(E, st, c[1])
        if p:
            return p if c[2] == 0 else p + '~%d' % c[2]
        return c[1]
    if k == 's':
        return 'value<%s>' % (path_of(E, st, c[1]) or c[1])
    if k == 'val':
        return 'val<%s>' % desc(E, st, c[1], depth + 1)
    if k == 'p':
        return desc(E, st, E.content(st, c), depth + 1)
    if k == 'num':
        return str(c[1])
    if isinstance(k, str):
        return '%s(%s)' % (k, ', '.join(desc(E, st, x, depth + 1) for x in c[1:]))
    return str(c)


def arr(E, st, p, tname='BinaryArray'):
    """(content, length) of the BinaryArray p points at, without changing the state"""
    if not (isinstance(p, tuple) and p[0] == 'p'):
        return None
    o = E.obj(st, p[1])
    if o is None or not isinstance(p[2], int):
        return None
    fo = E.prog.fields('BinaryArray') or {}
    a = peek(E, st, o, p[2] + fo.get('array', 0), ('ptr',), 8)
    n = peek(E, st, o, p[2] + fo.get('length', 8), ('i', 64), 8)
    return (E.content(st, a) if a != 0 and st_isnull(st, a) != 1 else ('nul',), n)


def peek(E, st, o, off, ty, size):
    return E.peek(st, o, off, ty, size, None)


def voucher_fields(E, st, p):
    """what the Voucher p points at holds: attribute field -> description"""
    o = E.obj(st, p[1])
    fs, ts = E.prog.fields('Voucher'), E.prog.field_types('Voucher')
    tm = E.prog.fields('tm')
    out = {}
    for n, off in fs.items():
        t = ts.get(n) or ''
        b = p[2] + off
        if t == 'BinaryArray':
            out[n] = ('arr',) + arr(E, st, ('p', p[1], b))
        elif t == 'tm':
            out[n] = ('tm', tuple((f, peek(E, st, o, b + fo, ('i', 64) if f == 'tm_gmtoff' else ('i', 32), 8 if f == 'tm_gmtoff' else 4))
                                  for f, fo in tm.items() if f in TM))
        elif t.endswith('*'):
            v = peek(E, st, o, b, ('ptr',), 8)
            out[n] = ('str', ('nul',) if v == 0 or st_isnull(st, v) == 1 else E.content(st, v))
        elif t == 'bool' or t == '_Bool':
            out[n] = ('val', peek(E, st, o, b, ('i', 8), 1))
        else:
            out[n] = ('val', peek(E, st, o, b, ('i', 32), 4))
    return out


TM = ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year')


def run(P, f, record, snap=None, **kw):
    name = f.mod.fn_srcname(f)
    M = models_for(P, name)
    for k in ('use_request_api', 'no_api', 'param_null', 'vec_one'):
        if k in kw:
            setattr(M, k, kw.pop(k))
    kw.setdefault('sticky', True)
    E = Engine(P, M, Config(record=set(record), snap=snap, param_hook=kw.pop('param_hook', param_hook), **kw))
    R = E.run(f)
    return E, R


def events(st):
    return unlink(st.ev)


def zero(st, t):
    return t == 0 or (isinstance(t, tuple) and t is not U and iv(st, t) == (0, 0))


def same(st, a, b):
    if a == b:
        return True
    d = ladd(a, b, -1) if a is not None and b is not None else U
    return d != U and iv(st, d) == (0, 0)


EQ = re.compile(r'^(strcmp|memcmp|CRYPTO_memcmp|strncmp|strcasecmp|strncasecmp|bcmp):')


def equalities(st):
    """[(function, contentA, contentB, n)] of the comparisons whose result is known to be 0"""
    out = []
    for k, f in st.facts.items():
        if k[0] == 's' and f[0] == f[1] == 0 and EQ.match(k[1]):
            out.append(k[1])
    return out


def eq_str(E, st, a, b):
    for k in equalities(st):
        if k.startswith('strcmp:') and k in ('strcmp:%r:%r:None' % (a, b), 'strcmp:%r:%r:None' % (b, a)):
            return True
    return a == b


def eq_arr(E, st, a, b):
    """(content, length) pairs known to be equal byte strings"""
    if a is None or b is None:
        return False
    if a == b:
        return True
    if not same(st, a[1], b[1]):
        return False
    if zero(st, a[1]) or zero(st, b[1]):
        return True
    for k in equalities(st):
        if not k.startswith(('memcmp:', 'CRYPTO_memcmp:', 'bcmp:')):
            continue
        for x, y in ((a, b), (b, a)):
            pre = k.split(':', 1)[0] + ':%r:%r:' % (x[0], y[0])
            if k.startswith(pre) and k[len(pre):] in (repr(a[1]), repr(b[1])):
                return True
            if k.startswith(pre):
                return True if k[len(pre):] == repr(a[1]) else False
    return False
