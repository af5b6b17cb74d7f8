"""V12, V13: the typed accessors of a voucher and its JSON form agree, attribute by attribute."""
import re

from ..build import Program
from ..engine import iv, U, st_isnull, truth, assume, unlink, ne_set
from ..report import Report, Anchor
from .. import gates as G

KINDS = {'tm': 'time', 'VoucherAssertions': 'enum', 'char*': 'str', 'BinaryArray': 'array', '_Bool': 'bool', 'bool': 'bool'}
ENUM = 'VoucherAttributes'


def attributes(P):
    """[(enumerator, value, member, kind)] of every attribute a voucher has"""
    fs, ts = P.fields('Voucher'), P.field_types('Voucher')
    en = {k: v for k, v in P.enums.items() if k.startswith('ATTR_')}
    if not fs or not en:
        raise Anchor('struct Voucher or its attribute enumeration is gone')
    out = []
    for k, v in sorted(en.items(), key=lambda x: x[1]):
        n = k[5:].lower()
        if n in fs:
            out.append((k, v, n, KINDS.get(ts[n].strip())))
    return out


def leaves(P, member):
    """[(offset, ir type, size)] of the scalar parts of a voucher member"""
    off, t = P.fields('Voucher')[member], P.field_types('Voucher')[member].strip()
    if t == 'tm':
        return [(off + o, ('i', 32), 4) for o in (0, 4, 8, 12, 16, 20, 24, 28, 32)]
    if t == 'BinaryArray':
        b = P.fields('BinaryArray')
        return [(off + b['array'], ('ptr',), 8), (off + b['length'], ('i', 64), 8)]
    if t.endswith('*'):
        return [(off, ('ptr',), 8)]
    if t in ('_Bool', 'bool'):
        return [(off, ('i', 8), 1)]
    return [(off, ('i', 32), 4)]


def initial(E, st, o, off, ty, size):
    ext = st.ext.pop(o.oid, None)
    try:
        return E.read_init(st, o, off, ty, size)
    finally:
        if ext is not None:
            st.ext[o.oid] = ext


def plain(v):
    return v[:3] if isinstance(v, tuple) and v and v[0] == 's' else v


def nul(st, v):
    return v == 0 or isinstance(v, tuple) and v and v[0] == 'p' and st_isnull(st, v) == 1


def unchanged(E, st, o, member):
    for off, ty, size in leaves(E.prog, member):
        a, b = E.peek(st, o, off, ty, size), initial(E, st, o, off, ty, size)
        if plain(a) != plain(b) and not (ty == ('ptr',) and nul(st, a) and nul(st, b)) and not G.same(st, a, b):
            return False
        if ty == ('ptr',) and isinstance(b, tuple) and b[0] == 'p' and st.stt.get(b[1]) == 'F':
            return False
    return True


def empty(E, st, o, member):
    for off, ty, size in leaves(E.prog, member):
        v = E.peek(st, o, off, ty, size)
        if ty == ('ptr',):
            if not nul(st, v):
                return False
        elif not G.zero(st, v):
            return False
    return True


def run(P, rep, name, attr, record=(), hook=None, **kw):
    f = P.fn(name)
    if f is None:
        raise Anchor('%s is not defined below src/' % name)

    def h(E, st, fn, i, nm, tn):
        if tn and tn.replace('const ', '').strip() == ENUM and attr is not None:
            return attr
        return hook(E, st, fn, i, nm, tn) if hook else None
    E, R = G.run(P, f, set(record), param_hook=h, param_null={}, use_request_api=True, **kw)
    rep.count('accessor runs')
    rep.count('interpreted instructions', R.steps)
    rep.count('paths to a return', len(R.ends))
    if R.truncated:
        rep.notes.append('%s: stopped at the state limit' % name)
    return f, E, R


def pname(P, f, want):
    ts = P.param_types(f)
    ps = [nm for ty, nm, bv in f.params if not (bv and bv[0] == 'sret')]
    for t, n in zip(ts, ps):
        if t.replace('const ', '').replace(' ', '') == want:
            return n
    return None


class Acc:
    """one accessor run for one attribute"""

    def __init__(self, P, rep, name, attr, **kw):
        self.P, self.rep, self.name = P, rep, name
        self.f, self.E, R = run(P, rep, name, attr, **kw)
        v = pname(P, self.f, 'Voucher*')
        if v is None:
            raise Anchor('%s takes no voucher' % name)
        self.v = 'P:' + v
        self.file = self.f.mod.fn_file(self.f)
        self.file = self.file[self.file.index('/src/') + 1:]
        self.ends = [e for e in R.ends if e[0].nn.get(self.v) is not False]
        self.null_ends = [e for e in R.ends if e[0].nn.get(self.v) is False]
        self.R = R

    def obj(self, st):
        return self.E.obj(st, self.v)

    def bad(self, rule, msg, end=None):
        self.rep.viol(rule, self.file, self.name, msg, self.E.loc(end[2])[1] if end else None,
                      [str(x) for x in unlink(end[0].trace)] if end else ())


def failed(st, v):
    return isinstance(v, (int, tuple)) and v != U and iv(st, v)[1] < 0


def succeeded(st, v):
    return isinstance(v, (int, tuple)) and v != U and iv(st, v)[0] >= 0


OUT_OF_RANGE = 1000


def holds(a, st, member, kind, vp):
    """the member now holds what the value parameter said"""
    E, P = a.E, a.P
    o = a.obj(st)
    lv = leaves(P, member)
    if kind == 'time':
        base = lv[0][0]
        for off, ty, size in lv[:6]:
            v = E.peek(st, o, off, ty, size)
            if not (isinstance(v, tuple) and v[0] == 's' and v[1] == 'P:%s.%d' % (vp, off - base)):
                return False
        return True
    if kind in ('enum', 'bool'):
        v = E.peek(st, o, *lv[0])
        w = a.E.cur_root_args[vp]
        if kind == 'enum':
            return G.same(st, v, w)
        return equivalent(st, v, w)
    if kind == 'str':
        v = E.peek(st, o, *lv[0])
        c = E.content(st, v)
        for x in G.events(st):
            if x[0] == 'memchr' and isinstance(x[3], tuple) and st_isnull(st, x[3]) == 1:
                return False        # no end within the part looked at: only a part was taken
            if x[0] == 'strnlen' and x[3] is not None and isinstance(x[1][1], int) and iv(st, x[3])[1] >= x[1][1]:
                return False
        while isinstance(c, tuple) and c and c[0] == 'pre':
            if isinstance(c[2], int) and c[1][:1] == ('cont',):
                return False
            c = c[1]
        return c == ('cont', 'P:' + vp, 0) or c == ('lit', b'') and True
    if kind == 'array':
        b = P.fields('BinaryArray')
        p = E.peek(st, o, *lv[0])
        n = E.peek(st, o, *lv[1])
        want = (('cont', 'P:%s.%d' % (vp, b['array']), 0), ('s', 'P:%s.%d' % (vp, b['length']), 64))
        return E.content(st, p) == want[0] and G.same(st, n, want[1])
    return False


def equivalent(st, a, b):
    """the two conditions are true together and false together"""
    for x, y in ((1, 0), (0, 1)):
        for s in (assume(st.copy(), a, x) if not isinstance(a, int) else [st.copy()] if bool(a) == bool(x) else []):
            if assume(s, b, y) if not isinstance(b, int) else bool(b) == bool(y):
                return False
    return True


def others_unchanged(a, end, attrs, member, what):
    st = end[0]
    for k, v, m, kind in attrs:
        if m != member and not unchanged(a.E, st, a.obj(st), m):
            a.bad('other-attribute', '%s also changes %s' % (what, m), end)


def setters(P, rep, attrs):
    kinds = sorted({k for _, _, _, k in attrs if k})
    for kind in kinds:
        name = 'set_attr_%s_voucher' % kind
        for en, val, member, k in attrs + [('an unknown attribute', OUT_OF_RANGE, None, None)]:
            a = Acc(P, rep, name, val, record={'memchr', 'strnlen'})
            ps = [nm for ty, nm, bv in a.f.params]
            vp = ps[-1]
            ok = 0
            for end in a.ends:
                st, v, inst = end
                rep.count('accessor obligations')
                if failed(st, v):
                    for k2, v2, m, kk in attrs:
                        if not unchanged(a.E, st, a.obj(st), m):
                            a.bad('failed-setter-changes', 'setting %s fails and changes %s' % (en, m), end)
                    continue
                if k != kind:
                    a.bad('wrong-type-accepted', 'a %s value is accepted for %s' % (kind, en), end)
                    continue
                ok += 1
                if kind == 'enum':
                    r = [x for e, x in a.P.enums.items() if e.startswith('VOUCHER_ASSERTION_') and x]
                    x = a.E.peek(st, a.obj(st), *leaves(a.P, member)[0])
                    if r and not min(r) <= iv(st, x)[0] <= iv(st, x)[1] <= max(r):
                        a.bad('no-such-value', '%s is set to a value that is none of its enumeration' % member, end)
                if not holds(a, st, member, kind, vp):
                    a.bad('value-not-stored', '%s does not hold the value set' % member, end)
                others_unchanged(a, end, attrs, member, 'setting ' + en)
            if k == kind and not ok and not a.R.truncated:
                a.bad('setter-refuses', '%s can not be set' % en)
            for end in a.null_ends:
                if not failed(end[0], end[1]):
                    a.bad('null-voucher', 'success without a voucher', end)


def getters(P, rep, attrs):
    for kind in sorted({k for _, _, _, k in attrs if k}):
        name = 'get_attr_%s_voucher' % kind
        for en, val, member, k in attrs + [('an unknown attribute', OUT_OF_RANGE, None, None)]:
            a = Acc(P, rep, name, val)
            for end in a.ends:
                st, v, inst = end
                rep.count('accessor obligations')
                if k != kind:
                    if not nul(st, v):
                        a.bad('wrong-type-accepted', 'a %s is handed out for %s' % (kind, en), end)
                    continue
                if not (isinstance(v, tuple) and v[0] == 'p' and v[1] == a.v and v[2] == P.fields('Voucher')[member]):
                    a.bad('wrong-member', 'the %s handed out for %s is not %s' % (kind, en, member), end)
                others_unchanged(a, end, attrs, None, 'reading ' + en)
            for end in a.null_ends:
                if not nul(end[0], end[1]):
                    a.bad('null-voucher', 'a value is handed out without a voucher', end)


def touched(a, st):
    """members of the voucher whose content this path read or wrote"""
    d = st.mem.get(a.v) or {}
    return {k for k in d if isinstance(k, int)}


def clearers(P, rep, attrs):
    for en, val, member, kind in attrs + [('an unknown attribute', OUT_OF_RANGE, None, None)]:
        a = Acc(P, rep, 'clear_attr_voucher', val)
        ok = 0
        for end in a.ends:
            st, v, inst = end
            rep.count('accessor obligations')
            if member is None:
                if not failed(st, v):
                    a.bad('unknown-attribute', 'clearing an unknown attribute is reported as success', end)
                others_unchanged(a, end, attrs, None, 'clearing ' + en)
                continue
            if failed(st, v):
                a.bad('clear-refused', '%s can not be cleared' % en, end)
                continue
            if not empty(a.E, st, a.obj(st), member):
                a.bad('not-cleared', '%s is not empty after clearing it' % member, end)
            others_unchanged(a, end, attrs, member, 'clearing ' + en)
        for end in a.null_ends:
            if not failed(end[0], end[1]):
                a.bad('null-voucher', 'success without a voucher', end)


def emptiness(P, rep, attrs):
    for en, val, member, kind in attrs + [('an unknown attribute', OUT_OF_RANGE, None, None)]:
        a = Acc(P, rep, 'is_attr_voucher_nonempty', val)
        for end in decided(a.ends):
            st, v, inst = end
            rep.count('accessor obligations')
            lo, hi = iv(st, v) if isinstance(v, (int, tuple)) and v != U else (0, 1)
            if (lo, hi) == (0, 0):
                if member is None:
                    continue
                o = a.obj(st)
                lv = [x for x in leaves(P, member) if kind != 'time' or x[0] - P.fields('Voucher')[member] <= 20]
                if kind == 'bool':
                    a.bad('boolean-absent', '%s has no absent state' % member, end)
                elif not all(nul(st, a.E.peek(st, o, *x)) if x[1] == ('ptr',) else G.zero(st, a.E.peek(st, o, *x)) for x in lv):
                    a.bad('present-reported-absent', '%s may hold a value and is reported empty' % member, end)
            elif lo >= 1 or lo <= -1:
                if member is None:
                    a.bad('unknown-attribute', 'an unknown attribute is reported present', end)
                elif kind != 'bool' and empty(a.E, st, a.obj(st), member):
                    a.bad('absent-reported-present', '%s is empty and reported present' % member, end)
                elif kind != 'bool' and not evidence(a, st, member):
                    a.bad('absent-reported-present', '%s is reported present without looking at it' % member, end)
            else:
                a.bad('undetermined', 'whether %s is present does not depend on it' % en, end)
        for end in a.null_ends:
            if iv(end[0], end[1]) != (0, 0):
                a.bad('null-voucher', 'attributes are present without a voucher', end)


def decided(ends):
    """a returned condition that is still open is taken both ways"""
    for st, v, inst in ends:
        if isinstance(v, tuple) and v != U and v[0] != 'p' and iv(st, v)[0] <= 0 <= iv(st, v)[1] and iv(st, v) != (0, 0):
            for want in (0, 1):
                for s in assume(st.copy(), v, want):
                    yield s, want, inst
        else:
            yield st, v, inst


def evidence(a, st, member):
    """some part of the member is known not to be empty"""
    o = a.obj(st)
    for off, ty, size in leaves(a.P, member):
        v = a.E.peek(st, o, off, ty, size)
        if ty == ('ptr',):
            if isinstance(v, tuple) and v[0] == 'p' and st_isnull(st, v) == 0:
                return True
        else:
            t = truth(st, ('c', 'ne', v, 0)) if isinstance(v, tuple) else (1 if v else 0)
            if t == 1 or t is True:
                return True
            lo, hi = iv(st, v)
            if lo > 0 or hi < 0:
                return True
            if 0 in (ne_set(st, v) or ()):
                return True
    return False


def variadic(P, rep, attrs):
    for en, val, member, kind in attrs + [('an unknown attribute', OUT_OF_RANGE, None, None)]:
        a = Acc(P, rep, 'set_attr_voucher', val)
        wrote = ok = 0
        for end in a.ends:
            st, v, inst = end
            rep.count('accessor obligations')
            if failed(st, v):
                others_unchanged(a, end, attrs, None, 'failing to set ' + en)
                continue
            ok += 1
            if member is None:
                a.bad('unknown-attribute', 'setting an unknown attribute is reported as success', end)
                continue
            others_unchanged(a, end, attrs, member, 'setting ' + en)
            if not unchanged(a.E, st, a.obj(st), member):
                wrote += 1
        if member is not None and not a.R.truncated:
            if not ok:
                a.bad('setter-refuses', '%s can not be set' % en)
            elif wrote < ok:
                a.bad('value-not-stored', 'setting %s is reported as success and stores nothing' % en)


def v12(tier):
    rep = Report('V12', 'For each attribute and each accessor: the accessor of the matching type reads or writes exactly the member of '
                 'that attribute, every other accessor refuses it, failures change nothing, clearing empties exactly that member, '
                 'presence is decided by that member alone.')
    P = Program()
    attrs = attributes(P)
    rep.need(len(attrs) >= 11, 'the attributes of a voucher can not be matched with its members')
    rep.part(setters, P, rep, attrs)
    rep.part(getters, P, rep, attrs)
    rep.part(clearers, P, rep, attrs)
    rep.part(emptiness, P, rep, attrs)
    rep.part(variadic, P, rep, attrs)
    rep.count('attributes', len(attrs))
    return rep


# ------------------------------------------------------------------ V13 JSON form
ROOT = b'ietf-voucher:voucher'
TIME = '9999-12-31T24:59:59Z'
ASSERTIONS = {'VERIFIED': b'verified', 'LOGGED': b'logged', 'PROXIMITY': b'proximity'}


def json_name(member):
    return member.replace('_', '-').encode()


def literal(E, st, nm, data, end):
    """parameter nm points at these bytes"""
    v = E.lazy(st, 'P:' + nm, tname='char')
    st.nn['P:' + nm] = True
    o = E.obj(st, 'P:' + nm)
    for i, b in enumerate(data + end):
        E.poke(st, o, i, b, 1)
    st.cont['P:' + nm] = ('lit', data + end.rstrip(b'\0'))
    return v


def only_member(P, member, const=None):
    """a voucher in which every attribute but one is empty"""
    def h(E, st, fn, i, nm, tn):
        if not (tn and tn.replace('const ', '').replace(' ', '') == 'Voucher*'):
            return None
        v = E.lazy(st, 'P:' + nm, tname='Voucher')
        o = E.obj(st, v[1])
        st.nn[v[1]] = True
        vals = [(x, E.read_init(st, o, *x)) for x in leaves(P, member)]
        E.clear(st, o, 0, P.struct_size('Voucher'), 'zero')
        for (off, ty, size), x in vals:
            if ty == ('ptr',):
                st.nn[x[1]] = True
            E.poke(st, o, off, x if const is None else const, size, ty)
        return v
    return h


def pieces(E, st, c):
    """content -> literal bytes and content terms in order; None where the text is not understood"""
    if c[0] == 'lit':
        return [c[1]] if c[1] else []
    if c[0] == 'cat':
        a, b = pieces(E, st, c[1]), pieces(E, st, c[2])
        return None if a is None or b is None else merge(a + b)
    if c[0] == 'fmt' and isinstance(c[1], bytes):
        out, pos, k = [], 0, 0
        for m in re.finditer(rb'%(%|[^a-zA-Z%]*[a-zA-Z])', c[1]):
            out.append(c[1][pos:m.start()])
            pos = m.end()
            if m.group(1) == b'%':
                out.append(b'%')
            elif m.group(1) in (b's', b'.*s') and k < len(c[2]) and isinstance(c[2][k], tuple):
                sub = pieces(E, st, c[2][k])
                k += 1
                if sub is None:
                    return None
                out += sub
            else:
                return None
        out.append(c[1][pos:])
        return merge(out)
    if c[0] == 'cont':
        o = st.objs.get(c[1])
        if o is not None and o.kind in ('heap', 'alloca'):
            return [] if o.init == 'zero' and c[2] == 0 else None
        return [c]
    if isinstance(c[0], str) and c[0] in ('w', 'fill', 'havoc', 'off'):
        return None
    return [c]


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += x
        elif x != b'':
            out.append(x)
    return out


def shown(E, st, ps):
    return ' '.join(x.decode('latin1') if isinstance(x, bytes) else '<%s>' % G.desc(E, st, x) for x in ps)[:120]


def jsnap(E, st, src, vals):
    return {'c': tuple(E.content(st, v) if isinstance(v, (tuple, int)) else v for v in vals),
            'iv': tuple(iv(st, v) if isinstance(v, (int, tuple)) and v != U and not (isinstance(v, tuple) and v[0] == 'p') else None for v in vals)}


def encode(P, rep, attrs):
    """serialising a voucher that holds one attribute yields that attribute, under its name, and nothing else"""
    for en, val, member, kind in attrs:
        cases = [(None, None)]
        if kind == 'enum':
            cases = [(P.enums['VOUCHER_ASSERTION_' + k], v) for k, v in ASSERTIONS.items() if 'VOUCHER_ASSERTION_' + k in P.enums]
        elif kind == 'bool':
            cases = [(1, None), (0, None)]
        for const, text in cases:
            f, E, R = run(P, rep, 'serialize_voucher', None, hook=only_member(P, member, const), unroll=16, snap=jsnap,
                          record={'serialize_array2base64str', 'serialize_bool2str', 'serialize_time2str', 'sprintf', 'snprintf'})
            file = f.mod.fn_file(f)
            file = file[file.index('/src/') + 1:]

            def bad(rule, msg, end):
                rep.viol(rule, file, 'serialize_voucher', msg, E.loc(end[2])[1], [str(x) for x in unlink(end[0].trace)])
            ok = 0
            for end in R.ends:
                st, v, inst = end
                if not (isinstance(v, tuple) and v[0] == 'p') or st_isnull(st, v) == 1:
                    continue
                ok += 1
                rep.count('serialised forms')
                c = E.content(st, v)
                t = tree(E, st, c)
                if t is None:
                    bad('not-json', 'the serialised voucher is not the JSON object of its attributes', end)
                    continue
                if [k for k, _ in t] != [ROOT] or not isinstance(t[0][1], list):
                    bad('root', 'the serialised voucher is not inside "%s"' % ROOT.decode(), end)
                    continue
                items = t[0][1]
                rest = [x for x in items if x[0] != json_name(member)]
                mine = [x for x in items if x[0] == json_name(member)]
                for k, _ in rest:
                    if k != b'domain-cert-revocation-checks':
                        bad('extra-attribute', '%s appears although the voucher only holds %s' % (k.decode('latin1') if isinstance(k, bytes) else 'an unknown key', member), end)
                if len(mine) > 1:
                    bad('attribute-twice', '%s appears twice' % member, end)
                if not mine:
                    if kind == 'time':
                        o = E.obj(st, 'P:' + pname(P, f, 'Voucher*'))
                        if all(G.zero(st, E.peek(st, o, *x)) for x in leaves(P, member)[:6]):
                            continue
                    bad('attribute-dropped', '%s is not serialised' % member, end)
                    continue
                for m in mine:
                    if not encoded(P, E, st, f, member, kind, const, text, m[1]):
                        bad('attribute-value', '%s is not serialised from its own value in its own form' % member, end)
            if not ok and not R.truncated:
                rep.viol('never-serialised', file, 'serialize_voucher', 'a voucher holding %s is never serialised' % member)


def tree(E, st, c):
    """content of a serialised key/value list -> [(name, value content or nested list)]"""
    if not (isinstance(c, tuple) and c[0] == 'serialize_keyvalue2json' and c[1][0] == 'list'):
        return None
    out = []
    for k, v in c[1][2:]:
        if not (k[0] == 'serialize_escapestr' and k[1][0] == 'lit'):
            p = pieces(E, st, k)
            if not (p and len(p) == 1 and isinstance(p[0], bytes) and p[0][:1] == p[0][-1:] == b'"'):
                return None
            name = p[0][1:-1]
        else:
            name = k[1][1]
        out.append((name, tree(E, st, v) or v))
    return out


def quoted(E, st, c):
    """the content between the quotes of a JSON string"""
    if c[0] == 'serialize_escapestr':
        return c[1]
    p = pieces(E, st, c)
    if p and len(p) == 1 and isinstance(p[0], bytes) and len(p[0]) > 1 and p[0][:1] == p[0][-1:] == b'"':
        return ('lit', p[0][1:-1])
    if p and len(p) == 3 and p[0] == p[2] == b'"' and isinstance(p[1], tuple):
        return p[1]
    return None


def encoded(P, E, st, f, member, kind, const, text, c):
    vp = 'P:' + pname(P, f, 'Voucher*')
    off = P.fields('Voucher')[member]
    ev = [(x[0], x[1], x[4] if isinstance(x[4], dict) else {}) for x in G.events(st)]
    if kind == 'bool':
        p = pieces(E, st, c)
        if p and len(p) == 1 and isinstance(p[0], bytes):
            return p[0] == (b'true' if const else b'false')
        return c[0] == 'serialize_bool2str' and any(n == c[0] and s.get('iv') and s['iv'][0] and bool(s['iv'][0][0]) == bool(const) and s['iv'][0][0] == s['iv'][0][1] or
                                                    n == c[0] and s.get('iv') and const and s['iv'][0] in ((-1, -1), (1, 1)) for n, a, s in ev)
    q = quoted(E, st, c)
    if q is None:
        return False
    if kind == 'enum':
        return q == ('lit', text)
    if kind == 'str':
        return q == ('cont', '%s.%d' % (vp, off), 0)
    if kind == 'array':
        b = P.fields('BinaryArray')
        if q != ('serialize_array2base64str', 2, ('cont', '%s.%d' % (vp, off + b['array']), 0)):
            return False
        return any(n == q[0] and s['c'][0] == q[2] and plain(a[1]) == ('s', '%s.%d' % (vp, off + b['length']), 64) for n, a, s in ev)
    if kind == 'time':
        if q[0] != 'serialize_time2str':
            return False
        return any(n == q[0] and isinstance(a[0], tuple) and (a[0][:3] == ('p', vp, off) or tm_copy(E, st, a[0], vp, off)) for n, a, s in ev)
    return False


def tm_copy(E, st, p, vp, off):
    o = st.objs.get(p[1])
    if o is None or not isinstance(p[2], int):
        return False
    for d in (0, 4, 8, 12, 16, 20):
        v = E.peek(st, o, p[2] + d, ('i', 32), 4)
        if not (isinstance(v, tuple) and v[0] == 's' and v[1] == '%s.%d' % (vp, off + d)):
            return False
    return True


def decoder(P):
    """the function that stores one key/value pair of the JSON into a voucher"""
    f = P.fn('set_keyvalue_voucher')
    sig = ['Voucher*', 'char*', 'size_t', 'char*', 'size_t']
    cands = [f] if f is not None else []
    for g in P.repo_functions():
        ts = [t.replace('const ', '').replace(' ', '') for t in P.param_types(g)]
        if ts == sig and g is not f:
            cands.append(g)
    return [g for g in cands if [t.replace('const ', '').replace(' ', '') for t in P.param_types(g)] == sig][:1]


BAD_KEYS = (b'', b'c', b'created', b'created-onn', b'nonc', b'nonces', b'Nonce', b'serial_number', b'assertions', b'idevid-issuer-x',
            b'pinned-domain-cer', b'domain-cert-revocation-check', b'prior-signed-voucher-requests', b'proximity-registrar', b'expires',
            b'last-renewal', b'unknown', b'serial-numbe')


def decode(P, rep, attrs):
    fs = decoder(P)
    if not fs:
        rep.notes.append('no function stores one JSON key/value pair: decoding by key not examined')
        return
    f = fs[0]
    f.parse()
    name = f.mod.fn_srcname(f)
    ps = [nm for ty, nm, bv in f.params]
    file = f.mod.fn_file(f)
    file = file[file.index('/src/') + 1:]
    runs = []
    for en, val, member, kind in attrs:
        if kind == 'enum':
            for k, text in ASSERTIONS.items():
                runs.append((json_name(member), member, kind, text, P.enums.get('VOUCHER_ASSERTION_' + k)))
            for text in (b'', b'prox', b'proximityx', b'Proximity', b'none', b'verifie'):
                runs.append((json_name(member), None, kind, text, None))
        else:
            runs.append((json_name(member), member, kind, None, None))
    for k in BAD_KEYS:
        runs.append((k, None, None, None, None))
    for key, member, kind, text, want in runs:
        def h(E, st, fn, i, nm, tn):
            if nm == ps[1]:
                return literal(E, st, nm, key, b'":\0')
            if nm == ps[2]:
                return len(key)
            if nm == ps[3] and text is not None:
                return literal(E, st, nm, text, b'",\0')
            if nm == ps[4] and text is not None:
                return len(text)
            return None
        E = None
        _, E, R = run(P, rep, name, None, hook=h, unroll=16, snap=jsnap, record={'serialize_str2time', 'serialize_base64str2array', 'serialize_str2bool', 'strptime', 'snprintf'})
        vo = 'P:' + ps[0]

        def bad(rule, msg, end=None):
            rep.viol(rule, file, name, msg, E.loc(end[2])[1] if end else None, [str(x) for x in unlink(end[0].trace)] if end else ())
        ok = 0
        what = repr(key.decode()) + (' with value ' + repr(text.decode()) if text is not None else '')
        for end in R.ends:
            st, v, inst = end
            if st.nn.get(vo) is False:
                continue
            o = E.obj(st, vo)
            rep.count('decoded pairs')
            changed = [m for _, _, m, _ in attrs if not unchanged(E, st, o, m)]
            if failed(st, v):
                continue
            ok += 1
            if member is None:
                bad('unknown-accepted', 'the pair %s is accepted' % what, end)
                continue
            for m in changed:
                if m != member:
                    bad('wrong-member', 'the pair %s changes %s' % (what, m), end)
            if kind == 'time':
                for x in G.events(st):
                    n = x[4]['iv'][1] if x[0] == 'snprintf' else None
                    if n and n[1] < len(TIME) + 1:
                        bad('time-cut', 'no time fits the %d bytes %s is copied to before it is read' % (n[1], member), end)
            if not decoded(P, E, st, o, vo, member, kind, want, ps):
                bad('value-not-stored', 'the pair %s does not store its value in %s' % (what, member), end)
        if member is not None and not ok and not R.truncated:
            bad('pair-refused', 'the pair %s is never accepted' % what)


def decoded(P, E, st, o, vo, member, kind, want, ps):
    lv = leaves(P, member)
    vc, vn = ('cont', 'P:' + ps[3], 0), 'P:' + ps[4]
    ev = [(x[0], x[1], x[3], x[4] if isinstance(x[4], dict) else {}) for x in G.events(st)]
    x = E.peek(st, o, *lv[0])
    if kind == 'enum':
        return x == want or isinstance(x, tuple) and iv(st, x) == (want, want)
    if kind == 'str':
        c = E.content(st, x)
        return isinstance(c, tuple) and c[0] == 'pre' and c[1] == vc and plain(c[2])[:2] == ('s', vn)
    if kind == 'array':
        n = E.peek(st, o, *lv[1])
        return E.content(st, x) == ('serialize_base64str2array', 2, vc) and any(
            e[0] == 'serialize_base64str2array' and plain(e[1][1])[:2] == ('s', vn) and G.same(st, e[2], n) for e in ev if e[2] is not None)
    if kind == 'bool':
        return any(e[0] == 'serialize_str2bool' and e[3]['c'][0] == vc and plain(e[1][1])[:2] == ('s', vn) and
                   isinstance(e[2], tuple) and equivalent(st, x, e[2]) for e in ev)
    if kind == 'time':
        names = [E.peek(st, o, *y) for y in lv[:6]]
        if not all(isinstance(y, tuple) and y[0] == 's' and y[1].endswith('.%d' % (z[0] - lv[0][0])) and y[1].startswith('T:') for y, z in zip(names, lv)):
            return False
        return all(repr(vc) in y[1] for y in names)
    return False


def helper(P, rep, name, hook=None, **kw):
    f = P.fn(name)
    if f is None:
        rep.notes.append('%s is not defined below src/' % name)
        return None
    f, E, R = run(P, rep, name, None, hook=hook, snap=jsnap, no_api={name}, **kw)
    file = f.mod.fn_file(f)
    return f, E, R, file[file.index('/src/') + 1:]


def primitives(P, rep):
    """the textual forms of strings, booleans and times"""
    h = helper(P, rep, 'serialize_escapestr')
    if h:
        f, E, R, file = h
        par = ('cont', 'P:' + f.params[0][1], 0)
        for st, v, inst in R.ends:
            if not (isinstance(v, tuple) and v[0] == 'p') or st_isnull(st, v) == 1:
                continue
            p = pieces(E, st, E.content(st, v))
            if p is None:
                continue
            if p == [b'"', par, b'"']:
                rep.viol('not-escaped', file, 'serialize_escapestr', 'characters with a meaning in JSON strings are copied unescaped', E.loc(inst)[1])
            else:
                rep.viol('not-quoted', file, 'serialize_escapestr', 'the text is not the string between double quotes: ' + shown(E, st, p), E.loc(inst)[1])
    h = helper(P, rep, 'serialize_bool2str')
    if h:
        f, E, R, file = h
        par = E.cur_root_args[f.params[0][1]]
        for st, v, inst in R.ends:
            if not (isinstance(v, tuple) and v[0] == 'p') or st_isnull(st, v) == 1:
                continue
            p = pieces(E, st, E.content(st, v))
            if p is None:
                continue
            rep.count('textual forms')
            for want in (0, 1):
                for s in assume(st.copy(), par, want):
                    if p != [(b'false', b'true')[want]]:
                        rep.viol('boolean-text', file, 'serialize_bool2str', '%s becomes %s' % (('false', 'true')[want], shown(E, st, p)), E.loc(inst)[1])
    f = P.fn('serialize_str2bool')
    if f is not None:
        f.parse()
        ps = [nm for ty, nm, bv in f.params]
        for text, want in ((b'true', 1), (b'false', 0), (b'1', 1), (b'0', 0), (b'TRUE', 1), (b'False', 0), (b'', -1), (b'2', -1), (b'10', -1),
                           (b'01', -1), (b'tru', -1), (b'truex', -1), (b'falsey', -1), (b'fals', -1), (b'yes', -1), (b'null', -1), (b'f', -1), (b't', -1)):
            def hk(E, st, fn, i, nm, tn):
                if nm == ps[0]:
                    return literal(E, st, nm, text, b',"\0')
                if nm == ps[1]:
                    return len(text)
            h = helper(P, rep, 'serialize_str2bool', hook=hk, unroll=16)
            f2, E, R, file = h
            for st, v, inst in R.ends:
                rep.count('textual forms')
                if not isinstance(v, int):
                    continue
                got = -1 if v < 0 else v
                if got != want:
                    rep.viol('boolean-value', file, 'serialize_str2bool', '%r is read as %s' % (text.decode(), {0: 'false', 1: 'true'}.get(got, 'no boolean')), E.loc(inst)[1])
    fm = {}
    for name, fn, i in (('serialize_time2str', 'strftime', 2), ('serialize_str2time', 'strptime', 1)):
        h = helper(P, rep, name, record={fn})
        if not h:
            continue
        f, E, R, file = h
        for st, v, inst in R.ends:
            ok = st_isnull(st, v) != 1 if isinstance(v, tuple) and v[0] == 'p' else succeeded(st, v) if P.ret_type(f) == 'int' else False
            if not ok:
                continue
            ev = [x for x in G.events(st) if x[0] == fn]
            rep.count('textual forms')
            if not ev:
                rep.notes.append('%s: no call of %s' % (name, fn))
                continue
            x = ev[-1]
            c = x[4]['c']
            if c[i][0] == 'lit' and c[i][1] != b'%Y-%m-%dT%H:%M:%SZ':
                rep.viol('time-format', file, name, 'times are not in the form %Y-%m-%dT%H:%M:%SZ', E.loc(inst)[1])
            if fn == 'strptime':
                if c[0] != ('cont', 'P:' + f.params[0][1], 0):
                    rep.viol('time-input', file, name, 'the time is not read from the given string', E.loc(inst)[1])
                if x[1][2][:2] != ('p', 'P:' + f.params[1][1]):
                    continue
            else:
                n = x[4]['iv'][1]
                if n and n[1] < len(TIME) + 1:
                    rep.viol('time-cut', file, name, 'no time fits the %d bytes it is formatted in' % n[1], E.loc(inst)[1])
                if x[1][3][:2] != ('p', 'P:' + f.params[0][1]):
                    rep.viol('time-input', file, name, 'the text is not made from the given time', E.loc(inst)[1])
                out = E.content(st, v)
                while out[0] == 'pre':
                    out = out[1]
                if out != c[0] and out[0] == 'cont' and c[0][0] == 'cont' and x[1][0][1] != out[1]:
                    rep.viol('time-output', file, name, 'what is handed out is not the formatted time', E.loc(inst)[1])


def lists(P0, rep):
    """a key/value list becomes {k:v,k:v}"""
    from ..models import Models
    from ..engine import Engine, Config
    from ..build import BuildError
    from .. import suite
    import os
    drv = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'json.c')
    try:
        P = Program(['voucher/serialize.c', 'voucher/array.c', 'voucher/keyvalue.c', 'utils/os.c', 'utils/log.c', drv])
    except BuildError as e:
        rep.notes.append('driver json.c does not compile against the current source: %s' % str(e)[-300:])
        return
    for n, names in (('sa_json0', ''), ('sa_json1', 'ab'), ('sa_json2', 'abcd'), ('sa_json3', 'abcdef')):
        M = Models(P)
        M.no_api = suite.LIST_API | {'serialize_keyvalue2json'}
        E = Engine(P, M, Config(unroll=8, sticky=True))
        R = E.run(P.harness(n))
        rep.count('interpreted instructions', R.steps)
        want = [b'{']
        for i in range(0, len(names), 2):
            want += [('cont', 'P:' + names[i], 0), b':', ('cont', 'P:' + names[i + 1], 0), b',']
        want = merge(want[:-1] + [b'}']) if names else None
        for st, v, inst in R.ends:
            if not (isinstance(v, tuple) and v[0] == 'p') or st_isnull(st, v) == 1:
                continue
            p = pieces(E, st, E.content(st, v))
            if p is None:
                continue
            rep.count('lists serialised')
            if want is None:
                if p != [b'{}']:
                    rep.viol('list-json', 'src/voucher/serialize.c', 'serialize_keyvalue2json', 'an empty list becomes ' + shown(E, st, p))
            elif p != want:
                rep.viol('list-json', 'src/voucher/serialize.c', 'serialize_keyvalue2json', 'a list of %d pairs becomes %s' % (len(names) // 2, shown(E, st, p)))


def root_object(P, rep, attrs):
    """a voucher is read only from the object named by the root name"""
    f, E, R = run(P, rep, 'deserialize_voucher', None, record={'jsmn_parse', 'set_keyvalue_voucher'}, snap=jsnap)
    ps = [nm for ty, nm, bv in f.params]
    file = f.mod.fn_file(f)
    file = file[file.index('/src/') + 1:]
    for st, v, inst in R.ends:
        if not (isinstance(v, tuple) and v[0] == 'p') or st_isnull(st, v) == 1:
            continue
        rep.count('decoded vouchers')

        def bad(rule, msg):
            rep.viol(rule, file, 'deserialize_voucher', msg, E.loc(inst)[1], [str(x) for x in unlink(st.trace)])
        ev = [x for x in G.events(st) if x[0] == 'jsmn_parse']
        if not any(x[4]['c'][1] == ('cont', 'P:' + ps[0], 0) and plain(x[1][2])[:2] == ('s', 'P:' + ps[1]) for x in ev):
            bad('input', 'what is parsed is not the given JSON in its given length')
        for x in ev:
            n = x[4]['iv'][4]
            if n and n[1] < 2 * len(attrs) + 3:
                bad('capacity', 'only %d tokens of the JSON can be parsed, a voucher with every attribute has %d' % (n[1], 2 * len(attrs) + 3))
        eqs = [k for k in G.equalities(st) if repr(('lit', ROOT)) in k]
        if not eqs:
            bad('root', 'a voucher is accepted without finding the object "%s"' % ROOT.decode())
        elif not any(k.startswith(('strcmp', 'strcasecmp')) or k.endswith(":('u',)") for k in eqs) and not any(k.endswith(':%d' % n) or '):' in k and any(
                x[0] == x[1] == n and k.endswith(':' + repr(t)) for t, x in st.facts.items()) for k in eqs for n in (len(ROOT), len(ROOT) + 1)):
            bad('root', 'only a part of the name of the root object is compared')


def v13(tier):
    rep = Report('V13', 'Serialising a voucher holding one attribute yields exactly its name and its value in its textual form inside the '
                 'root object; decoding a pair stores exactly that value in exactly that member; other names and values are refused; '
                 'strings, booleans, times and lists have one textual form, the same in both directions.')
    P = Program()
    attrs = attributes(P)
    rep.need(len(attrs) >= 11, 'the attributes of a voucher can not be matched with its members')
    rep.part(encode, P, rep, attrs)
    rep.part(decode, P, rep, attrs)
    rep.part(primitives, P, rep)
    rep.part(lists, P, rep)
    rep.part(root_object, P, rep, attrs)
    rep.count('attributes', len(attrs))
    return rep
