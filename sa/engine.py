"""Path-sensitive dataflow over the exploded graph of a root function (LLVM IR, clang -O0 + mem2reg).

Abstract state = registers (terms / abstract pointers), abstract heap (object -> offset -> value),
object typestate (live / freed / escaped), nullness facts, interval facts over linear terms, and an
event list. Repository functions are entered (context-sensitive inlining), so moving code into a
helper does not change what is seen; external functions and the container / crypto / serialisation
API are replaced by transfer functions (models.py). States are merged only when equal; loops are
unrolled a little and then widened. No solver is involved: branch feasibility is decided by constant,
nullness and interval facts only.
"""
from . import ir
from .ir import wrap, Undef, UD

U = ('u',)
# library functions that read (and write) an object; those that take the address of an object without looking into it
READS = {'strcat': 0, 'strncat': 0, 'jsmn_parse': 0, 'timegm': 0, 'mktime': 0}
KEEPS = {'realloc', 'free', 'memcpy', 'memmove'}

BIG = 1 << 62
NONE = (None, None)


# what the C library stores in struct tm (offset -> range); years up to 9999
TM_RANGE = {0: (0, 60), 4: (0, 59), 8: (0, 23), 12: (1, 31), 16: (0, 11), 20: (-1900, 8099), 24: (0, 6), 28: (0, 365)}


import re
SCALAR = re.compile(r'(.+?)(?:~\d+)?\.\d+$').match
CMPNAME = re.compile(r'(str|mem)\w*cmp:').match


class Stop(Exception):
    """the current path cannot be continued (reported, or the process ends)"""


class Obj:
    __slots__ = ('oid', 'kind', 'fam', 'site', 'size', 'init', 'tname', 'prov', 'parent', 'tag')

    def __init__(self, oid, kind, fam=None, site=None, size=None, init='lazy', tname=None, prov=None,
                 parent=None, tag=None):
        self.oid = oid
        self.kind = kind      # heap alloca global lazy
        self.fam = fam
        self.site = site
        self.size = size      # int or term
        self.init = init      # lazy zero undef
        self.tname = tname    # debug-info type name of what lives there
        self.prov = prov      # why the pointer to it may be NULL (string) or None
        self.parent = parent
        self.tag = tag


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'idx', 'prev', 'call', 'ctx', 'loops', 'args', 'allocas', 'out')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.idx, f.prev, f.call, f.ctx = self.fn, self.blk, self.idx, self.prev, self.call, self.ctx
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        f.args = self.args
        f.allocas = self.allocas
        f.out = self.out
        return f


class State:
    __slots__ = ('frames', 'mem', 'own', 'objs', 'stt', 'esc', 'nn', 'facts', 'cnt', 'ev', 'fails',
                 'trace', 'forks', 'cont', 'ext', 'user')

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.objs = dict(self.objs)
        s.stt = dict(self.stt)
        s.esc = set(self.esc)
        s.nn = dict(self.nn)
        s.facts = dict(self.facts)
        s.cnt = dict(self.cnt)
        s.ev = self.ev
        s.fails = self.fails
        s.trace = self.trace
        s.forks = self.forks
        s.cont = dict(self.cont)
        s.ext = dict(self.ext)
        s.user = self.user
        return s


def new_state():
    s = State()
    s.frames = []
    s.mem = {}
    s.own = set()
    s.objs = {}
    s.stt = {}
    s.esc = set()
    s.nn = {}
    s.facts = {}
    s.cnt = {}
    s.ev = None
    s.fails = ()
    s.trace = None
    s.forks = 0
    s.cont = {}
    s.ext = {}
    s.user = None
    return s


def unlink(ll):
    out = []
    while ll is not None:
        out.append(ll[1])
        ll = ll[0]
    out.reverse()
    return out


# ------------------------------------------------------------------ terms
def lin(t):
    """-> (dict term->coef, const)"""
    if isinstance(t, int):
        return {}, t
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mklin(d, k):
    d = {a: c for a, c in d.items() if c}
    if not d:
        return k
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return ('lin', tuple(sorted(d.items(), key=lambda x: repr(x[0]))), k)


def ladd(a, b, s=1):
    if a == U or b == U:
        return U
    da, ka = lin(a)
    db, kb = lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + s * c
    return mklin(da, ka + s * kb)


def lmul(a, c):
    if a == U:
        return U
    da, ka = lin(a)
    return mklin({t: x * c for t, x in da.items()}, ka * c)


def neg(c):
    if isinstance(c, int):
        return 1 - c
    if c[0] == 'not':
        return c[1]
    return ('not', c)


BOOLT = ('c', 'not', 'and', 'or', 'peq', 'bop')


def is_bool(t):
    return isinstance(t, tuple) and t[0] in BOOLT


def iv(st, t):
    if isinstance(t, int):
        return (t, t)
    k = t[0]
    f = st.facts.get(t)
    if f is not None and k != 'lin':
        return (f[0], f[1])
    if k == 's':
        w = t[2]
        if w == 1:
            r = (0, 1)
        elif w >= 64:
            r = (-BIG, BIG)
        else:
            r = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if len(t) > 3:
            r = (max(r[0], t[3][0]), min(r[1], t[3][1]))
        return r
    if k == 'lin':
        lo = hi = t[2]
        for a, c in t[1]:
            x, y = iv(st, a)
            if c > 0:
                lo += c * x
                hi += c * y
            else:
                lo += c * y
                hi += c * x
        base = st.facts.get(('lin', t[1], 0)) if len(t[1]) > 1 else None
        if base:
            lo = max(lo, base[0] + t[2])
            hi = min(hi, base[1] + t[2])
        return (max(lo, -BIG * 2), min(hi, BIG * 2))
    if k == 'zx':
        a = iv(st, t[2])
        if a[0] >= 0:
            return a
        return (0, (1 << t[1]) - 1)
    if k == 'tr':
        w = t[1]
        if w == 1:
            return (0, 1)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if k in BOOLT:
        return (0, 1)
    if k in ('p', 'f'):
        return (1, BIG)
    if k == 'op':
        a, b = iv(st, t[2]), iv(st, t[3])
        o = t[1]
        if o == 'and' and isinstance(t[3], int) and t[3] >= 0:
            return (0, t[3])
        if o in ('lshr', 'udiv', 'urem') and a[0] >= 0:
            if o == 'urem' and isinstance(t[3], int) and t[3] > 0:
                return (0, t[3] - 1)
            if o == 'udiv' and isinstance(t[3], int) and t[3] > 0:
                return (a[0] // t[3], a[1] // t[3])
            if o == 'lshr' and isinstance(t[3], int) and t[3] >= 0:
                return (a[0] >> t[3], a[1] >> t[3])
            return (0, a[1])
        if o in ('sdiv',) and isinstance(t[3], int) and t[3] > 0 and a[0] >= 0:
            return (a[0] // t[3], a[1] // t[3])
        if o == 'srem' and isinstance(t[3], int) and t[3]:
            m = abs(t[3]) - 1
            return (0 if a[0] >= 0 else -m, m)
        if o == 'or' and a[0] >= 0 and b[0] >= 0 and a[1] < BIG and b[1] < BIG:
            return (0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
        if o in ('mul',) and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], min(a[1] * b[1], BIG))
    return (-BIG, BIG)


def ne_set(st, t):
    f = st.facts.get(t)
    return f[2] if f is not None and len(f) > 2 else ()


def related_bound(st, off):
    """the largest value a term may have by the comparisons with other terms made on the path; None if it was compared with nothing above it"""
    dd, k = lin(off)
    if len(dd) != 1:
        return None
    (x, c), = dd.items()
    if c != 1:
        return None
    best = None
    for t, f in st.facts.items():
        if not isinstance(t, tuple) or t[0] != 'lin' or not isinstance(f, tuple):
            continue
        td, tk = lin(t)
        cx = td.get(x)
        if cx not in (1, -1) or len(td) < 2:
            continue
        # cx * x + rest in f
        b = -f[0] if cx == -1 else f[1]
        if b >= BIG // 2:
            continue
        b = tk + b if cx == -1 else b - tk
        hi = 0
        for y, cy in td.items():
            if y == x:
                continue
            cy = cy if cx == -1 else -cy
            lo_y, hi_y = iv(st, y)
            hi += cy * (hi_y if cy > 0 else lo_y)
        b = min(b + hi, BIG) + k
        best = b if best is None else min(best, b)
    return best


def constraint(pred, a, b):
    """signed comparison a pred b -> bool term over a normalised linear base"""
    d = ladd(a, b, -1)
    if d == U:
        return None
    dd, k = lin(d)
    if not dd:
        x = k
        return int({'eq': x == 0, 'ne': x != 0, 'slt': x < 0, 'sle': x <= 0, 'sgt': x > 0, 'sge': x >= 0}[pred])
    items = sorted(dd.items(), key=lambda x: repr(x[0]))
    c0 = items[0][1]
    g = abs(c0)
    for _, c in items:
        if c % g:
            g = 1
    sgn = 1 if c0 > 0 else -1
    if g > 1 and k % g == 0:
        pass
    else:
        g = 1
    base = mklin({t: c * sgn // g for t, c in items}, 0)
    kk = -k * sgn // g          # base pred' kk
    if sgn < 0:
        pred = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(pred, pred)
    if pred == 'eq':
        return ('c', 'eq', base, kk)
    if pred == 'ne':
        return ('not', ('c', 'eq', base, kk))
    if pred == 'slt':
        return ('c', 'le', base, kk - 1)
    if pred == 'sle':
        return ('c', 'le', base, kk)
    if pred == 'sgt':
        return ('not', ('c', 'le', base, kk))
    return ('not', ('c', 'le', base, kk - 1))


def truth(st, c):
    """1 / 0 / None"""
    if isinstance(c, int):
        return 1 if c else 0
    k = c[0]
    if k == 'not':
        r = truth(st, c[1])
        return None if r is None else 1 - r
    if k == 'c':
        lo, hi = iv(st, c[2])
        if c[1] == 'le':
            if hi <= c[3]:
                return 1
            if lo > c[3]:
                return 0
            return None
        if lo == hi == c[3]:
            return 1
        if c[3] < lo or c[3] > hi or c[3] in ne_set(st, c[2]):
            return 0
        return None
    if k == 'and':
        a, b = truth(st, c[1]), truth(st, c[2])
        if a == 0 or b == 0:
            return 0
        return 1 if a and b else None
    if k == 'or':
        a, b = truth(st, c[1]), truth(st, c[2])
        if a == 1 or b == 1:
            return 1
        return 0 if a == 0 and b == 0 else None
    if k == 'nul':
        return st_isnull(st, c[1])
    if k in ('p', 'f'):
        return 1
    f = st.facts.get(c)
    if f is not None:
        if f[0] == f[1]:
            return 1 if f[0] else 0
        if f[0] > 0 or f[1] < 0 or (len(f) > 2 and 0 in f[2]):
            return 1
        return None
    lo, hi = iv(st, c)
    if lo == hi:
        return 1 if lo else 0
    if lo > 0 or hi < 0:
        return 1
    return None


def st_isnull(st, p):
    """pointer p == NULL? 1/0/None"""
    if p == 0:
        return 1
    if isinstance(p, int):
        return 0
    if p[0] == 'f':
        return 0
    if p[0] == 'p':
        o = st.objs.get(p[1])
        if p[2] != 0:
            return 0
        if o is None or o.kind != 'lazy':
            return 0
        n = st.nn.get(p[1])
        if n is None:
            return None
        return 0 if n else 1
    return None


def null_cell(st, oid):
    """a lazily read member turned out to be NULL: write that down in its parent"""
    o = st.objs.get(oid)
    if o is None or o.parent is None or o.parent[0] not in st.objs:
        return
    po, off = o.parent
    d = st.mem.get(po)
    if d is not None and off in d:
        return
    v = st.ext.get(po, 0)
    if oid != ('%s.%s' % (po, off) if v == 0 else '%s~%d.%s' % (po, v, off)):
        return
    if d is not None and any(r[0] <= off < r[0] + r[1] for r in d.get('r', ())):
        return
    if po not in st.own:
        d = dict(d) if d else {}
        st.mem[po] = d
        st.own.add(po)
    d[off] = (0, 8)
    return no_bytes(st, po, v, off, d)


LENGTH_OF = [None]      # (structure type, offset of a buffer pointer) -> offset of its length


def no_bytes(st, po, v, off, d):
    """a buffer that is NULL has length 0 (invariant of struct BinaryArray): False where the path says otherwise"""
    n = LENGTH_OF[0](st.objs[po].tname, off) if LENGTH_OF[0] else None
    if n is None or n in d or any(r[0] <= n < r[0] + r[1] for r in d.get('r', ())):
        return
    t = ('s', '%s.%s' % (po, n) if v == 0 else '%s~%d.%s' % (po, v, n), 64)
    lo, hi = iv(st, t)
    if lo > 0 or hi < 0 or 0 in ne_set(st, t):
        return False


def of_null(st, t):
    """t is the length of a buffer known to be NULL"""
    po, _, n = t[1].rpartition('.')
    po, _, v = po.partition('~')
    o = st.objs.get(po)
    if o is None or not o.tname or not n.isdigit() or not LENGTH_OF[0]:
        return False
    n = int(n)
    for off in (n - 8, n + 8):
        if off >= 0 and LENGTH_OF[0](o.tname, off) == n:
            return st.nn.get('%s.%d' % (po, off) if not v else '%s~%s.%d' % (po, v, off)) is False
    return False


def assume(st, c, want):
    """list of refined states (st may be reused)"""
    t = truth(st, c)
    if t is not None:
        return [st] if t == want else []
    k = c[0]
    if k == 'not':
        return assume(st, c[1], 1 - want)
    if k == 'and' or k == 'or':
        w = want if k == 'and' else 1 - want
        b = 1 if k == 'and' else 0
        if w == 1:
            out = []
            for s in assume(st, c[1], b):
                out += assume(s, c[2], b)
            return out
        s2 = st.copy()
        out = assume(st, c[1], 1 - b)
        for s in assume(s2, c[1], b):
            out += assume(s, c[2], 1 - b)
        return out
    if k == 'c':
        base, v = c[2], c[3]
        lo, hi = iv(st, base)
        ne = ne_set(st, base)
        if c[1] == 'le':
            if want:
                hi = min(hi, v)
            else:
                lo = max(lo, v + 1)
        elif want:
            lo = hi = v
        else:
            if v == lo:
                lo += 1
            elif v == hi:
                hi -= 1
            else:
                ne = tuple(sorted(set(ne) | {v}))
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return []
        if is_bool(base):
            # a comparison stored as a number: decide the comparison itself
            lo, hi = max(lo, 0), min(hi, 1)
            return [] if lo > hi else assume(st, base, lo) if lo == hi else [st]
        if base[0] == 'zx' and is_bool(base[2]) and max(lo, 0) == min(hi, 1):
            setfact(st, base, (lo, hi, ne))
            return assume(st, base[2], max(lo, 0))
        if base[0] == 's' and len(base) == 3 and base[2] == 64 and (lo > 0 or hi < 0 or 0 in ne) and of_null(st, base):
            return []
        setfact(st, base, (lo, hi, ne))
        return [st]
    if k == 'nul':
        p = c[1]
        if p[0] == 'p':
            st.nn[p[1]] = not want
            if want and null_cell(st, p[1]) is False:
                return []
        else:
            st.facts[c] = (want, want)
        return [st]
    # generic non-zero test
    lo, hi = iv(st, c)
    if want:
        if lo == 0:
            lo = 1
        elif hi == 0:
            hi = -1
        setfact(st, c, (lo, hi, tuple(sorted(set(ne_set(st, c)) | {0}))))
    else:
        setfact(st, c, (0, 0, ()))
    return [st]


def setfact(st, t, f):
    st.facts[t] = f
    # push a refinement of a scaled/zero-extended single term down to the term itself
    if t[0] == 'zx':
        lo, hi = iv(st, t[2])
        w = (1 << (t[1] - 1)) - 1
        if f[1] <= w and f[0] >= 0:
            st.facts[t[2]] = (max(lo, f[0]), min(hi, f[1]), f[2] if len(f) > 2 else ())
    elif t[0] == 'lin' and len(t[1]) == 1:
        (a, c), = t[1]
        lo, hi = iv(st, a)
        if c > 0:
            nl, nh = -(-f[0] // c), f[1] // c
        else:
            nl, nh = -(-f[1] // c), f[0] // c
        ne = st.facts.get(a, (0, 0, ()))[2] if a in st.facts else ()
        st.facts[a] = (max(lo, nl), min(hi, nh), ne)


# ------------------------------------------------------------------ per-function static info
COUNTED = 24


class Info:
    def __init__(self, fn):
        fn.parse()
        succ = ir.successors(fn)
        self.succ = succ
        pred = {b: [] for b in fn.order}
        for b in fn.order:
            for s in succ[b]:
                if s in pred:
                    pred[s].append(b)
        self.pred = pred
        # liveness
        use, dfn, phiuse = {}, {}, {b: set() for b in fn.order}
        for b in fn.order:
            u, d = set(), set()
            for i in fn.blocks[b]:
                if i.op == 'phi':
                    d.add(i.res)
                    for pb, v in i.a[1].items():
                        if isinstance(v, str) and pb in phiuse:
                            phiuse[pb].add(v)
                    continue
                for v in operands(i):
                    if v not in d:
                        u.add(v)
                if i.res is not None:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        live = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                out = set(phiuse[b])
                for s in succ[b]:
                    if s in live:
                        out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.dfn = dfn
        # dominators and natural loops
        heads = ir.loop_headers(fn)
        self.body = {}
        color = {}
        stack = [(fn.entry, iter(succ[fn.entry]))]
        color[fn.entry] = 1
        back = []
        while stack:
            b, it = stack[-1]
            for x in it:
                c = color.get(x, 0)
                if c == 0:
                    color[x] = 1
                    stack.append((x, iter(succ.get(x, ()))))
                    break
                elif c == 1:
                    back.append((b, x))
            else:
                color[b] = 2
                stack.pop()
        for b, h in back:
            body = self.body.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += pred[x]
        self.merge = {b for b in fn.order if len(pred[b]) > 1}
        # counted loops: an exit decided by a header phi against a constant
        self.counted = {}
        for h, body in self.body.items():
            phis = {i.res for i in fn.blocks[h] if i.op == 'phi'}
            defs = {i.res: i for b in body for i in fn.blocks[b] if i.res is not None}
            for b in body:
                t = fn.blocks[b][-1]
                if t.op != 'br' or all(x in body for x in succ[b]):
                    continue
                c = defs.get(t.a[0]) if isinstance(t.a[0], str) else None
                if c is None or c.op != 'icmp':
                    continue
                for x, y in ((c.a[2], c.a[3]), (c.a[3], c.a[2])):
                    if not isinstance(y, int) and y in defs:
                        continue
                    for _ in range(8):
                        if x in phis or not isinstance(x, str) or x not in defs:
                            break
                        d = defs[x]
                        ops = operands(d)
                        if d.op not in ('cast', 'bin') or len(ops) != 1:
                            break
                        x = ops[0]
                    if isinstance(x, str) and x in phis:
                        self.counted.setdefault(h, set()).add((x, y if isinstance(y, str) else None))
        # loops that count up by one while below something fixed: the counter never gets past it
        self.upto = {}
        for h, body in self.body.items():
            t = fn.blocks[h][-1]
            defs = {i.res: i for b in body for i in fn.blocks[b] if i.res is not None}
            c = defs.get(t.a[0]) if t.op == 'br' and isinstance(t.a[0], str) else None
            if c is None or c.op != 'icmp' or succ[h][0] not in body or succ[h][1] in body:
                continue
            x, y = c.a[2], c.a[3]
            ph = defs.get(x)
            if c.a[0] not in ('ult', 'slt') or ph is None or ph.op != 'phi' or ph not in fn.blocks[h] or y in defs:
                continue
            steps = [defs.get(v) if isinstance(v, str) else None for b, v in ph.a[1].items() if b in body]
            if steps and all(d is not None and d.op == 'bin' and d.a[0] == 'add' and {d.a[2], d.a[3]} == {x, 1} for d in steps):
                self.upto[h] = (x, y)


def fixed(v):
    """a number, or a place in an object: what loops over tables count with"""
    return isinstance(v, int) or isinstance(v, tuple) and v[0] == 'p' and isinstance(v[2], int)


def operands(i):
    out = []

    def v(x):
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, tuple) and x and x[0] == 'agg':
            for _, y in x[1]:
                v(y)
    op, a = i.op, i.a
    if op == 'br':
        v(a[0])
    elif op == 'load':
        v(a[1])
    elif op == 'store':
        v(a[1]); v(a[2])
    elif op == 'gep':
        v(a[1])
        for _, x in a[2]:
            v(x)
    elif op == 'call':
        v(a[1])
        for x in a[2]:
            v(x[1])
    elif op == 'ret':
        v(a[1])
    elif op == 'icmp':
        v(a[2]); v(a[3])
    elif op == 'bin':
        v(a[2]); v(a[3])
    elif op == 'cast':
        v(a[2])
    elif op == 'alloca':
        v(a[1])
    elif op == 'select':
        v(a[0]); v(a[2]); v(a[3])
    elif op == 'switch':
        v(a[1])
    elif op == 'extractvalue':
        v(a[1])
    elif op == 'insertvalue':
        v(a[1]); v(a[2])
    return out


class Config:
    """what a run records and reports"""
    def __init__(self, **kw):
        self.record = set()           # callee source names whose calls become events
        self.models = {}              # extra / overriding models by callee source name
        self.inline_only = None
        self.no_inline = set()
        self.unroll = 2
        self.max_steps = 3000000
        self.max_states = 150000
        self.report = None            # kinds to report, None = all
        self.dead_params_null = ()
        self.param_hook = None
        self.indirect = None
        self.max_depth = 14
        self.sticky = False           # keep content facts across merges (gate specs)
        self.unwind = False
        self.snap = None              # (engine, state, callee, values) -> what an event remembers
        self.on_write = None          # (engine, state, object, how): called before memory is written or released
        self.forget_empty = False     # std::string contents '' and anything else are not told apart
        self.start = False            # variables with static storage start with their initialisers
        self.__dict__.update(kw)


class Result:
    def __init__(self):
        self.ends = []
        self.errors = {}
        self.truncated = False
        self.steps = 0
        self.states = 0
        self.calls = set()
        self.funcs = set()
        self.unknown = set()
        self.derefs = 0
        self.merged = 0
        self.obl = {}


class Engine:
    def __init__(self, prog, models, cfg=None):
        self.prog = prog
        self.models = models
        self.cfg = cfg or Config()
        self.info = {}
        self.res = None
        self._field_cache = {}
        self._length_of = {}
        LENGTH_OF[0] = self.length_of
        self.lens, self.lencache = {}, {}
        self._strcache = {}

    # ---------------------------------------------------------------- helpers
    def inf(self, fn):
        r = self.info.get(fn)
        if r is None:
            r = self.info[fn] = Info(fn)
        return r

    def loc(self, inst):
        f, l = inst.fn.mod.loc(inst.dbg)
        i = f.find('/src/')
        return (f[i + 1:] if i >= 0 else f, l)

    def fname(self, fn):
        return fn.mod.fn_srcname(fn)

    def site(self, st, inst):
        fr = st.frames[-1]
        key = (fr.ctx, inst.fn.name, inst.blk, inst.idx)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        base = '%s/%s:%s.%d' % (fr.ctx, inst.fn.name, inst.blk, inst.idx)
        return base if n == 0 else '%s#%d' % (base, n)

    def sym(self, st, inst, w=64, rng=None, tag=''):
        n = self.site(st, inst) + tag
        return ('s', n, w) if rng is None else ('s', n, w, rng)

    def note(self, st, text):
        st.trace = (st.trace, text)

    def error(self, st, kind, inst, msg, obj=None):
        if self.cfg.report is not None and kind not in self.cfg.report:
            return
        fl = self.loc(inst) if inst is not None else ('?', 0)
        fn = self.fname(inst.fn) if inst is not None else '?'
        key = (kind, fl[0], fl[1], msg)
        if key in self.res.errors:
            return
        stack = []
        for fr in st.frames:
            stack.append(self.fname(fr.fn))
        self.res.errors[key] = dict(kind=kind, file=fl[0], line=fl[1], function=fn, msg=msg,
                                    root=stack[0] if stack else '', stack=stack,
                                    path=unlink(st.trace)[-40:])

    def oblige(self, kind, n=1):
        self.res.obl[kind] = self.res.obl.get(kind, 0) + n

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, oid, kind, **kw):
        o = Obj(oid, kind, **kw)
        st.objs[oid] = o
        if kind in ('heap',):
            st.stt[oid] = 'L'
        return ('p', oid, 0)

    def alloc(self, st, inst, fam, size=None, init='undef', tname=None, tag='', objtag=None):
        oid = 'H:' + self.site(st, inst) + tag
        return self.new_obj(st, oid, 'heap', fam=fam, site=self.loc(inst), size=size, init=init,
                            tname=tname, tag=objtag)

    def lazy(self, st, oid, tname=None, prov=None, parent=None):
        if oid not in st.objs:
            self.new_obj(st, oid, 'lazy', tname=tname, prov=prov, parent=parent, fam=fam_of(tname))
        return ('p', oid, 0)

    def content(self, st, p):
        """term naming the bytes a pointer points at"""
        if not isinstance(p, tuple):
            return ('nul',) if p == 0 else ('num', p)
        if p[0] == 'p':
            lit = self.literal(st, p)
            if lit is not None:
                return ('lit', lit)
            c = st.cont.get(p[1])
            if c is None:
                o = st.objs.get(p[1])
                # BinaryArray-like heap wrappers etc. are named by the object
                c = ('cont', p[1], st.ext.get(p[1], 0))
            if p[2] == 0:
                return c
            return ('off', c, p[2])
        return ('val', p)

    def literal(self, st, p):
        """bytes of a NUL-terminated constant string, else None"""
        if not (isinstance(p, tuple) and p[0] == 'p' and p[1][0] == '@' and isinstance(p[2], int)):
            return None
        key = p
        if key in self._strcache:
            return self._strcache[key]
        r = None
        g = self.glob(p[1])
        if g is not None:
            ty, v, const = g
            if const and isinstance(v, tuple) and v[0] == 'cstr':
                b = v[1][p[2]:]
                z = b.find(b'\0')
                r = b[:z] if z >= 0 else None
            elif const and ty[0] == 'arr' and v is not None and v[0] == 'zero':
                r = b''
        self._strcache[key] = r
        return r

    def glob(self, oid):
        """'@mod:name' or '@name' -> (type, init, const)"""
        k = oid[1:]
        if ':' in k:
            m, n = k.split(':', 1)
            md = self.prog.mods.get(m)
            if md and n in md.globals_raw:
                return md.ginit(n)
            return None
        best = None
        for md in self.prog.mods.values():
            if k in md.globals_raw:
                r = md.ginit(k)
                if r[1] is not None:
                    return r
                best = r
        return best

    def gmod(self, oid):
        k = oid[1:]
        if ':' in k:
            return self.prog.mods.get(k.split(':', 1)[0])
        for md in self.prog.mods.values():
            if k in md.globals_raw and md.ginit(k)[1] is not None:
                return md
        for md in self.prog.mods.values():
            if k in md.globals_raw:
                return md

    def obj(self, st, oid):
        o = st.objs.get(oid)
        if o is None and oid[0] == '@':
            g = self.glob(oid)
            md = self.gmod(oid)
            size = md.sizeof(g[0]) if g and md else None
            o = Obj(oid, 'global', size=size, init='const' if g and g[2] else 'glob')
            st.objs[oid] = o
        return o

    # ---------------------------------------------------------------- memory
    def wr(self, st, oid):
        d = st.mem.get(oid)
        if oid in st.own:
            return d
        d = dict(d) if d else {}
        st.mem[oid] = d
        st.own.add(oid)
        return d

    def length_of(self, tname, off):
        key = (tname, off)
        if key not in self._length_of:
            r = None
            fo = self.prog.fields('BinaryArray') or {}
            if 'array' in fo and 'length' in fo:
                path, _ = self.field_at(tname, off)
                if path == 'array' and tname == 'BinaryArray':
                    r = off - fo['array'] + fo['length']
                elif path and path.endswith('.array') and self.prog.field_types(tname).get(path[:-6]) == 'BinaryArray':
                    r = off - fo['array'] + fo['length']
            self._length_of[key] = r
        return self._length_of[key]

    def field_at(self, tname, off):
        """(path, type name) of the member of struct `tname` at byte offset off (nested by value)"""
        key = (tname, off)
        if key in self._field_cache:
            return self._field_cache[key]
        r = (None, None)
        if tname and not tname.endswith('*'):
            tn = tname.split('[')[0]
            fs = self.prog.fields(tn)
            if fs:
                ts = self.prog.field_types(tn)
                best = None
                for n, o in fs.items():
                    if o <= off and (best is None or o > best[1]):
                        best = (n, o)
                if best:
                    ft = ts.get(best[0])
                    if best[1] == off and (ft or '').endswith('*'):
                        r = (best[0], ft)
                    elif ft and self.prog.fields(ft.split('[')[0]) and not ft.endswith('*'):
                        sub = self.field_at(ft, off - best[1])
                        if sub[0]:
                            r = (best[0] + '.' + sub[0], sub[1])
                        else:
                            r = (best[0], ft)
                    elif best[1] == off:
                        r = (best[0], ft)
        self._field_cache[key] = r
        return r

    def read_init(self, st, o, off, ty, size):
        """value of never-written memory"""
        if o.init == 'zero':
            return 0
        if o.init == 'undef':
            return U if st.ext.get(o.oid, 0) else UD
        if o.init in ('const', 'glob'):
            if o.init == 'const' or self.cfg.start or self.unwritten_global(o.oid):
                v = self.read_const(o, off, ty)
                if v is not None:
                    return v
        name = o.oid
        ver = st.ext.get(o.oid, 0)
        nm = '%s.%s' % (name, off) if ver == 0 else '%s~%d.%s' % (name, ver, off)
        if ty[0] == 'ptr':
            fpath, ft = self.field_at(o.tname, off)
            tn = ft[:-1] if ft and ft.endswith('*') else None
            if ft is None and o.tname and o.tname.endswith('*') and off == 0:
                tn = o.tname[:-1]
            prov = self.models.lazy_prov(self, st, o, off, fpath, ft)
            return self.lazy(st, nm, tname=tn, prov=prov, parent=(o.oid, off))
        if ty[0] == 'i':
            if o.tname:
                rng = TM_RANGE.get(off) if o.tname == 'tm' and ty[1] == 32 else None
                if rng is None:
                    rng = self.enum_range(self.field_at(o.tname, off)[1])
                if rng:
                    return ('s', nm, ty[1], rng)
            return ('s', nm, ty[1])
        return U

    def enum_range(self, tn):
        if not tn:
            return None
        return self.prog.enum_range(tn)

    def unwritten_global(self, oid):
        return self.prog.global_is_readonly(oid)

    def read_const(self, o, off, ty):
        g = self.glob(o.oid)
        if g is None or g[1] is None or not isinstance(off, int):
            return None
        md = self.gmod(o.oid)
        return const_at(md, g[0], g[1], off, ty)

    def access(self, st, p, inst, size, what):
        """checks a dereference; returns (obj, off) or raises Stop; (None, None) if unknown target"""
        self.res.derefs += 1
        if p == U or not isinstance(p, tuple):
            if p == 0 or (isinstance(p, int) and 0 <= p < 4096):
                self.error(st, 'null', inst, 'NULL pointer %s' % what)
                raise Stop()
            return NONE
        if p[0] == 'f':
            return NONE
        if p[0] != 'p':
            return NONE
        o = self.obj(st, p[1])
        if o is None:
            return NONE
        if self.cfg.on_write and what == 'written':
            self.cfg.on_write(self, st, o, 'writes')
        if o.kind == 'lazy':
            n = st.nn.get(o.oid)
            if n is False:
                self.error(st, 'null', inst, 'pointer known to be NULL here is %s' % what)
                raise Stop()
            if n is None:
                if o.prov:
                    self.error(st, 'null', inst, '%s may be NULL here and is %s' % (o.prov, what))
                    raise Stop()
                st.nn[o.oid] = True
        s = st.stt.get(o.oid)
        if s == 'F':
            self.error(st, 'uaf', inst, 'memory released earlier (%s) is %s' % (self.objdesc(o), what))
            raise Stop()
        off = p[2]
        if isinstance(o.size, int) and size is not None and o.kind != 'lazy':
            if isinstance(off, int):
                if off < 0 or off + size > o.size:
                    self.error(st, 'bounds', inst, 'offset %d size %d is outside an object of %d bytes' % (off, size, o.size))
                    raise Stop()
            elif off is not None:
                lo, hi = iv(st, off)
                if hi < BIG // 2 and hi + size > o.size and hi not in ne_set(st, off):
                    self.error(st, 'bounds', inst, 'offset up to %d is outside an object of %d bytes' % (hi, o.size))
                    raise Stop()
                if hi >= BIG // 2 and what == 'written':
                    ub = related_bound(st, off)
                    if ub is not None and (ub >= BIG // 2 or ub + size > o.size):
                        self.error(st, 'bounds', inst, 'an object of %d bytes is written at an offset %s' % (o.size, 'up to %d' % ub if ub < BIG // 2 else 'that is bounded only by a length of any size'))
                        raise Stop()
        elif o.size is not None and isinstance(o.size, tuple) and off is not None and size is not None and o.kind != 'lazy':
            d = ladd(ladd(off, size), o.size, -1)
            if d != U:
                lo, hi = iv(st, d)
                if lo > 0 or (isinstance(d, int) and d > 0):
                    self.error(st, 'bounds', inst, 'access past the end of the allocated object')
                    raise Stop()
        return o, off

    def objdesc(self, o):
        return '%s %s' % (o.fam or o.kind, ('allocated at %s:%d' % o.site) if o.site else ('reached through ' + short(o.oid)))

    def load(self, st, p, ty, inst):
        size = inst.fn.mod.sizeof(ty)
        o, off = self.access(st, p, inst, size, 'read')
        if o is None:
            return self.unk(st, inst, ty)
        return self.peek(st, o, off, ty, size, inst)

    def peek(self, st, o, off, ty, size, inst=None):
        if not isinstance(off, int):
            if o.kind == 'lazy' or o.init == 'lazy':
                nm = '%s~%d.[%r]' % (o.oid, st.ext.get(o.oid, 0), off)
                if o.oid in st.mem:
                    return self.unk(st, inst, ty) if inst is not None else U
                if ty[0] == 'ptr':
                    return self.lazy(st, nm)
                if ty[0] == 'i':
                    return ('s', nm, ty[1])
            return self.unk(st, inst, ty) if inst is not None else U
        cells = st.mem.get(o.oid)
        if cells:
            c = cells.get(off)
            if c is not None:
                if c[1] == size:
                    return c[0]
                if isinstance(c[0], int) and c[1] > size:
                    return wrap(c[0], size * 8)
                if c[0] == 0 or c[0] == U:
                    pass
                else:
                    return self.unk(st, inst, ty) if inst is not None else U
            for k, c in cells.items():
                if isinstance(k, int) and k < off + size and off < k + c[1]:
                    if isinstance(c[0], int) and k <= off and off + size <= k + c[1]:
                        return wrap(c[0] >> (8 * (off - k)), size * 8)
                    if c[0] == 0:
                        continue
                    return self.unk(st, inst, ty) if inst is not None else U
            for rg in reversed(cells.get('r', ())):
                if rg[0] <= off and off + size <= rg[0] + rg[1]:
                    if rg[2] == 'zero':
                        return 0
                    if rg[2] == 'undef':
                        return UD
                    if rg[2] == 'fill':
                        return U
                    if rg[2] == 'copy':
                        so, sver, soff = rg[3], rg[4], rg[5]
                        src = self.obj(st, so)
                        if src is None:
                            return U
                        cur = st.ext.get(so, 0)
                        st.ext[so] = sver
                        try:
                            return self.read_init(st, src, soff + off - rg[0], ty, size)
                        finally:
                            if cur:
                                st.ext[so] = cur
                            else:
                                st.ext.pop(so, None)
                    if rg[2] == 'havoc':
                        return self.havoc_val(st, rg[3] + '.%d' % off, ty)
        return self.read_init(st, o, off, ty, size)

    def havoc_val(self, st, nm, ty):
        if ty[0] == 'ptr':
            return self.lazy(st, nm)
        if ty[0] == 'i':
            return ('s', nm, ty[1])
        return U

    def unk(self, st, inst, ty, tag=''):
        if ty[0] == 'ptr':
            return self.lazy(st, 'X:' + self.site(st, inst) + tag)
        if ty[0] == 'i':
            return self.sym(st, inst, ty[1], tag=tag)
        return U

    def store(self, st, p, v, ty, inst):
        size = inst.fn.mod.sizeof(ty)
        o, off = self.access(st, p, inst, size, 'written')
        if o is None:
            self.escape(st, v)
            return
        if o.kind == 'global' and o.init == 'const':
            self.error(st, 'constwrite', inst, 'write to constant %s' % o.oid)
            raise Stop()
        self.poke(st, o, off, v, size, ty)

    def poke(self, st, o, off, v, size, ty=None):
        if self.cfg.on_write:
            self.cfg.on_write(self, st, o, 'writes')
        d = self.wr(st, o.oid)
        if o.oid in st.cont and size == 1 and not (v == 0 and off != 0 and off == self.copied(st, o.oid)):
            st.cont[o.oid] = ('w', st.cont[o.oid], repr(off), v if not isinstance(v, dict) else 0)
        if not isinstance(off, int):
            # weak update of an array-like object: forget
            for k in list(d):
                if k != 'r':
                    c = d[k]
                    if isinstance(c[0], tuple) and c[0][0] == 'p' and size == 8:
                        continue
                    if size < 8 and c[1] > size:
                        continue
                    d[k] = (self.havoc_val(st, 'W:%s.%s.%d' % (o.oid, k, len(d)), ('i', c[1] * 8)), c[1]) \
                        if not isinstance(c[0], tuple) or c[0][0] != 'p' else c
            d['r'] = d.get('r', ()) + ((0, 1 << 40, 'fill'),) if not d.get('r') or d['r'][-1][2] != 'fill' else d['r']
            if isinstance(v, tuple) and v[0] == 'p':
                d[('w', repr(off))] = (v, size)
            return
        if isinstance(v, tuple) and v and v[0] == 'zero':
            self.clear(st, o, off, size, 'zero')
            return
        if isinstance(v, tuple) and v and v[0] == 'agg' and ty is not None:
            return self.poke_agg(st, o, off, v, ty)
        c = d.get(off)
        if c is None or c[1] != size:
            for k in list(d):
                if isinstance(k, int) and k < off + size and off < k + d[k][1]:
                    cv, cs = d[k]
                    del d[k]
                    if cv == 0 and not (k >= off and k + cs <= off + size):
                        # partial overwrite of a zero cell: keep zero around it
                        for b in range(k, k + cs):
                            if not (off <= b < off + size):
                                d[b] = (0, 1)
        d[off] = (v, size)

    def poke_agg(self, st, o, off, v, ty):
        self.clear(st, o, off, 0, 'undef')
        # aggregates appear rarely; lay them out by type
        md = self.cur_mod
        t = md.resolve(ty)
        pos = md.layout(ty)[2] if t[0] == 'struct' else None
        for i, (et, ev) in enumerate(v[1]):
            eo = pos[i] if pos else i * md.sizeof(t[2])
            self.poke(st, o, off + eo, ev, md.sizeof(et), et)

    def clear(self, st, o, off, n, what, extra=()):
        if self.cfg.on_write and what != 'havoc':
            self.cfg.on_write(self, st, o, 'writes')
        d = self.wr(st, o.oid)
        if not isinstance(n, int):
            n = 1 << 40
        for k in list(d):
            if isinstance(k, int) and k < off + n and off < k + d[k][1]:
                if what in ('fill', 'havoc') and k < off:
                    continue
                del d[k]
        rs = d.get('r', ())
        rs = tuple(r for r in rs if not (off <= r[0] and r[0] + r[1] <= off + n))
        if n > 0:
            d['r'] = rs + ((off, n, what) + tuple(extra),)

    def memcpy(self, st, dst, src, n, inst):
        do, doff = self.access(st, dst, inst, n if isinstance(n, int) and n > 0 else (1 if False else None), 'written') if n != 0 else NONE
        so, soff = self.access(st, src, inst, n if isinstance(n, int) and n > 0 else None, 'read') if n != 0 else NONE
        if do is None:
            if so is not None:
                pass
            return
        self.check_len(st, do, doff, n, inst, 'written')
        if so is not None:
            self.check_len(st, so, soff, n, inst, 'read')
        if so is None:
            if isinstance(doff, int):
                self.clear(st, do, doff, n, 'fill')
            return
        if so.kind == 'lazy' and so.tname in (None, 'void', '?') and soff == 0 and doff == 0 and do.tname \
                and isinstance(n, int) and n == self.prog.struct_size(do.tname):
            so = st.objs[so.oid] = Obj(so.oid, so.kind, so.fam, so.site, so.size, so.init, do.tname, so.prov, so.parent, so.tag)
        c = self.content(st, src)
        if not isinstance(doff, int) or not isinstance(soff, int):
            self.poke(st, do, None, U, 1)
            st.cont[do.oid] = ('s', self.site(st, inst))
            return
        if isinstance(n, int) and n <= 4096:
            cells = dict(st.mem.get(so.oid) or {})
            rs = cells.get('r', ())
            if so.init in ('lazy', 'const', 'glob'):
                self.clear(st, do, doff, n, 'copy', (so.oid, st.ext.get(so.oid, 0), soff))
            elif so.init == 'zero':
                self.clear(st, do, doff, n, 'zero')
            else:
                self.clear(st, do, doff, n, 'fill' if st.ext.get(so.oid, 0) else 'undef')
            d = self.wr(st, do.oid)
            for r in rs:
                a, b = max(r[0], soff), min(r[0] + r[1], soff + n)
                if a < b:
                    extra = r[3:]
                    if r[2] == 'copy':
                        extra = (r[3], r[4], r[5] + a - r[0])
                    d['r'] = d.get('r', ()) + ((a - soff + doff, b - a, r[2]) + tuple(extra),)
            for k, cv in cells.items():
                if isinstance(k, int) and soff <= k and k + cv[1] <= soff + n:
                    d[k - soff + doff] = cv
        else:
            self.clear(st, do, doff, n, 'fill')
        if doff == 0:
            if isinstance(c, tuple) and c[0] == 'lit' and isinstance(n, int) and isinstance(soff, int) and 0 <= soff and 0 < n < len(c[1]) - soff:
                c = ('lit', c[1][soff:soff + n])        # only the beginning of a constant
            elif soff != 0:
                c = ('off', c, soff)
            most = st.ext.get('strnlen:%r' % (n,)) if isinstance(n, tuple) else None
            st.cont[do.oid] = c if most is None else ('pre', c, most)
            st.ext['copied:' + do.oid] = n

    def copied(self, st, oid):
        """number of bytes a copy put at the start of an object, None where not known"""
        return st.ext.get('copied:' + oid)

    def check_len(self, st, o, off, n, inst, what):
        if o.kind == 'lazy' or o.size is None or off is None:
            return
        self.oblige('copy-length')
        d = ladd(ladd(off, n), o.size, -1)
        if d == U:
            return
        lo, hi = iv(st, d)
        if lo > 0:
            self.error(st, 'bounds', inst, 'more bytes are %s than the object holds (%s)' % (what, self.objdesc(o)))
            raise Stop()
        if hi > 0 and hi < BIG // 4:
            self.error(st, 'bounds', inst, 'up to %d bytes too many are %s (%s)' % (hi, what, self.objdesc(o)))
            raise Stop()

    def lenfield(self, st, base, off):
        """base.off is the length of a (bytes, length) structure"""
        o = st.objs.get(base)
        if o is None or not o.tname:
            return False
        f, a = self.field_at(o.tname, off)[0], self.field_at(o.tname, off - 8)[0] if off >= 8 else None
        return bool(f and a and f.split('.')[-1] == 'length' and a.split('.')[-1] == 'array')

    def reach(self, st, roots, copies=False):
        seen = set()
        work = [v[1] for v in roots if isinstance(v, tuple) and v and v[0] == 'p']
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            d = st.mem.get(o)
            if d:
                for k, c in d.items():
                    if k == 'r':
                        for rg in c:
                            if copies and rg[2] == 'copy' and rg[3] not in seen:
                                work.append(rg[3])
                        continue
                    v = c[0]
                    if isinstance(v, tuple):
                        ptrs_in(v, work)
        return seen

    def escape(self, st, v):
        if isinstance(v, tuple):
            ps = []
            ptrs_in(v, ps)
            for o in self.reach(st, [('p', x, 0) for x in ps]):
                st.esc.add(o)

    def havoc(self, st, p):
        """an unknown callee may write through p"""
        if isinstance(p, tuple) and p[0] == 'p':
            o = self.obj(st, p[1])
            if o is None or o.init == 'const':
                return
            for r in self.reach(st, [p]):
                oo = self.obj(st, r)
                if oo is None or oo.init == 'const':
                    continue
                st.ext[r] = st.ext.get(r, 0) + 1
                st.cont.pop(r, None)
                if r in st.mem:
                    self.clear(st, oo, 0, 1 << 40, 'havoc', ('%s~%d' % (r, st.ext[r]),))

    # ---------------------------------------------------------------- free
    def free(self, st, v, fam, inst, fname='free'):
        self.oblige('release')
        if v == 0 or v == U:
            return
        if not isinstance(v, tuple):
            return
        if v[0] != 'p':
            return
        o = self.obj(st, v[1])
        if o is None:
            return
        if o.kind == 'lazy' and st.nn.get(o.oid) is False:
            return
        if o.kind in ('alloca', 'global'):
            self.error(st, 'badfree', inst, '%s() of memory that is not heap-allocated' % fname)
            raise Stop()
        if v[2] != 0:
            if isinstance(v[2], int):
                self.error(st, 'badfree', inst, '%s() of a pointer into the middle of an object' % fname)
                raise Stop()
            return
        if st.stt.get(o.oid) == 'F':
            self.error(st, 'doublefree', inst, '%s() of memory already released (%s)' % (fname, self.objdesc(o)))
            raise Stop()
        if o.fam and fam and o.fam != fam and not (o.kind == 'lazy'):
            self.error(st, 'badfree', inst, '%s() of an object that belongs to %s' % (fname, o.fam))
            raise Stop()
        if self.cfg.on_write:
            self.cfg.on_write(self, st, o, 'releases')
        st.stt[o.oid] = 'F'
        st.ext[o.oid] = st.ext.get(o.oid, 0)
        self.models.on_free(self, st, o, inst)

    # ---------------------------------------------------------------- run
    def run(self, fn, args=None, st=None, cont=None):
        """explores root fn. -> Result (ends: list of (state, retval))"""
        self.res = Result()
        self.root = fn
        st = st or new_state()
        fr = self.push(st, fn, args if args is not None else self.root_args(st, fn), None, 'r')
        self.cur_root_args = dict(fr.env)
        self.work = [st]
        self.seen = {}
        while self.work:
            if self.res.steps > self.cfg.max_steps or self.res.states > self.cfg.max_states:
                self.res.truncated = True
                break
            s = self.work.pop()
            self.res.states += 1
            try:
                self.step_path(s)
            except Stop:
                pass
        return self.res

    def root_args(self, st, fn):
        fn.parse()
        out = []
        di = self.prog.param_types(fn)
        k = 0
        for i, (ty, nm, bv) in enumerate(fn.params):
            if bv and bv[0] == 'sret':
                out.append(self.new_obj(st, 'R:sret', 'lazy', tname=None))
                st.nn['R:sret'] = True
                continue
            tn = di[k] if k < len(di) else None
            k += 1
            v = None
            if self.cfg.param_hook:
                v = self.cfg.param_hook(self, st, fn, i, nm, tn)
            if v is None:
                if ty[0] == 'ptr':
                    t = tn.rstrip('&') if tn else None
                    if t and t.endswith('*') and not tn.endswith('&'):
                        t = t[:-1]
                    if t in (None, 'void', '?'):
                        t = self.local_type(fn, nm) or t
                    prov = self.models.param_prov(self, fn, i, nm, tn)
                    v = self.lazy(st, 'P:' + nm, tname=t, prov=prov)
                    if tn and tn.endswith('&'):
                        st.nn['P:' + nm] = True
                elif ty[0] == 'i':
                    er = self.enum_range(tn)
                    v = ('s', 'P:' + nm, ty[1], er) if er else \
                        ('s', 'P:' + nm, ty[1], (0, BIG)) if tn in UNSIGNED else ('s', 'P:' + nm, ty[1])
                else:
                    v = U
            out.append(v)
        return out

    def local_type(self, fn, nm, depth=0):
        """the struct a void pointer parameter is converted to, from the local variables holding it"""
        m = fn.mod
        for v in fn.dbgvals.get(nm.lstrip('%'), ()):
            t = m.di_typename(m.mdfield(v, 'type'))
            if t.endswith('*') and not t.endswith('**') and self.prog.fields(t[:-1]):
                return t[:-1]
        if depth < 3:               # or from the function it is handed to as it is
            for b in fn.order:
                for i in fn.blocks[b]:
                    if i.op not in ('call', 'invoke') or not isinstance(i.a[1], tuple) or i.a[1][0] != 'f':
                        continue
                    g = self.prog.find(i.a[1][1], fn.mod) if not i.a[1][1].startswith('llvm.') else None
                    if g is None or g is fn:
                        continue
                    g.parse()
                    for (ty, v, bv), (pt, pn, pb) in zip(i.a[2], g.params):
                        if v == nm and ty[0] == 'ptr':
                            t = self.local_type(g, pn, depth + 1)
                            if t:
                                return t
        return None

    def push(self, st, fn, args, call, ctx):
        fn.parse()
        fr = Frame()
        fr.fn = fn
        fr.env = {}
        for (ty, nm, bv), v in zip(fn.params, args):
            fr.env[nm] = v
        fr.args = args
        fr.blk = fn.entry
        fr.idx = 0
        fr.prev = None
        fr.call = call
        fr.ctx = ctx
        fr.loops = {}
        fr.allocas = ()
        fr.out = 0                 # forks of this frame where one arm leaves a loop
        st.frames.append(fr)
        self.res.funcs.add(self.fname(fn))
        return fr

    def val(self, fr, a):
        if isinstance(a, str):
            return fr.env.get(a, U)
        return a

    def unset(self, st, inst, what, *vs):
        """a value nothing was written to takes part in something that matters"""
        for v in vs:
            if type(v) is Undef:
                self.error(st, 'unset', inst, what)
                return
        self.oblige('set-before-use')

    def step_path(self, st):
        """runs one state until it ends or forks"""
        while True:
            fr = st.frames[-1]
            inst = fr.fn.blocks[fr.blk][fr.idx]
            self.cur_mod = inst.fn.mod
            self.res.steps += 1
            if self.res.steps > self.cfg.max_steps:
                self.res.truncated = True
                return
            op = inst.op
            if op == 'load':
                self.unset(st, inst, 'a pointer that was never set is followed', self.val(fr, inst.a[1]))
                fr.env[inst.res] = self.load(st, self.val(fr, inst.a[1]), inst.a[0], inst)
                fr.idx += 1
            elif op == 'store':
                self.unset(st, inst, 'a pointer that was never set is written through', self.val(fr, inst.a[2]))
                self.store(st, self.val(fr, inst.a[2]), self.val(fr, inst.a[1]), inst.a[0], inst)
                fr.idx += 1
            elif op == 'gep':
                fr.env[inst.res] = self.gep(st, fr, inst)
                fr.idx += 1
            elif op == 'icmp':
                self.unset(st, inst, 'a value that was never set is compared', self.val(fr, inst.a[2]), self.val(fr, inst.a[3]))
                fr.env[inst.res] = self.icmp(st, inst.a[0], inst.a[1], self.val(fr, inst.a[2]), self.val(fr, inst.a[3]))
                fr.idx += 1
            elif op == 'bin':
                fr.env[inst.res] = self.binop(st, inst, self.val(fr, inst.a[2]), self.val(fr, inst.a[3]))
                fr.idx += 1
            elif op == 'cast':
                fr.env[inst.res] = self.cast(st, inst, self.val(fr, inst.a[2]))
                fr.idx += 1
            elif op == 'alloca':
                self.alloca(st, fr, inst)
                fr.idx += 1
            elif op == 'jmp':
                if not self.goto(st, fr, inst.a[0]):
                    return
            elif op == 'br':
                c = self.val(fr, inst.a[0])
                self.unset(st, inst, 'a decision depends on a value that was never set', c)
                self.branch(st, c, [(1, inst.a[1]), (0, inst.a[2])], inst)
                return
            elif op == 'switch':
                self.switch(st, fr, inst)
                return
            elif op == 'select':
                c = self.val(fr, inst.a[0])
                t = truth(st, c) if c != U else None
                if t is None:
                    s2 = st.copy()
                    st.forks += 1
                    s2.forks += 1
                    for s, w, x in ((st, 1, inst.a[2]), (s2, 0, inst.a[3])):
                        for z in (assume(s, c, w) if c != U else [s]):
                            f = z.frames[-1]
                            f.env[inst.res] = self.val(f, x)
                            f.idx += 1
                            self.work.append(z)
                    return
                fr.env[inst.res] = self.val(fr, inst.a[2] if t else inst.a[3])
                fr.idx += 1
            elif op == 'phi':
                # all phis of the block at once (values taken on the edge)
                new = {}
                i = fr.idx
                blk = fr.fn.blocks[fr.blk]
                while blk[i].op == 'phi':
                    new[blk[i].res] = self.val(fr, blk[i].a[1].get(fr.prev, U))
                    i += 1
                fr.env.update(new)
                fr.idx = i
            elif op == 'call':
                if not self.call(st, fr, inst):
                    return
            elif op == 'ret':
                v = self.val(fr, inst.a[1]) if inst.a[1] is not None else None
                self.unset(st, inst, 'a value that was never set is returned', v)
                if len(st.frames) == 1:
                    self.finish(st, v, inst)
                    return
                self.do_return(st, v)
            elif op == 'extractvalue':
                v = self.val(fr, inst.a[1])
                r = U
                if isinstance(v, tuple) and v[0] == 'sv':
                    r = dict(v[1]).get(inst.a[2], U)
                fr.env[inst.res] = r
                fr.idx += 1
            elif op == 'insertvalue':
                v = self.val(fr, inst.a[1])
                d = dict(v[1]) if isinstance(v, tuple) and v[0] == 'sv' else {}
                d[inst.a[3]] = self.val(fr, inst.a[2])
                fr.env[inst.res] = ('sv', tuple(sorted(d.items())))
                fr.idx += 1
            elif op in ('unreachable', 'resume'):
                return
            else:
                if inst.res is not None:
                    fr.env[inst.res] = U
                fr.idx += 1

    def gep(self, st, fr, inst):
        sty, base, idx = inst.a
        b = self.val(fr, base)
        vals = [self.val(fr, x) for _, x in idx]
        if not (isinstance(b, tuple) and b[0] == 'p'):
            if b == 0 or b == U:
                return b if b == U else (0 if all(v == 0 for v in vals) else U)
            return U
        mod = inst.fn.mod
        off = 0
        ty = sty
        for k, ix in enumerate(vals):
            if k == 0:
                step = mod.sizeof(ty)
                off = ladd(off, lmul(ix, step))
                continue
            t = mod.resolve(ty)
            if t[0] == 'struct':
                off = ladd(off, mod.layout(ty)[2][ix])
                ty = t[2][ix]
            elif t[0] in ('arr', 'vec'):
                ty = t[2]
                off = ladd(off, lmul(ix, mod.sizeof(ty)))
            else:
                off = U
                break
        if off == U or b[2] is None:
            return ('p', b[1], None)
        n = ladd(b[2], off)
        if n == 0 and b[2] == 0:
            return b
        # &p->field with p NULL: later access reports it
        if st_isnull(st, b) == 1 and n != 0:
            return ('p', b[1], n) if not isinstance(n, int) else b
        return ('p', b[1], n)

    def icmp(self, st, pred, ty, a, b):
        if a == U or b == U:
            return U
        pa = isinstance(a, tuple) and a[0] in ('p', 'f')
        pb = isinstance(b, tuple) and b[0] in ('p', 'f')
        if ty[0] == 'ptr' or pa or pb:
            return self.pcmp(st, pred, a, b)
        if is_bool(a) and isinstance(b, int) or is_bool(b) and isinstance(a, int):
            if is_bool(b):
                a, b = b, a
            if pred in ('eq', 'ne'):
                if b == 0:
                    return neg(a) if pred == 'eq' else a
                if b in (1, -1):
                    return a if pred == 'eq' else neg(a)
                return int(pred == 'ne')
        if pred[0] == 'u':
            # unsigned
            if pred == 'ult' and b == 0:
                return 0
            if pred == 'uge' and b == 0:
                return 1
            if (pred, b) in (('ugt', 0), ('uge', 1), ('ult', 1), ('ule', 0)):
                return self.icmp(st, 'ne' if pred[1] == 'g' else 'eq', ty, a, 0)
            if (pred, a) in (('ult', 0), ('ule', 1), ('ugt', 1), ('uge', 0)):
                return self.icmp(st, 'ne' if pred[1] == 'l' else 'eq', ty, b, 0)
            w = ty[1]
            la, lb = iv(st, a), iv(st, b)
            if la[0] >= 0 and lb[0] >= 0:
                pred = 's' + pred[1:]
            elif isinstance(a, int) and isinstance(b, int):
                m = (1 << w) - 1
                a, b = a & m, b & m
                return int({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
            else:
                # one-sided facts: x <u c  (c >= 0)
                if isinstance(b, int) and b >= 0 and pred in ('ult', 'ule'):
                    return ('and', constraint('sge', a, 0), constraint('s' + pred[1:], a, b))
                if isinstance(b, int) and b >= 0 and pred in ('ugt', 'uge'):
                    return ('or', constraint('slt', a, 0), constraint('s' + pred[1:], a, b))
                return ('bop', pred, a, b)
        r = constraint(pred, a, b)
        if r is None:
            return U
        t = truth(st, r)
        return r if t is None else t

    def pcmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            r = None
            if a == 0 or b == 0:
                p = a if b == 0 else b
                n = st_isnull(st, p) if isinstance(p, tuple) or isinstance(p, int) else None
                r = n if n is not None else ('nul', p) if isinstance(p, tuple) else U
            elif a == b:
                r = 1
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1]:
                    if isinstance(a[2], int) and isinstance(b[2], int):
                        r = int(a[2] == b[2])
                    elif a[2] is not None and b[2] is not None:
                        r = constraint('eq', a[2], b[2])
                else:
                    oa, ob = self.obj(st, a[1]), self.obj(st, b[1])
                    if oa and ob and (oa.kind != 'lazy' or ob.kind != 'lazy') and \
                            (oa.kind in ('heap', 'alloca') or ob.kind in ('heap', 'alloca')) and \
                            not self.lazy_after(st, oa, ob):
                        r = 0
                    else:
                        x, y = sorted((a, b), key=repr)
                        r = ('peq', x, y)
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'f' and b[0] == 'f':
                r = int(a == b)
            elif isinstance(a, int) and isinstance(b, int):
                r = int(a == b)
            if r is None:
                x, y = sorted((a, b), key=repr)
                r = ('peq', x, y)
            if r == U:
                return U
            return neg(r) if pred == 'ne' else r
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and a[1] == b[1] \
                and a[2] is not None and b[2] is not None:
            p = 's' + pred[1:]
            r = constraint(p, a[2], b[2])
            if r is None:
                return U
            t = truth(st, r)
            return r if t is None else t
        return U

    def lazy_after(self, st, oa, ob):
        """a lazy value obtained from memory an external call may have filled can alias an object"""
        for x, y in ((oa, ob), (ob, oa)):
            if x.kind == 'lazy' and (y.oid in st.esc):
                return True
        return False

    def binop(self, st, inst, a, b):
        op, ty = inst.a[0], inst.a[1]
        if a == U or b == U or ty[0] != 'i':
            return UD if op not in ('and', 'or') and UD.__class__ in (type(a), type(b)) else U
        w = ty[1]
        if isinstance(a, int) and isinstance(b, int):
            return const_bin(op, w, a, b)
        if w == 1:
            if op == 'xor':
                if b in (1, -1):
                    return neg(a)
                if a in (1, -1):
                    return neg(b)
            if op == 'and':
                if a == 0 or b == 0:
                    return 0
                if a in (1, -1):
                    return b
                if b in (1, -1):
                    return a
                return ('and', a, b)
            if op == 'or':
                if a in (1, -1) or b in (1, -1):
                    return 1
                if a == 0:
                    return b
                if b == 0:
                    return a
                return ('or', a, b)
        pa = isinstance(a, tuple) and a[0] == 'p'
        pb = isinstance(b, tuple) and b[0] == 'p'
        if pa and pb:
            if op == 'sub' and a[1] == b[1] and a[2] is not None and b[2] is not None:
                return ladd(a[2], b[2], -1)
            return ('op', op, a, b)
        if pa and op in ('add', 'sub') and a[2] is not None:
            return ('p', a[1], ladd(a[2], b, 1 if op == 'add' else -1))
        if op == 'add':
            return ladd(a, b)
        if op == 'sub':
            return ladd(a, b, -1)
        if op == 'mul' and isinstance(b, int):
            return lmul(a, b)
        if op == 'mul' and isinstance(a, int):
            return lmul(b, a)
        if op == 'shl' and isinstance(b, int) and 0 <= b < 32:
            return lmul(a, 1 << b)
        if op == 'sdiv' and isinstance(b, int) and b > 1 and isinstance(a, tuple) and a[0] == 'lin' \
                and all(c % b == 0 for _, c in a[1]) and a[2] % b == 0:
            return mklin({t: c // b for t, c in a[1]}, a[2] // b)
        return ('op', op, a, b)

    def cast(self, st, inst, v):
        if type(v) is Undef:
            return v
        op, t1, _, t2 = inst.a
        if v == U:
            return U
        if op == 'trunc':
            w = t2[1]
            if isinstance(v, int):
                return wrap(v, w) if w > 1 else v & 1
            if is_bool(v):
                return v
            lo, hi = iv(st, v)
            if w == 1:
                if lo >= 0 and hi <= 1:
                    return v
                return ('tr', 1, v)
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                return v
            if v[0] == 'zx' and iv(st, v[2])[0] >= -(1 << (w - 1)) and iv(st, v[2])[1] < (1 << (w - 1)):
                return v[2]
            return ('tr', w, v)
        if op == 'zext':
            if isinstance(v, int):
                return v & ((1 << t1[1]) - 1) if t1[0] == 'i' else v
            if is_bool(v) or v[0] == 'p':
                return v
            lo, hi = iv(st, v)
            if lo >= 0:
                return v
            return ('zx', t1[1], v)
        if op == 'sext':
            if isinstance(v, int):
                return -v if t1[1] == 1 else v
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return v
        return U

    def alloca(self, st, fr, inst):
        oid = 'A:%s/%s:%s.%d' % (fr.ctx, fr.fn.name, inst.blk, inst.idx)
        size = inst.fn.mod.sizeof(inst.a[0])
        n = self.val(fr, inst.a[1])
        size = size * n if isinstance(n, int) else None
        ty = inst.a[0]
        tn = None
        if ty[0] == 'named':
            tn = ty[1].split('.', 1)[1] if '.' in ty[1] else ty[1]
        init = 'undef'
        st.objs[oid] = Obj(oid, 'alloca', size=size, init=init, tname=tn, site=self.loc(inst))
        st.mem.pop(oid, None)
        st.own.discard(oid)
        st.cont.pop(oid, None)
        st.ext.pop(oid, None)
        st.stt.pop(oid, None)
        fr.allocas = fr.allocas + (oid,)
        fr.env[inst.res] = ('p', oid, 0)

    def branch(self, st, c, arms, inst):
        t = truth(st, c) if c != U else None
        if t is not None:
            for w, lb in arms:
                if w == t:
                    if self.goto(st, st.frames[-1], lb):
                        self.work.append(st)
                    return
        states = []
        s2 = st.copy()
        for (w, lb), s in zip(arms, (st, s2)):
            for z in (assume(s, c, w) if c != U else [s]):
                states.append((z, w, lb))
        many = len(states) > 1
        f, l = self.loc(inst)
        base, na = (c[1], 0) if isinstance(c, tuple) and c[0] == 'not' else (c, 1)
        if isinstance(base, tuple) and base[0] == 'nul' and na == 0:
            states.reverse()      # the NULL arm is explored after the other one (see fingerprint)
        elif isinstance(base, tuple) and base[0] == 'nul':
            pass
        fr = st.frames[-1]
        if many and fr.loops:
            info = self.inf(fr.fn)
            leaves = any(fr.blk in info.body[h] and any(lb not in info.body[h] for _, lb in arms) for h in fr.loops if h in info.body)
        else:
            leaves = False
        for z, w, lb in states:
            if many:
                z.forks += 1
                if leaves:
                    z.frames[-1].out += 1
                z.trace = (z.trace, '%s:%d: %s' % (f, l, 'condition true' if w else 'condition false'))
            if self.goto(z, z.frames[-1], lb):
                self.work.append(z)

    def switch(self, st, fr, inst):
        ty, v, dl, cases = inst.a
        v = self.val(fr, v)
        self.unset(st, inst, 'a decision depends on a value that was never set', v)
        if isinstance(v, int):
            m = (1 << ty[1]) - 1
            for k, lb in cases:
                if (k & m) == (v & m):
                    if self.goto(st, fr, lb):
                        self.work.append(st)
                    return
            if self.goto(st, fr, dl):
                self.work.append(st)
            return
        f, l = self.loc(inst)
        rest = st
        outs = []
        for k, lb in cases:
            if rest is None:
                break
            c = self.icmp(rest, 'eq', ty, v, k) if v != U else U
            t = truth(rest, c) if c != U else None
            if t == 0:
                continue
            s2 = rest.copy()
            ok = assume(s2, c, 1) if c != U else [s2]
            for z in ok:
                z.trace = (z.trace, '%s:%d: case %d' % (f, l, k))
                outs.append((z, lb))
            if t == 1:
                rest = None
                break
            nr = assume(rest, c, 0) if c != U else [rest]
            rest = nr[0] if nr else None
        if rest is not None:
            rest.trace = (rest.trace, '%s:%d: default' % (f, l))
            outs.append((rest, dl))
        for z, lb in outs:
            if len(outs) > 1:
                z.forks += 1
            if self.goto(z, z.frames[-1], lb):
                self.work.append(z)

    def goto(self, st, fr, lb):
        """moves to block lb; False if the path is dropped (loop fixpoint or merged)"""
        info = self.inf(fr.fn)
        prev = fr.blk
        blk = fr.fn.blocks[lb]
        i = 0
        new = None
        if blk[0].op == 'phi':
            new = {}
            while blk[i].op == 'phi':
                new[blk[i].res] = self.val(fr, blk[i].a[1].get(prev, U))
                i += 1
        live = info.live[lb]
        env = {k: v for k, v in fr.env.items() if k in live}
        if new:
            env.update(new)
        fr.env = env
        fr.prev = prev
        fr.blk = lb
        fr.idx = i
        if lb in info.body:
            if prev in info.body[lb]:
                if not self.backedge(st, fr, lb, info):
                    return False
            else:
                fr.loops[lb] = (0, st.forks, None, frozenset(), 0, fr.out)
                self.snap(st, fr, lb, 0, frozenset(), 0)
        if lb in info.merge or lb in info.body:
            if self.cfg.forget_empty:
                for k, v in list(st.cont.items()):
                    if v == ('lit', b'') and isinstance(k, tuple):
                        st.cont[k] = ('s', 'M:%s.%s' % k[1:])
            fp, danger, drop = self.fingerprint(st)
            for k in drop:
                del st.facts[k]
            old = self.seen.get(fp)
            if old is None:
                self.seen[fp] = [danger]
            else:
                for x in old:
                    if x >= danger:
                        self.res.merged += 1
                        return False
                old.append(danger)
        return True

    def snap(self, st, fr, lb, n, hav, tot):
        fr.loops[lb] = (n, st.forks, (dict(fr.env), dict(st.mem), frozenset(st.objs)), hav, tot, fr.out)
        st.own = set()

    def backedge(self, st, fr, lb, info):
        n, forks, snap, hav, tot = fr.loops.get(lb, (0, st.forks, None, frozenset(), 0, fr.out))[:5]
        tot += 1
        if tot > 600:
            self.res.truncated = True
            return False
        if st.forks == forks and tot < 600:
            # every decision in this iteration was determined: keep executing precisely
            self.snap(st, fr, lb, n, hav, tot)
            return True
        # a loop that counts from a constant to a constant is followed to its end, unless its body
        # multiplies the paths
        out0 = fr.loops[lb][5] if lb in fr.loops else 0
        if snap and tot <= COUNTED and lb in info.counted and (st.forks - forks) - (fr.out - out0) <= 1 and any(
                fixed(fr.env.get(x)) and fixed(snap[0].get(x)) and fr.env[x] != snap[0][x]
                and (y is None or fixed(fr.env.get(y))) for x, y in info.counted[lb]):
            self.snap(st, fr, lb, n, hav, tot)
            return True
        n += 1
        if n < self.cfg.unroll:
            env0 = snap[0] if snap else {}
            hav = hav | {('c', k) for k, v in fr.env.items() if isinstance(v, int) and isinstance(env0.get(k), int) and env0[k] != v}
            self.snap(st, fr, lb, n, hav, tot)
            return True
        # widening against the previous header state
        env0, mem0, objs0 = snap
        diff = set()
        for k, v in fr.env.items():
            if env0.get(k, U) != v:
                diff.add(('r', k))
        for oid, d in st.mem.items():
            d0 = mem0.get(oid)
            if d is d0:
                continue
            if oid not in objs0:
                continue
            d0 = d0 or {}
            if d.get('r', ()) != d0.get('r', ()):
                diff.add(('m', oid, 'r'))
            for k in set(d) | set(d0):
                if k != 'r' and d.get(k) != d0.get(k):
                    diff.add(('m', oid, k))
        self.leak_at(st, fr, lb, objs0)
        if n > self.cfg.unroll and diff <= hav:
            return False
        if n > self.cfg.unroll + 6:
            return False
        # a constant that changes for the first time (a status, a flag) is kept as it is
        late = {x for x in diff if x[0] == 'r' and x not in hav and ('c', x[1]) not in hav and isinstance(fr.env.get(x[1]), int)
                and isinstance(env0.get(x[1]), int)}
        hav = hav | (diff - late) | {('c', x[1]) for x in late}
        ctx = '%s/%s:%s' % (fr.ctx, fr.fn.name, lb)
        esc = []
        below = None
        if lb in info.upto and ('r', info.upto[lb][0]) in hav:
            d = ladd(self.val(fr, info.upto[lb][1]), fr.env.get(info.upto[lb][0], U), -1)
            if d != U and iv(st, d)[0] >= 0:
                below = d
        for x in hav:
            if x[0] == 'c':
                continue
            if x[0] == 'r':
                k = x[1]
                if k in fr.env:
                    fr.env[k] = self.widen(st, env0.get(k, U), fr.env[k], 'W:%s:%s' % (ctx, k))
            else:
                oid, off = x[1], x[2]
                o = self.obj(st, oid)
                if o is None or o.init == 'const':
                    continue
                d = self.wr(st, oid)
                if off == 'r':
                    st.cont[oid] = ('s', 'W:%s:%s' % (ctx, oid))
                    continue
                c = d.get(off)
                old = (mem0.get(oid) or {}).get(off)
                nm = 'W:%s:%s.%s' % (ctx, oid, off)
                if c is None and old is None:
                    continue
                if c is None or old is None:
                    sz = (c or old)[1]
                    v = (c or old)[0]
                    base = self.read_init(st, o, off, ('ptr',) if sz == 8 and isinstance(v, tuple) and v[0] == 'p' else ('i', sz * 8), sz) \
                        if isinstance(off, int) else U
                    if c is None:
                        c = (base, sz)
                    else:
                        old = (base, sz)
                if isinstance(c[0], tuple) and c[0][0] == 'p':
                    esc.append(c[0])
                d[off] = (self.widen(st, old[0], c[0], nm), c[1])
                st.cont.pop(oid, None)
        for v in esc:
            self.escape(st, v)
        if below is not None:
            c = constraint('sle', fr.env[info.upto[lb][0]], self.val(fr, info.upto[lb][1]))
            if isinstance(c, tuple):
                assume(st, c, 1)
        # objects made inside the loop that stay reachable only through widened places
        for oid, o in list(st.objs.items()):
            if oid not in objs0 and o.kind == 'heap' and st.stt.get(oid) == 'L':
                st.esc.add(oid)
        self.snap(st, fr, lb, n, hav, tot)
        return True

    def widen(self, st, a, b, nm):
        pa = isinstance(a, tuple) and a[0] == 'p'
        pb = isinstance(b, tuple) and b[0] == 'p'
        if pa and pb and a[1] == b[1]:
            la = iv(st, a[2])[0] if a[2] is not None else -BIG
            lb = iv(st, b[2])[0] if b[2] is not None else -BIG
            return ('p', a[1], ('s', nm, 64, (la, BIG)) if lb >= la > -BIG else None)
        if pa or pb or (a == 0 and pb) or (b == 0 and pa):
            oid = nm
            for x in (a, b):
                if isinstance(x, tuple) and x[0] == 'p':
                    self.escape(st, x)
            if oid in st.objs:
                st.mem.pop(oid, None)
                st.stt.pop(oid, None)
            st.nn.pop(oid, None)
            tn = None
            if pb:
                o = self.obj(st, b[1])
                tn = o.tname if o else None
            st.objs[oid] = Obj(oid, 'lazy', tname=tn)
            if st_isnull(st, a) == 0 and st_isnull(st, b) == 0:
                st.nn[oid] = True
            return ('p', oid, 0)
        if a == U or b == U:
            return U
        if isinstance(a, tuple) and a[0] in ('f', 'sv', 'agg') or isinstance(b, tuple) and b[0] in ('f', 'sv', 'agg'):
            return U
        if is_bool(a) or is_bool(b) or (a in (0, 1) and b in (0, 1) and isinstance(a, int) and isinstance(b, int)):
            t = ('s', nm, 64, (0, 1))
            st.facts.pop(t, None)
            return t
        ia, ib = iv(st, a), iv(st, b)
        lo = ia[0] if ib[0] >= ia[0] else -BIG
        hi = ia[1] if ib[1] <= ia[1] else BIG
        t = ('s', nm, 64, (lo, hi))
        for k in list(st.facts):
            if mentions(k, nm):
                del st.facts[k]
        return t

    # ---------------------------------------------------------------- fingerprints
    def fingerprint(self, st):
        terms = set()
        fr = []
        for f in st.frames:
            e = tuple(sorted(f.env.items(), key=lambda x: x[0]))
            lp = tuple(sorted((k, v[0], v[3]) for k, v in f.loops.items() if v[4] or True))
            fr.append((f.fn.name, f.ctx, f.blk, f.idx, e, tuple((k, a, len(h)) for k, a, h in lp)))
        roots = []
        for f in st.frames:
            for v in f.env.values():
                if isinstance(v, tuple):
                    roots.append(v)
            for a in f.args:
                if isinstance(a, tuple):
                    roots.append(a)
        ps = []
        for v in roots:
            ptrs_in(v, ps)
        for oid, o in st.objs.items():
            if o.kind in ('global',) or (o.kind == 'lazy' and oid in st.mem):
                ps.append(oid)
        live = self.reach(st, [('p', x, 0) for x in ps], True)
        # members that a later lazy read would yield again
        lz, gone = set(), {}
        ch = True
        cand = [o for o in st.objs.values() if o.parent is not None and o.oid not in live]
        while ch and cand:
            ch = False
            rest = []
            for o in cand:
                po, off = o.parent
                if po in live or po in lz:
                    d = st.mem.get(po)
                    v = st.ext.get(po, 0)
                    if st.stt.get(po) == 'F' or (d is not None and off in d) or \
                            o.oid != ('%s.%s' % (po, off) if v == 0 else '%s~%d.%s' % (po, v, off)):
                        continue
                    lz.add(o.oid)
                    ch = True
                    if st.stt.get(o.oid) == 'F':
                        gone.setdefault(po, {})[off] = (0, 8)
                else:
                    rest.append(o)
            cand = rest
        more = self.reach(st, [('p', x, 0) for x in lz], True) if lz else ()
        danger = frozenset((po, off) for po, d in gone.items() for off in d)
        mem = []
        for oid in live.union(more):
            d = st.mem.get(oid)
            g = gone.get(oid)
            if g:
                d = dict(d or {})
                d.update(g)
            if d:
                mem.append((oid, tuple(sorted(((repr(k), v) for k, v in d.items()), key=lambda x: x[0]))))
        heaplive = tuple(sorted(o for o, s in st.stt.items() if s == 'L' and o not in st.esc))
        freed = tuple(sorted(o for o, s in st.stt.items() if s == 'F' and o in live and (st.objs[o].kind != 'alloca')))
        live = live.union(more)
        nn = tuple(sorted((k, v) for k, v in st.nn.items() if k in live and st.stt.get(k) != 'F'))
        names = set()
        for v in roots:
            collect(v, names)
        for oid in live:
            d = st.mem.get(oid)
            if d:
                for k, c in d.items():
                    if k != 'r' and isinstance(c[0], tuple):
                        collect(c[0], names)
        facts, drop, per = [], [], {}
        for k, f in list(st.facts.items()):
            if self.cfg.sticky:
                facts.append((repr(k), f))
            else:
                # what is not compared here is forgotten, so that the state that goes on covers
                # the ones merged into it
                if k[0] == 's' and CMPNAME(k[1]) and not (f[0] == f[1] == 0):
                    drop.append(k)    # 'the strings differ': not worth keeping states apart for
                    continue
                if len(f) > 2 and f[2] and f[1] - f[0] > (1 << 30):
                    f = f[:2]         # 'not equal to n' likewise
                    st.facts[k] = f
                ks = set()
                collect(k, ks)
                if ks & names:
                    facts.append((repr(k), f))
                    continue
                so = next((y for y in (self.lazy_scalar(x, live) for x in ks) if y), None)
                if so:
                    per.setdefault(so, []).append((k, f))
                else:
                    drop.append(k)
        for so, l in per.items():
            if len(l) > 2:
                drop += [k for k, f in l]
            else:
                facts += [(repr(k), f) for k, f in l]
        facts.sort()
        evs = id(st.ev) if False else tuple((e[0], repr(e[1])) for e in unlink(st.ev))
        mem.sort(key=lambda x: x[0])
        return (repr(fr), repr(mem), heaplive, freed, nn, repr(facts), evs, st.fails,
                     repr(sorted((k, v) for k, v in st.ext.items() if k in live or k[:2] == 'sk' and k[4:] in live)),
                     repr(sorted((repr(k), v) for k, v in st.cont.items() if self.cont_live(k, v, live)))), danger, drop

    def lazy_scalar(self, nm, live):
        """the never-written scalar cell of a live object: a later read yields this name again"""
        m = SCALAR(nm)
        return m.group(1) if m and m.group(1) in live and not (m.group(1)[:2] == 'P:' and '.' not in m.group(1)) else None

    def cont_live(self, k, v, live):
        if self.cfg.sticky:
            return k in live
        # literal text decides comparisons
        return v[0] == 'lit' and (k in live or (isinstance(k, tuple) and k[0] == 'S' and k[1] in live))

    # ---------------------------------------------------------------- calls
    def callee(self, st, fr, inst):
        c = inst.a[1]
        if isinstance(c, str):
            c = self.val(fr, c)
        if isinstance(c, tuple) and c[0] == 'f':
            return c[1], c
        return None, c

    def call(self, st, fr, inst):
        """True if the state continues in place"""
        rty, _, args, dst = inst.a
        name, cv = self.callee(st, fr, inst)
        av = [(ty, self.val(fr, v), bv) for ty, v, bv in args]
        if name is not None and name.startswith('llvm.'):
            r = self.models.intrinsic(self, st, fr, inst, name, av)
            return self.after(st, inst, r)
        fn = self.prog.find(name, inst.fn.mod) if name is not None else None
        src = self.fname(fn) if fn is not None else name
        self.res.calls.add(src or '?')
        self.cur = inst
        self.unset(st, inst, 'a value that was never set is passed to %s' % (src or 'a function'), *(v for _, v, _ in av))
        m = None
        if name is not None:
            m = self.cfg.models.get(src) or self.cfg.models.get(name)
            if m is None:
                m = self.models.lookup(self, src, name, fn)
        if m is None and name is None:
            m = self.cfg.indirect or self.models.indirect
            src = 'indirect'
        if m is None and fn is not None and self.models.inline(self, fn, src):
            if len(st.frames) <= self.cfg.max_depth and sum(1 for f in st.frames if f.fn is fn) < 2:
                if src in self.cfg.record:
                    vs = tuple(v for _, v, _ in av)
                    st.ev = (st.ev, (src, vs, self.loc(inst), None,
                                     self.cfg.snap(self, st, src, vs) if self.cfg.snap else None))
                vals = []
                for (ty, v, bv), prm in zip(av, fn.parse().params):
                    if bv and bv[0] == 'byval' and isinstance(v, tuple) and v[0] == 'p':
                        # caller's copy is passed; treat as the object itself
                        pass
                    vals.append(v)
                if fn.vararg:
                    st.user = dict(st.user or {})
                    st.user['va:%d' % len(st.frames)] = [v for _, v, _ in av]
                key = (fr.ctx, inst.blk, inst.idx)
                self.push(st, fn, vals, inst, '%s>%s.%d' % (fr.ctx, inst.blk, inst.idx) if len(fr.ctx) < 200 else 'h%x' % (hash((fr.ctx, fr.fn.name, inst.blk, inst.idx)) & 0xffffffffffff))
                return True
        if m is None:
            self.res.unknown.add(src or '?')
            m = self.models.unknown
        blank = [(i, v[1]) for i, (_, v, _) in enumerate(av) if isinstance(v, tuple) and v[0] == 'p' and self.blank(st, v[1])] \
            if fn is None and src and not src.startswith('_Z') and src not in KEEPS else ()
        if src in READS and av and isinstance(av[0][1], tuple) and av[0][1][0] == 'p' and self.blank(st, av[0][1][1]):
            self.error(st, 'unset', inst, 'memory nothing was written to is passed to %s, which reads it' % src)
        out = m(self, st, inst, av, src)
        for i, oid in blank:
            if out and all(self.blank(s, oid) for s, _ in out):
                self.error(st, 'unset', inst, 'memory nothing was written to is passed as argument %d of %s, which reads it' % (i + 1, src))
        return self.after(st, inst, out)

    def blank(self, st, oid):
        """an object of ours that nothing was ever written to"""
        o = st.objs.get(oid)
        return o is not None and o.init == 'undef' and o.kind in ('alloca', 'heap') and not st.ext.get(oid, 0) \
            and not st.mem.get(oid) and oid not in st.cont and st.stt.get(oid) != 'F'

    def after(self, st, inst, out):
        """out: None (path ends) or list of (state, value)"""
        if out is None:
            return False
        dst = inst.a[3]
        many = len(out) > 1
        for s, v in out:
            f = s.frames[-1]
            if inst.res is not None:
                f.env[inst.res] = v if v is not None else U
            if many:
                s.forks += 1
            if dst is not None:
                if self.goto(s, f, dst[0]):
                    if len(out) == 1:
                        if s is st:
                            return True
                    self.work.append(s)
            else:
                f.idx += 1
                if len(out) == 1 and s is st:
                    return True
                self.work.append(s)
        return False

    def do_return(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            # stack objects die with the frame
            st.stt[a] = 'F'
        inst = fr.call
        caller = st.frames[-1].copy()
        st.frames[-1] = caller
        if inst.res is not None:
            caller.env[inst.res] = v if v is not None else U
        if self.cfg.record and self.fname(fr.fn) in self.cfg.record:
            st.ev = (st.ev, (self.fname(fr.fn) + '#ret', (), self.loc(inst), v, None))
        dst = inst.a[3]
        if dst is not None:
            if not self.goto(st, caller, dst[0]):
                raise Stop()
        else:
            caller.idx += 1

    # ---------------------------------------------------------------- ends
    def finish(self, st, v, inst):
        self.res.ends.append((st, v, inst))
        self.models.at_end(self, st, v, inst)
        if self.cfg.report is not None and 'unset' not in self.cfg.report:
            return
        for oid, o in st.objs.items():
            if o.kind == 'heap' and o.init == 'undef' and isinstance(o.size, int) and o.size <= 512 and st.stt.get(oid) == 'L' \
                    and not st.ext.get(oid, 0) and oid not in st.cont:
                d = st.mem.get(oid) or {}
                cells = [(k, c[1]) for k, c in d.items() if isinstance(k, int)]
                if not cells or any(n < 4 for _, n in cells) or not all(isinstance(k, (int, str)) for k in d):
                    continue
                cells += [(r[0], r[1]) for r in d.get('r', ()) if r[2] != 'undef']
                self.oblige('set-before-use')
                for w in range(0, o.size - 7, 8):
                    if not any(k < w + 8 and w < k + n for k, n in cells):
                        self.error(st, 'unset', inst, 'an object is handed out with its bytes %d to %d never set' % (w, w + 7))
                        break

    def leak_at(self, st, fr, lb, objs0):
        """objects created during the iteration and no longer reachable"""
        cand = [o for o in st.objs if o not in objs0 and st.objs[o].kind == 'heap'
                and st.stt.get(o) == 'L' and o not in st.esc]
        if not cand:
            return
        live = self.live_objs(st)
        for c in cand:
            if c not in live:
                o = st.objs[c]
                self.error(st, 'leak', fr.fn.blocks[lb][0],
                           '%s allocated in the loop at %s:%d is lost at the next iteration' % (o.fam, o.site[0], o.site[1]))
                st.esc.add(c)

    def live_objs(self, st, extra=(), end=False):
        """objects reachable from what is alive; at the end of the root its own locals are not"""
        ps = []
        for f in st.frames:
            if not end:
                for v in f.env.values():
                    if isinstance(v, tuple):
                        ptrs_in(v, ps)
                for a in f.allocas:
                    ps.append(a)
            for v in f.args:
                if isinstance(v, tuple):
                    ptrs_in(v, ps)
        for v in extra:
            if isinstance(v, tuple):
                ptrs_in(v, ps)
        for oid, o in st.objs.items():
            if o.kind in ('global', 'lazy'):
                ps.append(oid)
        ps += list(st.esc)
        return self.reach(st, [('p', x, 0) for x in ps])


UNSIGNED = {'size_t', 'unsigned int', 'unsigned long', 'uint64_t', 'uint32_t', 'uint16_t', 'uint8_t', 'unsigned char', 'bool', '_Bool'}


def short(oid):
    return oid.replace('P:', '').replace('X:', '')[-60:]


def fam_of(tname):
    return {'BinaryArrayList': 'array_list', 'keyvalue_list': 'keyvalue_list'}.get(tname or '')


def ptrs_in(v, out):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'p':
        out.append(v[1])
    elif v[0] in ('u', 's', 'f'):
        return
    else:
        for x in v[1:]:
            if isinstance(x, tuple):
                ptrs_in(x, out)
                for y in x:
                    if isinstance(y, tuple):
                        ptrs_in(y, out)


def collect(t, out):
    if isinstance(t, tuple):
        if t and t[0] in ('s', 'p') and len(t) > 1 and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            if isinstance(x, tuple):
                collect(x, out)


def mentions(t, nm):
    if isinstance(t, tuple):
        if len(t) > 1 and t[1] == nm:
            return True
        return any(mentions(x, nm) for x in t if isinstance(x, tuple))
    return False


def const_bin(op, w, a, b):
    m = (1 << w) - 1
    try:
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << (b & 63)
        elif op == 'lshr':
            r = (a & m) >> (b & m)
        elif op == 'ashr':
            r = a >> (b & m)
        elif op == 'udiv':
            r = (a & m) // (b & m)
        elif op == 'urem':
            r = (a & m) % (b & m)
        elif op == 'sdiv':
            r = int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
        elif op == 'srem':
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        else:
            return U
    except (ZeroDivisionError, ValueError, OverflowError):
        return U
    if w == 1:
        return r & 1
    return wrap(r, w)


def const_at(md, ty, v, off, want):
    """reads constant initialiser v of type ty at byte offset off"""
    if v is None:
        return None
    t = md.resolve(ty)
    if isinstance(v, tuple) and v and v[0] == 'zero':
        return 0
    if t[0] in ('i', 'ptr', 'f'):
        if off == 0:
            return v if t[0] != 'f' else None
        return None
    if t[0] == 'arr':
        if isinstance(v, tuple) and v[0] == 'cstr':
            if want[0] == 'i' and want[1] == 8 and 0 <= off < len(v[1]):
                return wrap(v[1][off], 8)
            if want[0] == 'i' and 0 <= off and off + want[1] // 8 <= len(v[1]):
                return wrap(int.from_bytes(v[1][off:off + want[1] // 8], 'little'), want[1])
            return None
        es = md.sizeof(t[2])
        if not es or off < 0:
            return None
        i = off // es
        if v[0] == 'agg' and i < len(v[1]):
            return const_at(md, v[1][i][0], v[1][i][1], off - i * es, want)
        return None
    if t[0] == 'struct' and v[0] == 'agg':
        # the initialiser may have its own (anonymous) struct type with the same layout
        pos = 0
        offs = md.layout(ty)[2]
        for i, (et, ev) in enumerate(v[1]):
            o = offs[i] if i < len(offs) else None
            if o is None:
                return None
            if o <= off < o + max(1, md.sizeof(et)):
                return const_at(md, et, ev, off - o, want)
        return None
    return None
