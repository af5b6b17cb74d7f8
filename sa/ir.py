"""Reader for textual LLVM IR (clang-18, -O0 -g, mem2reg): types and layout, globals,
functions (parsed on demand), debug locations, struct field names, enumerators."""
import re

PTR = ('ptr',)


class Undef(tuple):
    """the unknown value of memory or a variable nothing was ever written to; equal to ('u',) everywhere else"""
    __slots__ = ()

    def __repr__(self):
        return "('u!',)"


UD = Undef(('u',))
# what -ftrivial-auto-var-init=pattern stores into variables without an initial value
AUTO = {'-86': 8, '-21846': 16, '-1431655766': 32, '-6148914691236517206': 64}


class IRError(Exception):
    pass


class Inst:
    __slots__ = ('op', 'res', 'a', 'dbg', 'fn', 'blk', 'idx')

    def __init__(self, op, res, a, dbg):
        self.op = op
        self.res = res
        self.a = a
        self.dbg = dbg


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self._parsed = False
        self.dbgvals = {}
        self.internal = ' internal ' in header.split('@')[0] + ' '
        self.linkonce = 'linkonce_odr' in header.split('@')[0]
        m = re.search(r'!dbg !(\d+)', header)
        self.dbg = int(m.group(1)) if m else None

    def parse(self):
        if not self._parsed:
            parse_function(self)
            self._parsed = True
        return self

    def __repr__(self):
        return '<fn %s>' % self.name


_TOK = re.compile(r'\s*(c?"(?:[^"\\]|\\.)*"|[%@!][-\w.$]+|[%@!]"[^"]*"|-?\d[\w.+\-]*|[A-Za-z_][\w.]*|\.\.\.|[()\[\]{}<>,=*:|!#])')


class P:
    """Cursor over one line of IR text."""
    __slots__ = ('s', 'i', 'mod', 'fn')

    def __init__(self, s, mod, fn=None, i=0):
        self.s = s
        self.i = i
        self.mod = mod
        self.fn = fn

    def peek(self):
        m = _TOK.match(self.s, self.i)
        return m.group(1) if m else None

    def next(self):
        m = _TOK.match(self.s, self.i)
        if not m:
            raise IRError('tokenize: ' + self.s[self.i:self.i + 80])
        self.i = m.end()
        return m.group(1)

    def accept(self, t):
        m = _TOK.match(self.s, self.i)
        if m and m.group(1) == t:
            self.i = m.end()
            return True
        return False

    def expect(self, t):
        x = self.next()
        if x != t:
            raise IRError('expected %r got %r in %s' % (t, x, self.s[:200]))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
            if self.accept('addrspace'):
                self.expect('('); self.next(); self.expect(')')
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == 'void':
            r = ('void',)
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            r = ('f', t)
        elif t == 'metadata' or t == 'token' or t == 'label':
            r = (t,)
        elif t == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.accept('{'):
                fs = self._fields('}')
                self.expect('>')
                r = ('struct', None, tuple(fs), True)
            else:
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            fs = self._fields('}')
            r = ('struct', None, tuple(fs), False)
        elif t[0] == '%':
            r = ('named', t[1:].strip('"'))
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise IRError('type? %r in %s' % (t, self.s[:160]))
        # function type suffix
        while self.peek() == '(':
            self.next()
            depth = 1
            while depth:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            r = ('fnty', r)
        return r

    def _fields(self, end):
        fs = []
        if self.accept(end):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(end):
                return fs
            self.expect(',')

    # ---- values: returns str (local) or abstract constant
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            n = t[1:]
            return n.strip('"') if n[0] == '"' else n
        if c == '@':
            n = t[1:]
            if n[0] == '"':
                n = n[1:-1]
            return self.mod.global_value(n)
        if t == 'null':
            return 0
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t in ('undef', 'poison'):
            return UD if t == 'undef' else ('u',)
        if t == 'zeroinitializer':
            if ty[0] in ('i', 'ptr'):
                return 0
            return ('zero', ty)
        if c == '-' or c.isdigit():
            if ty[0] == 'f':
                return ('fl', t)
            if t in AUTO and self.mod.auto and ty[0] == 'i' and AUTO[t] == ty[1]:
                return UD
            return wrap(int(t), ty[1] if ty[0] == 'i' else 64)
        if t.startswith('c"'):
            return ('cstr', unescape(t[2:-1]))
        if t == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            self.accept('inbounds')
            sty = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                ity = self.type()
                idx.append(self.value(ity))
            self.expect(')')
            off = self.mod.gep_offset(sty, idx)
            if isinstance(base, tuple) and base[0] == 'p' and off is not None:
                return ('p', base[1], base[2] + off)
            return ('u',)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t1 = self.type()
            v = self.value(t1)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        if t in ('add', 'sub', 'mul', 'icmp', 'select', 'xor', 'and', 'or', 'shl'):
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            return ('u',)
        if t == '{' or t == '[' or t == '<':
            if t == '<' and self.accept('{'):
                end = '}'
                tail = '>'
            else:
                end = {'{': '}', '[': ']', '<': '>'}[t]
                tail = None
            vals = []
            if not self.accept(end):
                while True:
                    et = self.type()
                    vals.append((et, self.value(et)))
                    if self.accept(end):
                        break
                    self.expect(',')
            if tail:
                self.expect(tail)
            return ('agg', vals)
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return self.value(ty)
        if t == 'asm':
            self.skip_asm()
            return ('asm',)
        raise IRError('value? %r in %s' % (t, self.s[:200]))

    def skip_asm(self):
        while self.peek() and not self.peek().startswith('"'):
            self.next()
        self.next()
        self.expect(',')
        self.next()


def wrap(n, w):
    if w >= 128:
        return n
    m = 1 << w
    n &= m - 1
    if w > 1 and n >= m >> 1:
        n -= m
    return n


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly
immarg returned nofree nosync dead_on_unwind writable inalloca nest swiftself swifterror allocptr
noundef nonnull willreturn inbounds tail notail musttail fastcc ccc cc nsw nuw exact nnan ninf nsz
arcp contract afn reassoc fast volatile atomic unordered monotonic acquire release acq_rel seq_cst
disjoint nneg dso_local unnamed_addr local_unnamed_addr allocalign'''.split())
ATTRP = ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref',
         'elementtype', 'preallocated', 'memory', 'range', 'nofpclass', 'captures')


def skip_attrs(p):
    byval = None
    while True:
        t = p.peek()
        if t is None:
            return byval
        if t in ATTRS:
            p.next()
        elif t in ATTRP:
            p.next()
            if t == 'align' and p.peek() != '(':
                p.next()
            elif p.accept('('):
                if t in ('byval', 'sret', 'byref', 'elementtype'):
                    ty = p.type()
                    if t in ('byval', 'sret'):
                        byval = (t, ty)
                    p.expect(')')
                else:
                    d = 1
                    while d:
                        x = p.next()
                        d += (x == '(') - (x == ')')
        elif t == '#' or t[0] == '#':
            p.next()
            if p.peek() and p.peek().isdigit():
                p.next()
        elif t.startswith('"') and '=' not in t:
            # "attr" or "attr"="x"
            p.next()
            if p.accept('='):
                p.next()
        else:
            return byval


class Module:
    def __init__(self, text, name, auto=False):
        self.name = name
        self.auto = auto
        self.types = {}
        self.fns = {}
        self.decls = set()
        self.globals_raw = {}
        self._ginit = {}
        self.md = {}
        self._locs = {}
        self.aliases = {}
        self._layout = {}
        self._read(text)

    def _read(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == 'd' and ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]+"|[-\w.$]+)\(', ln)
                nm = m.group(1).strip('"')
                self.fns[nm] = Function(self, nm, ln, lines[i + 1:j])
                i = j + 1
                continue
            if c == 'd' and ln.startswith('declare '):
                m = re.search(r'@("[^"]+"|[-\w.$]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif c == '%':
                k = ln.index(' = type ')
                self.types[ln[1:k].strip('"')] = ln[k + 8:]
            elif c == '@':
                m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    if re.match(r'.*\balias\b', m.group(2).split('{')[0]) and ' alias ' in ' ' + m.group(2):
                        a = re.search(r'alias .*, ptr @("[^"]+"|[-\w.$]+)', m.group(2))
                        if a:
                            self.aliases[nm] = a.group(1).strip('"')
                    else:
                        self.globals_raw[nm] = m.group(2)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1

    # ---- types
    def resolve(self, ty):
        while ty[0] == 'named':
            t = self.types.get(ty[1])
            if t is None:
                return ('opaque',)
            if isinstance(t, str):
                t = P(t, self).type()
                if t[0] == 'struct':
                    t = ('struct', ty[1], t[2], t[3])
                self.types[ty[1]] = t
            ty = t
        return ty

    def layout(self, ty):
        """(size, align, field offsets)"""
        k = ty
        r = self._layout.get(k)
        if r:
            return r
        t = self.resolve(ty)
        if t[0] == 'i':
            b = max(1, (t[1] + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            r = (a if t[1] < 128 else 16, a, None)
        elif t[0] in ('ptr', 'fnty'):
            r = (8, 8, None)
        elif t[0] == 'f':
            s = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
            r = (s, s, None)
        elif t[0] in ('arr', 'vec'):
            s, a, _ = self.layout(t[2])
            r = (s * t[1], a, None)
        elif t[0] == 'struct':
            off, al, offs = 0, 1, []
            for f in t[2]:
                s, a, _ = self.layout(f)
                if t[3]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al, offs)
        else:
            r = (0, 1, None)
        self._layout[k] = r
        return r

    def sizeof(self, ty):
        return self.layout(ty)[0]

    def gep_offset(self, sty, idx):
        """idx: list of ints or other; None if not constant"""
        off = 0
        ty = sty
        for k, ix in enumerate(idx):
            if not isinstance(ix, int):
                return None
            if k == 0:
                off += ix * self.sizeof(ty)
                continue
            t = self.resolve(ty)
            if t[0] == 'struct':
                off += self.layout(ty)[2][ix]
                ty = t[2][ix]
            elif t[0] in ('arr', 'vec'):
                ty = t[2]
                off += ix * self.sizeof(ty)
            else:
                return None
        return off

    # ---- globals
    def global_value(self, n):
        n = self.aliases.get(n, n)
        if n in self.fns or n in self.decls:
            return ('f', n)
        if n in self.globals_raw:
            return ('p', '@' + self.gkey(n), 0)
        return ('f', n)

    def gkey(self, n):
        raw = self.globals_raw[n]
        if re.match(r'.*\b(private|internal)\b', raw.split('=')[0][:120]) or raw.startswith(('private', 'internal')):
            return self.name + ':' + n
        return n

    def ginit(self, n):
        """(type, initializer value or None, isconst)"""
        if n in self._ginit:
            return self._ginit[n]
        raw = self.globals_raw[n]
        m = re.search(r'\b(global|constant)\b ', raw)
        isconst = m.group(1) == 'constant'
        ext = 'external' in raw[:m.start()].split()
        p = P(raw, self, None, m.end())
        ty = p.type()
        v = None
        if not ext:
            try:
                v = p.value(ty)
            except IRError:
                v = None
        self._ginit[n] = (ty, v, isconst)
        return self._ginit[n]

    # ---- debug info
    def mdfield(self, i, key):
        s = self.md.get(i, '')
        m = re.search(r'\b%s: (!\d+|"(?:[^"\\]|\\.)*"|-?\d+|\w+)' % key, s)
        if not m:
            return None
        v = m.group(1)
        if v[0] == '!':
            return int(v[1:])
        if v[0] == '"':
            return v[1:-1]
        return v

    def loc(self, i):
        """dbg id -> (file, line)"""
        if i is None:
            return ('?', 0)
        r = self._locs.get(i)
        if r:
            return r
        line = int(self.mdfield(i, 'line') or 0)
        sc = self.mdfield(i, 'scope')
        fil = '?'
        while sc is not None:
            f = self.mdfield(sc, 'file')
            if f is not None:
                d = self.mdfield(f, 'directory') or ''
                nm = self.mdfield(f, 'filename') or '?'
                fil = nm if nm.startswith('/') else d + '/' + nm
                break
            sc = self.mdfield(sc, 'scope')
        self._locs[i] = (fil, line)
        return self._locs[i]

    def fn_file(self, fn):
        if fn.dbg is None:
            return '?'
        f = self.mdfield(fn.dbg, 'file')
        if f is None:
            return '?'
        d = self.mdfield(f, 'directory') or ''
        nm = self.mdfield(f, 'filename') or '?'
        return nm if nm.startswith('/') else d + '/' + nm

    def fn_srcname(self, fn):
        if fn.dbg is None:
            return fn.name
        return self.mdfield(fn.dbg, 'name') or fn.name

    def di_struct(self, name):
        """field name -> byte offset (from debug info), for struct/class `name`"""
        for i, s in self.md.items():
            if 'DICompositeType' in s and ('name: "%s"' % name) in s and 'elements:' in s \
                    and ('DW_TAG_structure_type' in s or 'DW_TAG_class_type' in s):
                el = self.mdfield(i, 'elements')
                out = {}
                for m in re.finditer(r'!(\d+)', self.md.get(el, '')):
                    k = int(m.group(1))
                    if 'DW_TAG_member' in self.md.get(k, ''):
                        o = self.mdfield(k, 'offset')
                        out[self.mdfield(k, 'name')] = int(o or 0) // 8
                    elif 'DW_TAG_inheritance' in self.md.get(k, ''):
                        pass
                if out:
                    return out
        return None

    def di_struct_size(self, name):
        for i, s in self.md.items():
            if 'DICompositeType' in s and ('name: "%s"' % name) in s and 'elements:' in s:
                z = self.mdfield(i, 'size')
                if z:
                    return int(z) // 8
        return None

    def di_struct_types(self, name):
        """field name -> base type description string (name of the DI type)"""
        for i, s in self.md.items():
            if 'DICompositeType' in s and ('name: "%s"' % name) in s and 'elements:' in s:
                el = self.mdfield(i, 'elements')
                out = {}
                for m in re.finditer(r'!(\d+)', self.md.get(el, '')):
                    k = int(m.group(1))
                    if 'DW_TAG_member' in self.md.get(k, ''):
                        out[self.mdfield(k, 'name')] = self.di_typename(self.mdfield(k, 'baseType'))
                if out:
                    return out
        return None

    def di_typename(self, i):
        if i is None:
            return 'void'
        s = self.md.get(i, '')
        if 'DW_TAG_pointer_type' in s:
            return self.di_typename(self.mdfield(i, 'baseType')) + '*'
        if 'DW_TAG_reference_type' in s:
            return self.di_typename(self.mdfield(i, 'baseType')) + '&'
        if 'DW_TAG_const_type' in s:
            return self.di_typename(self.mdfield(i, 'baseType'))
        if 'DW_TAG_array_type' in s:
            return self.di_typename(self.mdfield(i, 'baseType')) + '[]'
        return self.mdfield(i, 'name') or '?'

    def enumerators(self):
        out = {}
        for s in self.md.values():
            if s.startswith('!DIEnumerator('):
                m = re.match(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', s)
                if m:
                    out[m.group(1)] = int(m.group(2))
        return out

    def enum_range(self, tname):
        for i, s in self.md.items():
            if 'DW_TAG_enumeration_type' in s and self.mdfield(i, 'name') == tname:
                el = self.mdfield(i, 'elements')
                vals = []
                for a in re.findall(r'!(\d+)', self.md.get(el, '')) if el is not None else ():
                    m = re.search(r'value: (-?\d+)', self.md.get(int(a), ''))
                    if m:
                        vals.append(int(m.group(1)))
                if vals:
                    return (min(vals), max(vals))
        return None

    def fn_params(self, fn):
        """list of (type-ish, name, sretbyval)"""
        fn.parse()
        return fn.params


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui',
        'fptosi', 'fpext', 'fptrunc', 'addrspacecast'}
_RES = re.compile(r'  (%(?:"[^"]+"|[-\w.$]+)) = ')
_DBGVAL = re.compile(r'llvm\.dbg\.value\(metadata ptr %("[^"]+"|[-\w.$]+), metadata !(\d+)')
_DBG = re.compile(r'!dbg !(\d+)')
_LBL = re.compile(r'^("[^"]+"|[-\w.$]+):')


def parse_function(fn):
    mod = fn.mod
    h = fn.header
    m = re.search(r'@("[^"]+"|[-\w.$]+)\(', h)
    p = P(h, mod, fn, m.end())
    params = []
    fn.vararg = False
    pre = h[:m.start()]
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                fn.vararg = True
                p.expect(')')
                break
            ty = p.type()
            bv = skip_attrs(p)
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()[1:].strip('"')
            else:
                nm = str(len(params))
            params.append((ty, nm, bv))
            if p.accept(')'):
                break
            p.expect(',')
    fn.params = params
    # return type: last type token before @name
    toks = pre.split()
    fn.rettype = None
    rt = toks[-1]
    try:
        # re-parse from a position just after attributes
        q = P(pre, mod)
        q.next()
        while True:
            t = q.peek()
            if t is None:
                break
            save = q.i
            try:
                if t in ATTRS or t in ATTRP or t in ('internal', 'linkonce_odr', 'weak_odr', 'private', 'hidden', 'define', 'protected', 'weak', 'external', 'comdat', 'linkonce'):
                    raise IRError()
                fn.rettype = q.type()
                break
            except IRError:
                q.i = save
                skip_attrs(q)
                if q.i == save:
                    q.next()
    except IRError:
        pass
    blocks = {}
    order = []
    cur = None
    lines = fn.body
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if ln[0] != ' ':
            m = _LBL.match(ln)
            if not m:
                raise IRError('label? ' + ln)
            cur = []
            nm = m.group(1).strip('"')
            blocks[nm] = cur
            order.append(nm)
            continue
        if cur is None:
            cur = []
            nm = str(len(params))
            blocks[nm] = cur
            order.append(nm)
        if 'llvm.dbg.' in ln:
            md = _DBGVAL.search(ln)
            if md:
                fn.dbgvals.setdefault(md.group(1).strip('"'), []).append(int(md.group(2)))
            continue
        s = ln.strip()
        if s.startswith('switch') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                ln += ' ' + lines[i].strip()
                i += 1
            ln += ' ' + lines[i].strip()
            i += 1
        while i < n and lines[i].startswith('          '):
            ln += ' ' + lines[i].strip()
            i += 1
        inst = parse_inst(ln, mod, fn)
        if inst is not None:
            inst.fn = fn
            inst.blk = order[-1]
            inst.idx = len(cur)
            cur.append(inst)
    fn.blocks = blocks
    fn.order = order
    fn.entry = order[0]
    fn.body = None
    fn._succ = None


def label(p):
    p.expect('label')
    return p.next()[1:].strip('"')


def parse_inst(ln, mod, fn):
    m = _RES.match(ln)
    res = None
    start = 2
    if m:
        res = m.group(1)[1:].strip('"')
        start = m.end()
    d = None
    md = ln.rfind('!dbg !')
    if md >= 0:
        m2 = _DBG.match(ln, md)
        d = int(m2.group(1))
    p = P(ln, mod, fn, start)
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'br':
        if p.peek() == 'label':
            return Inst('jmp', None, (label(p),), d)
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        a = label(p)
        p.expect(',')
        b = label(p)
        return Inst('br', None, (v, a, b), d)
    if op == 'load':
        skip_attrs(p)
        ty = p.type()
        p.expect(',')
        pt = p.type()
        return Inst('load', res, (ty, p.value(pt)), d)
    if op == 'store':
        skip_attrs(p)
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt = p.type()
        return Inst('store', None, (ty, v, p.value(pt)), d)
    if op == 'getelementptr':
        skip_attrs(p)
        sty = p.type()
        p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(','):
            if p.peek() and p.peek()[0] == '!':
                break
            ity = p.type()
            idx.append((ity, p.value(ity)))
        return Inst('gep', res, (sty, base, idx), d)
    if op == 'call' or op == 'invoke':
        skip_attrs(p)
        rty = p.type()
        skip_attrs(p)
        if p.peek() == 'asm':
            p.next()
            p.skip_asm()
            callee = ('asm',)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                ty = p.type()
                bv = skip_attrs(p)
                if ty == ('metadata',):
                    return None
                args.append((ty, p.value(ty), bv))
                if p.accept(')'):
                    break
                p.expect(',')
        dst = None
        if op == 'invoke':
            skip_attrs(p)
            if p.peek() == '[':
                while p.next() != ']':
                    pass
            p.expect('to')
            a = label(p)
            p.expect('unwind')
            b = label(p)
            dst = (a, b)
        if rty[0] == 'fnty':
            rty = rty[1]
        if isinstance(callee, tuple) and callee[0] == 'f' and callee[1].startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias')):
            return None
        return Inst('call', res, (rty, callee, args, dst), d)
    if op == 'ret':
        ty = p.type()
        if ty[0] == 'void':
            return Inst('ret', None, (ty, None), d)
        return Inst('ret', None, (ty, p.value(ty)), d)
    if op == 'icmp':
        pred = p.next()
        if pred == 'samesign':
            pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst('icmp', res, (pred, ty, a, b), d)
    if op == 'fcmp':
        return Inst('opaque', res, (), d)
    if op in BIN:
        skip_attrs(p)
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst('bin', res, (op, ty, a, b), d)
    if op in CAST:
        skip_attrs(p)
        t1 = p.type()
        v = p.value(t1)
        p.expect('to')
        t2 = p.type()
        return Inst('cast', res, (op, t1, v, t2), d)
    if op == 'phi':
        ty = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc[p.next()[1:].strip('"')] = v
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek() != '[':
                break
        return Inst('phi', res, (ty, inc), d)
    if op == 'alloca':
        ty = p.type()
        cnt = 1
        if p.accept(','):
            if p.peek() != 'align':
                t2 = p.type()
                cnt = p.value(t2)
        return Inst('alloca', res, (ty, cnt), d)
    if op == 'select':
        t1 = p.type()
        c = p.value(t1)
        p.expect(',')
        t2 = p.type()
        a = p.value(t2)
        p.expect(',')
        p.type()
        b = p.value(t2)
        return Inst('select', res, (c, t2, a, b), d)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        dl = label(p)
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type()
            k = p.value(t)
            p.expect(',')
            cases.append((k, label(p)))
        return Inst('switch', None, (ty, v, dl, cases), d)
    if op == 'unreachable':
        return Inst('unreachable', None, (), d)
    if op == 'resume':
        return Inst('resume', None, (), d)
    if op == 'landingpad':
        return Inst('landingpad', res, (ln,), d)
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return Inst('extractvalue', res, (ty, v, tuple(idx)), d)
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return Inst('insertvalue', res, (ty, v, v2, tuple(idx)), d)
    if op == 'freeze':
        ty = p.type()
        return Inst('cast', res, ('bitcast', ty, p.value(ty), ty), d)
    if op == 'atomicrmw':
        skip_attrs(p)
        p.next()
        return Inst('opaque', res, (), d)
    return Inst('opaque', res, (op,), d)


def successors(fn):
    fn.parse()
    if fn._succ is None:
        s = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'jmp':
                s[b] = [t.a[0]]
            elif t.op == 'br':
                s[b] = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s[b] = [t.a[2]] + [c[1] for c in t.a[3]]
            elif t.op == 'call' and t.a[3]:
                s[b] = [t.a[3][0], t.a[3][1]]
            else:
                s[b] = []
        fn._succ = s
    return fn._succ


def loop_headers(fn):
    """targets of back edges (DFS)"""
    if getattr(fn, '_lh', None) is not None:
        return fn._lh
    succ = successors(fn)
    color = {}
    heads = set()
    st = [(fn.entry, iter(succ[fn.entry]))]
    color[fn.entry] = 1
    while st:
        b, it = st[-1]
        for x in it:
            if color.get(x, 0) == 0:
                color[x] = 1
                st.append((x, iter(succ[x])))
                break
            elif color[x] == 1:
                heads.add(x)
        else:
            color[b] = 2
            st.pop()
    fn._lh = heads
    return heads
