"""Compiles /repo's current source to LLVM IR text (clang-18, -O0 -g, mem2reg), in a private
temporary directory, with the defines the project's own CMake build uses."""
import concurrent.futures as cf
import os, re, shutil, subprocess, tempfile

from . import ir

REPO = os.environ.get('SA_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'


class BuildError(Exception):
    pass


def _flags_from_cmake(repo):
    """Per-target compile definitions are read from the CMakeLists next to each source where they
    are plain target_compile_definitions; the fallback list is the pinned build's."""
    return ['-DWITH_CPPHTTPLIB_LIB']


C_SRC = ['utils/log.c', 'utils/os.c', 'voucher/array.c', 'voucher/keyvalue.c', 'voucher/serialize.c',
         'voucher/crypto_ossl.c', 'voucher/request.c', 'voucher/voucher.c', 'brski/config.c',
         'brski/pledge/pledge_utils.c']
CXX_SRC = ['brski/brski.cpp', 'brski/masa/masa_api.cpp', 'brski/masa/masa_server.cpp',
           'brski/pledge/pledge_request.cpp', 'brski/registrar/registrar_api.cpp',
           'brski/registrar/registrar_server.cpp', 'brski/http/https_client.cpp',
           'brski/http/https_server.cpp', 'brski/http/httplib_wrapper.cpp']
EXCLUDE = {'voucher/crypto_wssl.c'}
HEAVY = {'brski/http/httplib_wrapper.cpp'}
XOPEN = {'voucher/serialize.c', 'voucher/voucher.c'}


def all_sources(repo=None):
    """Every .c/.cpp below src: the known ones plus any file a change added."""
    repo = repo or REPO
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith(('.c', '.cpp')):
                r = os.path.relpath(os.path.join(d, f), os.path.join(repo, 'src'))
                if r not in EXCLUDE:
                    out.append(r)
    return sorted(out)


def prepare_inc(tmp, repo):
    inc = os.path.join(tmp, 'inc')
    os.makedirs(inc, exist_ok=True)
    t = open(os.path.join(repo, 'version.h.in')).read()
    for k in ('PROJECT_VERSION_MAJOR', 'PROJECT_VERSION_MINOR', 'PROJECT_VERSION_PATCH'):
        t = t.replace('@%s@' % k, '0')
    for k in ('PROJECT_VERSION_PRERELEASE', 'PROJECT_VERSION_BUILD_IDENTIFIER', 'PROJECT_VERSION'):
        t = t.replace('@%s@' % k, '0')
    open(os.path.join(inc, 'version.h'), 'w').write(t)
    return inc


def compile_one(src, tmp, repo, inc, auto=False):
    full = src if os.path.isabs(src) else os.path.join(repo, 'src', src)
    out = os.path.join(tmp, src.replace('/', '_') + '.ll')
    cxx = src.endswith('.cpp')
    base = ['/usr/bin/clang++-18'] if cxx else [CLANG]
    cmd = base + ['-S', '-emit-llvm', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-w',
                  '-fno-discard-value-names', '-DNDEBUG', '-DWITH_CPPHTTPLIB_LIB', '-I' + inc, '-I' + os.path.join(repo, 'src')]
    if auto:
        cmd.append('-ftrivial-auto-var-init=pattern')
    if cxx:
        cmd += ['-std=c++11']
    elif src in XOPEN:
        cmd += ['-std=c11', '-D_BSD_SOURCE', '-D_DEFAULT_SOURCE', '-D_XOPEN_SOURCE']
    elif src.startswith('utils/'):
        cmd += ['-std=gnu11']
    else:
        cmd += ['-std=c11']
    p = subprocess.run(cmd + [full, '-o', out], capture_output=True, text=True)
    if p.returncode:
        # a change may need the other dialect; try once with GNU extensions and default features
        alt = [c for c in cmd if not c.startswith('-std=')] + \
              (['-std=gnu++17'] if cxx else ['-std=gnu11', '-D_GNU_SOURCE'])
        p = subprocess.run(alt + [full, '-o', out], capture_output=True, text=True)
        if p.returncode:
            raise BuildError('%s: %s' % (src, p.stderr[-2000:]))
    if auto:
        # whole objects stay as they are (never written); variables and members keep their marks
        t = open(out).read()
        open(out, 'w').write(re.sub(r'^  call void @llvm\.mem(?:set|cpy)\..*!annotation !\d+.*\n', '', t, flags=re.M))
    p = subprocess.run([OPT, '-S', '-passes=mem2reg', out, '-o', out + '.m'], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s: opt: %s' % (src, p.stderr[-2000:]))
    return src, open(out + '.m').read()


def load(srcs=None, repo=None, auto=False):
    """-> dict src -> ir.Module"""
    repo = repo or REPO
    if srcs is None:
        srcs = [s for s in all_sources(repo) if s not in HEAVY]
    tmp = tempfile.mkdtemp(prefix='brskisa')
    try:
        inc = prepare_inc(tmp, repo)
        mods = {}
        with cf.ThreadPoolExecutor(8) as ex:
            order = sorted(srcs, key=lambda s: (s not in HEAVY, not s.endswith('.cpp')))
            for src, text in ex.map(lambda s: compile_one(s, tmp, repo, inc, auto), order):
                mods[src] = ir.Module(text, src, auto)
        return mods
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Program:
    def __init__(self, srcs=None, repo=None, auto=False):
        self.mods = load(srcs, repo, auto)
        self.heavy = srcs is not None          # the caller asked for the large module by name
        self.ext = {}
        for m in self.mods.values():
            for n, f in m.fns.items():
                if f.internal:
                    continue
                if n not in self.ext or (self.ext[n].linkonce and not f.linkonce):
                    self.ext[n] = f
        self.enums = {}
        for s, m in self.mods.items():
            if s in HEAVY and not self.heavy:
                continue
            self.enums.update(m.enumerators())
        self._fields = {}
        self._ftypes = {}
        self._erange = {}
        self._written = None
        self._dem = {}
        self._predemangle()

    def _predemangle(self):
        names = set()
        for s, m in self.mods.items():
            if s in HEAVY and not self.heavy:
                continue
            for n in list(m.fns) + list(m.decls):
                if n.startswith('_Z'):
                    names.add(n)
        self.demangle(sorted(names))

    def find(self, name, mod=None):
        if mod is not None and name in mod.fns:
            return mod.fns[name]
        r = self.ext.get(name)
        if r is None and mod is not None and name not in mod.decls:      # a static function reached through its address
            c = [m.fns[name] for m in self.mods.values() if name in m.fns]
            r = c[0] if len(c) == 1 else None
        return r

    def by_src(self, srcname):
        """all functions whose source-level (debug) name is srcname, defined in /repo/src"""
        out = []
        for m in self.mods.values():
            for f in m.fns.values():
                if f.dbg is not None and m.fn_srcname(f) == srcname and '/src/' in m.fn_file(f) \
                        and not m.fn_file(f).startswith('/usr'):
                    out.append(f)
        return out

    def harness(self, name):
        for s, m in self.mods.items():
            if os.path.isabs(s) and name in m.fns:
                return m.fns[name]

    def fn(self, srcname):
        r = self.by_src(srcname)
        return r[0] if r else None

    def fields(self, struct):
        if struct not in self._fields:
            r = None
            for s, m in self.mods.items():
                if s in HEAVY and not self.heavy:
                    continue
                r = m.di_struct(struct)
                if r:
                    break
            self._fields[struct] = r
        return self._fields[struct]

    def enum_range(self, tname):
        """(lowest, highest) enumerator of an enumeration type, by its debug-info name"""
        if tname not in self._erange:
            r = None
            for s, m in self.mods.items():
                if s in HEAVY and not self.heavy:
                    continue
                r = m.enum_range(tname)
                if r:
                    break
            self._erange[tname] = r
        return self._erange[tname]

    def struct_size(self, struct):
        for s, m in self.mods.items():
            if s not in HEAVY:
                r = m.di_struct_size(struct)
                if r:
                    return r

    def field_types(self, struct):
        if struct not in self._ftypes:
            r = None
            for s, m in self.mods.items():
                if s in HEAVY and not self.heavy:
                    continue
                r = m.di_struct_types(struct)
                if r:
                    break
            self._ftypes[struct] = r or {}
        return self._ftypes[struct]

    def param_types(self, fn):
        """debug-info type names of the source-level parameters"""
        m = fn.mod
        if fn.dbg is None:
            return []
        t = m.mdfield(fn.dbg, 'type')
        if t is None:
            return []
        tl = m.mdfield(t, 'types')
        if tl is None:
            return []
        ids = re.findall(r'!(\d+)|(null)', m.md.get(tl, ''))
        out = [m.di_typename(int(a)) if a else 'void' for a, _ in ids]
        return out[1:]

    def ret_type(self, fn):
        m = fn.mod
        if fn.dbg is None:
            return None
        t = m.mdfield(fn.dbg, 'type')
        tl = m.mdfield(t, 'types') if t is not None else None
        if tl is None:
            return None
        ids = re.findall(r'!(\d+)|(null)', m.md.get(tl, ''))
        if not ids:
            return 'void'
        return m.di_typename(int(ids[0][0])) if ids[0][0] else 'void'

    def global_is_readonly(self, oid):
        """no instruction of the program stores to, or passes on the address of, this variable"""
        if self._written is None:
            self._written = set()
            for m in self.mods.values():
                for f in m.fns.values():
                    if f.dbg is None:
                        continue
                    fl = m.fn_file(f)
                    if '/src/' not in fl or 'httplib.h' in fl or fl.startswith('/usr'):
                        continue
                    f.parse()
                    for b in f.order:
                        for i in f.blocks[b]:
                            if i.op == 'store':
                                for v in (i.a[1], i.a[2]):
                                    if isinstance(v, tuple) and v[0] == 'p':
                                        self._written.add(v[1])
                            elif i.op == 'call':
                                for _, v, _ in i.a[2]:
                                    if isinstance(v, tuple) and v[0] == 'p':
                                        self._written.add(v[1])
                            elif i.op == 'phi' or i.op == 'select':
                                for v in (i.a[1].values() if i.op == 'phi' else i.a[2:4]):
                                    if isinstance(v, tuple) and v[0] == 'p':
                                        self._written.add(v[1])
                            elif i.op == 'gep':
                                v = i.a[1]
                                # indexed global tables: reads only, unless the pointer is stored through
                                if isinstance(v, tuple) and v[0] == 'p' and not self._gep_read_only(f, i.res):
                                    self._written.add(v[1])
        return oid not in self._written

    def _gep_read_only(self, f, res):
        work, seen = [res], set()
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == 'store' and (i.a[2] == r or i.a[1] == r):
                        return False
                    if i.op == 'call' and any(v == r for _, v, _ in i.a[2]):
                        return False
                    if i.op in ('gep', 'cast') and (i.a[1] == r or (i.op == 'cast' and i.a[2] == r)):
                        work.append(i.res)
                    if i.op == 'phi' and r in i.a[1].values():
                        work.append(i.res)
        return True

    def demangle(self, names):
        need = [n for n in names if n not in self._dem]
        if need:
            p = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True)
            for n, d in zip(need, p.stdout.split('\n')):
                self._dem[n] = d
        return self._dem

    def dem(self, n):
        if n not in self._dem:
            self.demangle([n])
        return self._dem.get(n, n)

    def pointer_fields(self, struct, base=0, pre=''):
        """[(path, offset, type)] of every pointer member, nested structs by value included"""
        out = []
        fs, ts = self.fields(struct) or {}, self.field_types(struct)
        for n, o in sorted(fs.items(), key=lambda x: x[1]):
            t = ts.get(n) or ''
            if t.endswith('*'):
                out.append((pre + n, base + o, t))
            elif not t.endswith(']') and t != struct and self.fields(t):
                out += self.pointer_fields(t, base + o, pre + n + '.')
        return out

    def repo_functions(self):
        """functions whose body is written in /repo/src, unique by name"""
        seen = {}
        for m in self.mods.values():
            for f in m.fns.values():
                fl = m.fn_file(f)
                if '/src/' in fl and not fl.startswith('/usr') and 'httplib.h' not in fl:
                    key = (fl, m.fn_srcname(f), f.name)
                    seen.setdefault(key, f)
        return list(seen.values())
