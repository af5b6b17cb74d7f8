"""V19, V20: requests are handled by several threads at once; what they share is only read, or guarded."""
import re

from ..build import Program
from ..engine import Engine, Config, U
from ..models import API, SPECIAL, EXT, LOGGERS
from ..report import Report, Anchor
from .. import gates as G, suite
from .server_checks import file_of

# library functions that use static storage or process-wide state: not safe in concurrent requests
UNSAFE = {'localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'strerror', 'rand', 'srand', 'random', 'srandom', 'drand48', 'setlocale',
          'localeconv', 'tmpnam', 'tempnam', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'gethostbyname', 'gethostbyaddr', 'inet_ntoa',
          'setenv', 'unsetenv', 'putenv', 'umask', 'chdir', 'signal', 'getopt', 'basename', 'ttyname', 'getlogin', 'crypt', 'ether_ntoa',
          'hcreate', 'hsearch', 'readdir', 'strsignal', 'wcstombs', 'ecvt', 'fcvt', 'gcvt', 'l64a', 'ptsname', 'lgamma', 'mblen', 'wctomb', '__xpg_basename'}
# functions that use static storage when the given argument is NULL
UNSAFE_NULL = {'ERR_error_string': 1, 'i2s_ASN1_INTEGER': None, 'OBJ_obj2txt': None, 'X509_NAME_oneline': None, 'SHA1': 2, 'SHA256': 2,
               'SHA384': 2, 'SHA512': 2, 'MD5': 2, 'HMAC': 5, 'strtok_r': None, 'mbrlen': 2, 'BN_options': None, 'asctime_r': 1}
LOCK = {'_ZNSt5mutex4lockEv': 1, '_ZNSt5mutex6unlockEv': -1, 'pthread_mutex_lock': 1, 'pthread_mutex_unlock': -1, 'mtx_lock': 1, 'mtx_unlock': -1,
        '_ZNSt15recursive_mutex4lockEv': 1, '_ZNSt15recursive_mutex6unlockEv': -1, 'flockfile': 1, 'funlockfile': -1}
READERS = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'strstr', 'fputs', 'puts', 'fprintf', 'printf',
           'vfprintf', 'fopen', 'strdup', 'strndup', 'getenv', 'ini_gets', 'OBJ_txt2nid', 'OBJ_nid2sn', 'EVP_get_digestbyname', 'strspn', 'strcspn', 'atoi', 'strtol'}
WRITES = {'ERR_error_string': (1,), 'ERR_error_string_n': (1,), 'sscanf': tuple(range(2, 20)), 'read': (1,), 'fgets': (0,), 'fread': (0,), 'strftime': (0,),
          'gmtime_r': (1,), 'localtime_r': (1,), 'BIO_read': (1,), 'RAND_bytes': (0,), 'qsort': (0,), 'getline': (0, 1), 'strtok_r': (0, 2), 'strerror_r': (1,)}
DST0 = {'memcpy', 'memmove', 'strcpy', 'strncpy', 'snprintf', 'sprintf', 'strcat', 'strncat', 'vsnprintf', 'memccpy'}


class Graph:
    def __init__(self, P):
        self.P = P
        self.fns = P.repo_functions()
        self.by = {}
        for f in self.fns:
            f.parse()
            self.by.setdefault(f.name, f)
        self.refs, self.calls = {}, {}
        for f in self.fns:
            r, cs = set(), []
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == 'call':
                        c = i.a[1]
                        if isinstance(c, tuple) and c[0] == 'f':
                            cs.append((c[1], i))
                    for t in functions_in(i.a):
                        r.add(t)
            self.refs[f], self.calls[f] = r, cs

    def find(self, f, name):
        g = self.P.find(name, f.mod)
        if g is None:
            return None
        g.parse()
        return g if g in self.refs else self.by.get(name)

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f in seen or f not in self.refs:
                continue
            seen.add(f)
            for n in self.refs[f]:
                g = self.find(f, n)
                if g is not None and g not in seen:
                    todo.append(g)
        return seen


def functions_in(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'f' and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from functions_in(y)
    elif isinstance(x, list):
        for y in x:
            yield from functions_in(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from functions_in(y)


def name(f):
    return f.mod.fn_srcname(f)


def handlers(P, fns):
    out = [f for f in fns if any('ResponseHeader' in t for t in P.param_types(f)) and f.blocks and '/http/' not in f.mod.fn_file(f)]
    return sorted(out, key=lambda f: f.name)


# ------------------------------------------------------------------ V19
class Shared:
    """runs a function whose given parameters are shared between threads, and notes what is written to them"""

    def __init__(self, P, rep, f, idx):
        self.P, self.rep, self.f = P, rep, f
        nm = [n for ty, n, bv in f.params if not (bv and bv[0] == 'sret')]
        # a negative index: not the object itself, only what it points to
        self.roots = tuple('P:' + nm[i] for i in idx if 0 <= i < len(nm)) + tuple('P:' + nm[-1 - i] + '.' for i in idx if i < 0 and -1 - i < len(nm))
        self.passed, self.calls = {}, {}
        self.E, self.R = G.run(P, f, {'*'}, self.snap, param_null={}, no_api=set(), on_write=self.on_write)
        rep.count('functions')
        rep.count('paths to a return', len(self.R.ends))
        rep.count('interpreted instructions', self.R.steps)

    def shared(self, oid):
        return any(oid == r or oid.startswith(r + '.') or oid.startswith(r + '~') or r[-1] == '.' and oid.startswith(r) for r in self.roots)

    def snap(self, E, st, src, vals):
        cb = [v[1] for v in vals if isinstance(v, tuple) and len(v) == 2 and v[0] == 'f']
        for c in cb:
            for v in vals:
                if not (isinstance(v, tuple) and v[0] == 'p'):
                    continue
                if self.shared(v[1]):
                    self.calls.setdefault(c, set()).add(1)
                elif any(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0][0] == 'p' and self.shared(x[0][1])
                         for k, x in (st.mem.get(v[1]) or {}).items() if k != 'r') or \
                        any(r[2] == 'copy' and self.shared(r[3]) for r in (st.mem.get(v[1]) or {}).get('r', ())):
                    self.calls.setdefault(c, set()).add(-1)
        if src in API and src != E.fname(self.f):
            for i, v in enumerate(vals):
                if isinstance(v, tuple) and v[0] == 'p' and self.shared(v[1]):
                    self.passed.setdefault(src, set()).add(i)
        return {}

    def on_write(self, E, st, o, how):
        if not self.shared(o.oid):
            return
        fr = st.frames[-1] if st.frames else None
        where = E.fname(fr.fn) if fr else name(self.f)
        inst = None
        if fr is not None:
            b = fr.fn.blocks[fr.blk]
            inst = b[min(fr.idx, len(b) - 1)]
        self.rep.viol('shared-write', file_of(fr.fn if fr else self.f), where, '%s memory that concurrent requests share (reached from %s)' %
                      (how, '/'.join(r[2:] for r in self.roots)), E.loc(inst)[1] if inst is not None else None, ['entered at ' + name(self.f)])


def v19(tier):
    rep = Report('V19', 'Every request handler, and every function a handler gives shared memory to, is interpreted with the server context and all '
                 'that can be reached from it marked as shared: no path stores to, copies over or releases it.')
    P = Program()
    fns = P.repo_functions()
    for f in fns:
        f.parse()
    hs = handlers(P, fns)
    rep.need(len(hs) >= 5, 'only %d request handlers found' % len(hs))
    todo = []
    for f in hs:
        ts = P.param_types(f)
        # the context is the untyped parameter
        idx = tuple(i for i, t in enumerate(ts) if t.replace('const ', '').strip() in ('void*', '?*', 'RegistrarContext*', 'MasaContext*'))
        if idx:
            todo.append((f, idx))
            rep.count('request handlers')
    done = set()
    names = {}
    for f in fns:
        names.setdefault(name(f), f)
    while todo:
        f, idx = todo.pop()
        if (f, idx) in done:
            continue
        done.add((f, idx))
        rep.part(one_shared, P, rep, f, idx, todo, names)
    rep.assumptions = ['the HTTP library hands every connection its own request, response and certificate objects',
                       'callbacks are interpreted where they are called']
    return rep


def one_shared(P, rep, f, idx, todo, names):
    s = Shared(P, rep, f, idx)
    rep.sample('%s: %d paths' % (name(f), len(s.R.ends)))
    for src, ix in s.passed.items():
        if src in names and name(names[src]) not in LOGGERS:
            todo.append((names[src], tuple(sorted(ix))))
    for c, how in s.calls.items():
        h = P.find(c, f.mod)
        if h is None:
            continue
        h.parse()
        ts = P.param_types(h)
        idx = tuple(i if 1 in how else -1 - i for i, t in enumerate(ts) if t.replace('const ', '').strip() in ('void*', '?*', 'RegistrarContext*', 'MasaContext*'))
        if idx:
            rep.count('callbacks')
            todo.append((h, idx))


# ------------------------------------------------------------------ V20
def derived(f, start):
    """registers of f that hold the address `start` selects, or an address inside the same object"""
    out = set()
    while True:
        n = len(out)
        for b in f.order:
            for i in f.blocks[b]:
                src = i.a[1:2] if i.op == 'gep' else i.a[2:3] if i.op == 'cast' else tuple(i.a[1].values()) if i.op == 'phi' \
                    else i.a[2:4] if i.op == 'select' else ()
                if i.res and any(start(x) or x in out for x in src if isinstance(x, (str, tuple))):
                    out.add(i.res)
        if len(out) == n:
            return out


class Globals:
    def __init__(self, g):
        self.g, self.P = g, g.P
        self.memo = {}

    def mutable(self, f, oid):
        nm = oid[1:].split(':')[-1]
        raw = f.mod.globals_raw.get(nm)
        for m in self.P.mods.values() if raw is None or ' external ' in ' ' + raw else ():
            r = m.globals_raw.get(nm)
            if r is not None and not r.startswith('external') and 'internal' not in r.split('global')[0]:
                raw = r
                break
        if raw is None or raw.startswith('external') or ' constant ' in ' ' + raw or 'thread_local' in raw or nm.startswith('.str'):
            return None
        if re.search(r'mutex|atomic|once_flag|_ZGV', raw[:120] + nm):
            return None
        return nm

    def locks(self, f):
        return any(c in LOCK or 'lock_guard' in c or 'unique_lock' in c or 'scoped_lock' in c or 'call_once' in c for c, _ in self.g.calls[f])

    def writes_param(self, f, k, depth=0):
        key = (f, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        ps = [nm for ty, nm, bv in f.params]
        if k >= len(ps) or depth > 6:
            return False
        p = ps[k].lstrip('%')
        d = derived(f, lambda x: x == p or x == ps[k]) | {p, ps[k]}
        r = any(self.written(f, i, d, lambda x: False, depth + 1) for b in f.order for i in f.blocks[b])
        self.memo[key] = r
        return r

    def written(self, f, i, d, at, depth=0):
        hit = lambda x: isinstance(x, (str, tuple)) and (x in d if isinstance(x, str) else at(x))
        if i.op == 'store':
            return hit(i.a[2])
        if i.op != 'call' or not isinstance(i.a[1], tuple):
            return False
        c = i.a[1][1]
        for k, (ty, v, bv) in enumerate(i.a[2]):
            if not hit(v):
                continue
            if c.startswith('llvm.'):
                if k == 0 and c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    return True
                continue
            g = self.g.find(f, c)
            if g is not None and g.blocks:
                if self.writes_param(g, k, depth):
                    return True
                continue
            if c.startswith('_Z'):
                if not c.startswith('_ZNK') and k == 0 and c.startswith('_ZN') and 'C1' not in c and 'C2' not in c and 'D1' not in c and 'D2' not in c \
                        and not self.const_method(c):
                    return True
                continue
            if c in DST0:
                if k == 0:
                    return True
                continue
            if c in READERS:
                continue
            if c in WRITES:
                if k in WRITES[c]:
                    return True
                continue
            sp = EXT.get(c)
            if sp is not None and (k in sp.wr or k in sp.out or k in sp.free):
                return True
        return False

    def const_method(self, c):
        return self.P.dem(c).split('::')[-1].split('(')[0] in ('begin', 'end', 'size', 'data', 'c_str', 'empty', 'at', 'find', 'operator[]', 'cbegin', 'cend', 'front', 'back', 'length') \
            and 'map' not in self.P.dem(c).split('(')[0]

    def check(self, rep, f):
        seen = {}
        for b in f.order:
            for i in f.blocks[b]:
                for x in globals_in(i.a):
                    nm = self.mutable(f, x)
                    if nm:
                        seen[x] = nm
        for x, nm in sorted(seen.items()):
            rep.count('accesses to mutable variables judged')
            at = lambda v: isinstance(v, tuple) and len(v) == 3 and v[0] == 'p' and v[1] == x
            d = derived(f, at)
            for b in f.order:
                for i in f.blocks[b]:
                    if self.written(f, i, d, at) and not self.locks(f):
                        var = self.P.dem(nm) if nm.startswith('_Z') else nm
                        rep.viol('shared-variable', file_of(f), name(f), 'writes the variable %s, which all threads share, without a lock' % var, line_of(f, i))


def globals_in(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'p' and isinstance(x[1], str) and x[1].startswith('@'):
            yield x[1]
        else:
            for y in x:
                yield from globals_in(y)
    elif isinstance(x, list):
        for y in x:
            yield from globals_in(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from globals_in(y)


def line_of(f, i):
    try:
        return f.mod.loc(i.dbg)[1]
    except Exception:
        return None


def unsafe_calls(rep, g, f):
    """calls in f of library functions that are not safe in concurrent threads"""
    for c, i in g.calls[f]:
        k = UNSAFE_NULL.get(c)
        if c in UNSAFE or k is not None and len(i.a[2]) > k and i.a[2][k][1] == 0:
            yield c, i


def library(P, rep, g, fs):
    """unsafe functions are called nowhere but in functions that only the log enters, where a lock is held"""
    logs = {f for f in g.fns if name(f) in LOGGERS or file_of(f).endswith('utils/log.c')}
    inlog = set()
    # functions reachable without passing through a log entry
    entry = {f for f in logs if any(f in targets(g, h) for h in fs if h not in logs)}
    outside = reach_without(g, fs, entry)
    for f in fs:
        rep.count('functions scanned')
        for c, i in unsafe_calls(rep, g, f):
            rep.count('unsafe calls found')
            if f in outside and not Globals(g).locks(f):
                rep.viol('unsafe-function', file_of(f), name(f), 'calls %s, which uses storage all threads share, without a lock' % c, line_of(f, i))
            else:
                inlog.add(f)
    return entry, inlog


def targets(g, f):
    return {g.find(f, n) for n in g.refs[f]} - {None}


def reach_without(g, fs, stop):
    """functions of fs entered from a function that is not behind one of `stop`"""
    roots = g.roots
    seen, todo = set(), [r for r in roots if r not in stop]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += [x for x in targets(g, f) if x not in stop and x not in seen and x in g.refs]
    return seen


def log_lock(P, rep, g, entry):
    """every path through the log takes the lock once, uses the shared state under it and gives it back"""
    rep.need(entry, 'no function of the log is called by the request handlers')
    n = 0
    for f in sorted(entry, key=lambda f: f.name):
        Lock(P, rep, g, f)
        n += 1
    rep.count('log entries', n)


class Lock:
    def __init__(self, P, rep, g, f):
        self.rep, self.f = rep, f
        self.g = g
        M = suite.models_for(P, name(f))
        kw = {c: self.lockop for c in LOCK}
        kw['LOCKFN'] = self.lockfn
        for c in set(UNSAFE) | {'vfprintf', 'fprintf', 'fputs', 'vprintf', 'fwrite'}:
            kw[c] = self.unsafe
        E = self.E = Engine(P, M, Config(models=kw, unroll=3, sticky=True, param_hook=suite.param_hook))
        from ..engine import new_state
        st = new_state()
        self.preset(E, P, st, f)
        st.cont['LOCK'] = 0
        R = E.run(f, st=st)
        rep.count('paths through the log', len(R.ends))
        for s, v, inst in R.ends:
            if s.cont.get('LOCK', 0) != 0:
                self.bad('lock-kept', 'a path through %s ends with the log lock %s' % (name(f), 'taken' if s.cont['LOCK'] > 0 else 'given back twice'), s, inst)

    def preset(self, E, P, st, f):
        """the servers have installed a lock function: every function pointer in a variable of the log is that one"""
        m = next((m for m in P.mods.values() if m.name.endswith('utils/log.c')), f.mod)
        for nm, raw in m.globals_raw.items():
            if raw.startswith('external') or 'constant' in raw.split(' ')[:3]:
                continue
            for g in self.g.fns:
                if g.mod is not m or not re.search('lock', name(g)):
                    continue
                for b in g.order:
                    for i in g.blocks[b]:
                        if i.op == 'store' and isinstance(i.a[2], tuple) and i.a[2][0] == 'p' and i.a[2][1].split(':')[-1].lstrip('@') == nm and i.a[0][0] == 'ptr':
                            o = E.obj(st, i.a[2][1])
                            E.poke(st, o, i.a[2][2], ('f', 'LOCKFN'), 8)
                            self.rep.count('lock pointers installed')

    def bad(self, rule, msg, st, inst):
        from ..engine import unlink
        fn = inst.fn if inst is not None else self.f
        self.rep.viol(rule, file_of(fn), name(fn), msg, self.E.loc(inst)[1] if inst is not None else None, [str(x) for x in unlink(st.trace)])

    def step(self, st, d, inst):
        n = st.cont.get('LOCK', 0) + d
        if n > 1:
            self.bad('lock-twice', 'the log lock is taken while it is held', st, inst)
        st.cont['LOCK'] = max(-1, min(n, 2))

    def lockfn(self, E, st, inst, av, src):
        v = av[0][1] if av else U
        if isinstance(v, int):
            self.step(st, 1 if v & 1 else -1, inst)
        return [(st, None)]

    def lockop(self, E, st, inst, av, src):
        self.step(st, LOCK.get(E.callee(st, st.frames[-1], inst)[0], LOCK.get(src, 0)), inst)
        return [(st, 0 if inst.a[0][0] == 'i' else None)]

    def unsafe(self, E, st, inst, av, src):
        if st.cont.get('LOCK', 0) < 1:
            self.bad('unlocked', 'a path through %s calls %s without holding the log lock' % (name(self.f), src), st, inst)
        m = E.models.lookup(E, src, src, None)
        if m is not None:
            return m(E, st, inst, av, src)
        r = E.unk(st, inst, inst.a[0]) if inst.a[0][0] != 'void' else None
        if isinstance(r, tuple) and r[0] == 'p':
            st.nn[r[1]] = True
        return [(st, r)]


def lock_function(P, rep, g):
    """the function main installs takes the mutex when asked to and gives it back when asked to"""
    m = P.fn('main')
    rep.need(m is not None, 'main is not defined')
    m.parse()
    sets = [i for c, i in g.calls.get(m) or [] if c == 'log_set_lock']
    fn = None
    for i in sets:
        v = i.a[2][0][1]
        if isinstance(v, tuple) and v[0] == 'f':
            fn = g.find(m, v[1])
    if not sets:
        rep.viol('no-lock', file_of(m), 'main', 'the servers run without a lock installed for the log')
        return
    rep.need(fn is not None, 'the lock function main installs is not a named function')
    for arg, want in ((1, 1), (0, -1)):
        got = []

        def op(E, st, inst, av, src, d=None):
            n = E.callee(st, st.frames[-1], inst)[0]
            st.cont['LOCK'] = st.cont.get('LOCK', 0) + LOCK.get(n, 0)
            return [(st, 0 if inst.a[0][0] == 'i' else None)]
        E = Engine(P, suite.models_for(P, name(fn)), Config(models={c: op for c in LOCK}, sticky=True))
        R = E.run(fn, args=[arg])
        rep.count('lock function runs')
        for st, v, inst in R.ends:
            if st.cont.get('LOCK', 0) != want:
                rep.viol('lock-function', file_of(fn), name(fn), 'does not %s the mutex when asked to' % ('take' if arg else 'give back'), E.loc(inst)[1])


def servers_install(P, rep, g):
    """the lock is in place before a server is started"""
    from . import cli_checks as C
    m = P.fn('main')
    m.parse()
    inits = [f for f in m.mod.fns.values() if f.name.startswith('_GLOBAL__sub_I')]
    for cmd in ('registrar', 'masa'):
        for opts in ([], ['d'], ['c', 'd']):
            C.REC.add('log_set_lock')
            c = C.Cli(P, m, inits, opts, cmd, sum(2 if o in 'ciopa' else 1 for o in opts))
            for st, v, inst in c.ends:
                evs = G.events(st)
                start = [k for k, e in enumerate(evs) if e[0] == cmd + '_start' or e[0] == 'registrar_start' or e[0] == 'masa_start']
                if not start:
                    continue
                rep.count('server starts')
                got = [e for e in evs[:start[0]] if e[0] == 'log_set_lock' and isinstance(e[1][0], tuple) and e[1][0][0] == 'f']
                off = [e for e in evs[:start[0]] if e[0] == 'log_set_lock' and e[1][0] == 0]
                if not got or off and evs.index(off[-1]) > evs.index(got[-1]):
                    rep.viol('no-lock', file_of(m), 'main', 'the %s is started without a lock installed for the log' % cmd, c.E.loc(inst)[1])


def v20(tier):
    rep = Report('V20', 'In every function reachable from a request handler: no store to, or call that writes, a variable with static storage '
                 'unless it is thread-local, atomic or behind a lock; no call of a library function that keeps its result in static '
                 'storage, except in the log, where on every path the lock is held around such calls and around the output, taken once and '
                 'given back; the lock function and its installation before a server starts are followed too.')
    P = Program()
    g = Graph(P)
    g.roots = [f for f in g.fns if any('ResponseHeader' in t for t in P.param_types(f))]
    rep.need(len(g.roots) >= 5, 'only %d request handlers found' % len(g.roots))
    fs = g.reach(g.roots)
    rep.count('functions reachable from handlers', len(fs))
    entry = [set()]

    def libs():
        entry[0], _ = library(P, rep, g, fs)

    def shared_variables():
        G_ = Globals(g)
        for f in fs:
            G_.check(rep, f)

    def log_paths():
        log_lock(P, rep, g, entry[0])
    rep.part(libs)
    rep.part(shared_variables)
    rep.part(log_paths)
    rep.part(lock_function, P, rep, g)
    rep.part(servers_install, P, rep, g)
    rep.assumptions = ['OpenSSL, the C library and the HTTP library are safe in the way they document',
                       'initialisation of function-level statics in C++ is done once by the language']
    return rep
