"""Roots, per-root preconditions and the parallel driver shared by the checks."""
import json, multiprocessing as mp, os, re, time, traceback

from .build import Program, REPO
from .engine import Engine, Config
from .models import Models, REQUEST_API, LOGGERS, API, MAIN_API

HERE = os.path.dirname(os.path.abspath(__file__))
LIST_FNS = {'free_array_list', 'free_keyvalue_list', 'free_ptr_list', 'push_array_list',
            'push_keyvalue_list', 'push_ptr_list'}
NO_ROOT = LIST_FNS | {'print_to', 'init_ptr_list', '_start'}
LIST_API = LIST_FNS | {'init_array_list', 'init_keyvalue_list', 'init_ptr_list'}


def declared_names(repo=None):
    """identifiers declared as functions in the project's own headers"""
    out = set()
    for d, _, fs in os.walk(os.path.join(repo or REPO, 'src')):
        for f in fs:
            if f.endswith(('.h', '.hpp')) and f != 'httplib.h':
                t = open(os.path.join(d, f), errors='replace').read()
                t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
                out |= set(re.findall(r'\b([A-Za-z_]\w*)\s*\(', t))
    return out


def callbacks(P):
    """functions only handed to library functions: what their result means is the library's convention"""
    if not hasattr(P, '_callbacks'):
        cb, other = set(), set()
        for f in P.repo_functions():
            f.parse()
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == 'call':
                        c = i.a[1]
                        ext = isinstance(c, tuple) and c[0] == 'f' and P.find(c[1], f.mod) is None
                        for _, v, _ in i.a[2]:
                            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'f':
                                (cb if ext else other).add(v[1])
                        if isinstance(c, tuple) and c[0] == 'f':
                            other.add(c[1])
        P._callbacks = cb - other
    return P._callbacks


def address_taken(P):
    out = set()
    for m in P.mods.values():
        for raw in m.globals_raw.values():
            out |= set(re.findall(r'@([\w.$]+)', raw))
    for f in P.repo_functions():
        f.parse()
        for b in f.order:
            for i in f.blocks[b]:
                vals = []
                if i.op == 'call':
                    vals = [v for _, v, _ in i.a[2]]
                elif i.op == 'store':
                    vals = [i.a[1]]
                elif i.op == 'phi':
                    vals = list(i.a[1].values())
                elif i.op == 'select':
                    vals = list(i.a[2:4])
                elif i.op == 'ret' and i.a:
                    vals = [x for x in i.a if isinstance(x, tuple)]
                for v in vals:
                    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'f':
                        out.add(v[1])
    return out


def roots(P):
    """functions a caller outside the analysed code can enter: declared in a header of the project,
    used through a pointer, or main. Everything else is analysed inside its callers."""
    decl, at = declared_names(), address_taken(P)
    out = []
    seen = set()
    for f in P.repo_functions():
        n = f.mod.fn_srcname(f)
        if n in NO_ROOT or n.startswith('~'):
            continue
        if n == 'main' or f.name in at or n in API or n in LOGGERS or (n in decl and not f.internal and not f.linkonce):
            key = (f.mod.fn_file(f), n, f.name)
            if key not in seen:
                seen.add(key)
                out.append(f)
    return sorted(out, key=lambda f: (f.mod.fn_srcname(f), f.name))


LOG_LEVELS = (0, 4)          # LOGC_TRACE..LOGC_ERROR: the log_* macros are the only callers


def param_hook(E, st, fn, i, nm, tn):
    if E.fname(fn) in LOGGERS and nm == 'level':
        return ('s', 'P:' + nm, 8, LOG_LEVELS)
    return None


def models_for(P, name, nullable=True):
    M = Models(P)
    M.use_request_api = name not in REQUEST_API
    M.callbacks = callbacks(P)
    if nullable:
        M.param_null = dict(NULLABLE)
    return M


def _load_nullable():
    p = os.path.join(HERE, 'nullable.json')
    if not os.path.exists(p):
        return {}
    return {(f, i): nm for f, i, nm in json.load(open(p))}


NULLABLE = _load_nullable()

_P = None


def _one(job):
    key, fname, kw = job
    P = _P
    t = time.time()
    try:
        f = None
        for m in P.mods.values():
            if fname in m.fns and not (m.fns[fname].decl if hasattr(m.fns[fname], 'decl') else False):
                if m.name == key or key is None:
                    f = m.fns[fname]
        if f is None:
            f = P.ext[fname]
        name = f.mod.fn_srcname(f)
        M = models_for(P, name)
        kw = dict(kw)
        if name == 'main':
            kw.setdefault('forget_empty', True)
        E = Engine(P, M, Config(param_hook=param_hook, **kw))
        R = E.run(f)
        return {'fn': name, 'steps': R.steps, 'states': R.states, 'ends': len(R.ends), 'truncated': R.truncated,
                'errors': list(R.errors.values()), 'obl': R.obl, 'funcs': sorted(R.funcs), 'unknown': sorted(map(str, R.unknown)),
                'wall': time.time() - t}
    except BaseException:
        return {'fn': fname, 'exc': traceback.format_exc()[-1500:]}


def pmap(fn, jobs, n=8):
    ctx = mp.get_context('fork')
    with ctx.Pool(min(n, max(1, len(jobs)))) as p:
        return list(p.imap_unordered(fn, jobs))


COST = {'main': 10, 'crypto_verify_cms': 3, 'serialize_voucher': 2, 'deserialize_voucher': 3}


def explore(P, fs, **kw):
    """runs the interpreter over every root; -> list of per-root results"""
    global _P
    _P = P
    jobs = [(f.mod.name, f.name, kw) for f in fs]
    jobs.sort(key=lambda j: -max([COST.get(k, 0) for k in COST if k in j[1]] or [0]))
    return pmap(_one, jobs)
