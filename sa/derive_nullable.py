"""Maintainer tool, not run by any check: freezes which pointer parameters of the public functions
may be NULL (the function copes with it) on the tree it is run on -> nullable.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import suite
from sa.suite import *


def one(job):
    fname, cand = job
    P = suite._P
    f = P.ext[fname]
    n = f.mod.fn_srcname(f)
    good = []
    for i in cand:
        M = models_for(P, n, False)
        M.param_null = {(n, i): True}
        R = Engine(P, M, Config(param_hook=param_hook)).run(f)
        if not any(e['kind'] == 'null' for e in R.errors.values()):
            good.append(i)
    # together
    M = models_for(P, n, False)
    M.param_null = {(n, i): True for i in good}
    R = Engine(P, M, Config(param_hook=param_hook)).run(f)
    if R.errors:
        print('joint', n, [e['msg'] for e in R.errors.values()])
    return [(n, i, f.params[i][1]) for i in good]


if __name__ == '__main__':
    P = Program()
    decl = declared_names()
    jobs = []
    for f in roots(P):
        n = f.mod.fn_srcname(f)
        if f.internal or n not in decl or n in ('main',) or n in LOGGERS or n.startswith('log_'):
            continue
        f.parse()
        c = []
        pt = P.param_types(f)
        for i, (ty, nm, bv) in enumerate(f.params):
            if ty[0] == 'ptr' and not (bv and bv[0] == 'sret') and i < len(pt) and pt[i] and not pt[i].endswith('&'):
                c.append(i)
        if c:
            jobs.append((f.name, c))
    suite._P = P
    out = sorted(x for r in pmap(one, jobs) for x in r)
    # parameters the function does not look at today say nothing about NULL
    out = [x for x in out if x[2] not in ('user_ctx', 'mconf') and not (x[0] == 'masa_start' and x[2] == 'pconf')
           and not (x[2] == 'peer_certificate' and x[0] not in ('registrar_requestvoucher', 'registrar_est_simpleenroll'))
           and not x[0].startswith('sys_')]
    json.dump(out, open(os.path.join(HERE, 'nullable.json'), 'w'), indent=0)
    print(len(out), 'of', sum(len(c) for _, c in jobs))
