"""V07..V11, V14: the path-sensitive ownership / nullness / extent / error-propagation analysis over
every function another component can enter."""
import os
from ..build import Program, BuildError
from ..engine import Engine, Config, U, iv, ladd, constraint, assume
from ..models import Models, SPECIAL
from ..report import Report
from .. import suite

HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')

OWN = {'uaf': 'use-after-release', 'doublefree': 'double-release', 'badfree': 'wrong-release', 'dangling': 'dangling-pointer'}
ASSUME = ['third-party calls behave as the transfer functions in sa/models.py say (OpenSSL, libc, libstdc++, minIni)',
          'loops are interpreted twice and then with the iteration summarised; contents of memory are tracked per path',
          'pointer parameters frozen in sa/nullable.json may be NULL, the others may not; main is entered by the C runtime']


def analyse(prop, rule, kinds, tier, note):
    P = Program(auto=prop == 'V28')
    rep = Report(prop, note)
    fs = suite.roots(P)
    rep.need(len(fs) >= 40, 'only %d entry functions found below src/' % len(fs))
    kw = {'unroll': 3, 'max_steps': 20000000, 'max_states': 1000000} if tier == 'thorough' else {}
    res = suite.explore(P, fs, **kw)
    funcs = set()
    for r in res:
        if 'exc' in r:
            rep.notes.append('not analysed: %s (%s)' % (r['fn'], r['exc'].strip().split('\n')[-1]))
            rep.count('entry functions not analysed')
            continue
        rep.count('entry functions')
        rep.count('interpreted instructions', r['steps'])
        rep.count('path states', r['states'])
        rep.count('paths to a return', r['ends'])
        if r['truncated']:
            rep.notes.append('stopped at the state limit: ' + r['fn'])
        for k, n in (r['obl'] or {}).items():
            rep.count('obligations ' + k, n)
        funcs |= set(r['funcs'])
        for e in r['errors']:
            if e['kind'] in kinds:
                rep.viol(rule.get(e['kind'], e['kind']) if isinstance(rule, dict) else rule, e['file'], e['function'],
                         e['msg'], e['line'], ['root ' + r['fn']] + list(e['path']))
    rep.count('functions interpreted', len(funcs))
    rep.samples = sorted('%s: %d paths, %d instructions' % (r['fn'], r['ends'], r['steps']) for r in res if 'exc' not in r)[:200]
    rep.assumptions = ASSUME
    rep.need(rep.counts.get('entry functions', 0) * 10 >= len(fs) * 9, 'the interpreter failed on more than a tenth of the entry functions')
    return P, rep


def v07(tier):
    return analyse('V07', 'failure-reported-as-success', ('error-lost',), tier,
                   'On every path, once a call the function depends on has failed, the value returned is not the one that '
                   'tells success (negative / NULL / non-zero exit / HTTP status >= 400).')[1]


def v08(tier):
    return analyse('V08', OWN, tuple(OWN), tier,
                   'Typestate of every allocation, handle and owned member: no use, second release, wrong release function '
                   'or published pointer after the release, on any path.')[1]


def v09(tier):
    return analyse('V09', 'leak', ('leak',), tier,
                   'On every path to a return, each allocation or handle the function obtained was released, handed to the '
                   'caller or stored in memory the caller sees.')[1]


def v10(tier):
    return analyse('V10', 'null', ('null',), tier,
                   'No path dereferences, or hands to a callee that requires an object, a pointer that can be NULL there: '
                   'failed allocations and lookups, optional configuration values and voucher attributes, parameters '
                   'documented to accept NULL.')[1]


def v11(tier):
    rep = analyse('V11', {'bounds': 'out-of-bounds', 'constwrite': 'write-to-constant', 'length': 'wrong-length'}, ('bounds', 'constwrite', 'length'), tier,
                  'Every access and every (buffer, length) argument lies inside the object it addresses: table indexes, '
                  'copies, formatted writes, reads from descriptors. Functions that fill a buffer of the caller are also entered with '
                  'one that has exactly the size they are told.')[1]
    rep.part(told_sizes, rep)
    return rep


def formatted(E, st, inst, av, src):
    """snprintf told apart by whether everything fitted"""
    d, n = av[0][1], av[1][1]
    if isinstance(d, tuple) and d[0] == 'p':
        o, off = E.access(st, d, inst, None, 'written')
        if o is not None and o.kind != 'lazy' and o.size is not None and off is not None:
            x = ladd(o.size, off, -1)
            if x != U and iv(st, x)[1] <= 0 and iv(st, x)[0] < 0:
                E.error(st, 'bounds', inst, 'text is written past the end of the buffer after text that did not fit')
                return []
    out = []
    for s, r in SPECIAL['snprintf'](E, st, inst, av, src):
        t = s.copy()
        for x, p in ((s, 'slt'), (t, 'sge')):
            c = constraint(p, r, n)
            if isinstance(c, int):
                out += [(x, r)] if c else []
            elif c is None:
                out.append((x, r))
                break
            else:
                out += [(y, r) for y in assume(x, c, 1)]
    return out


def told_sizes(rep):
    P = Program(['utils/os.c', 'utils/log.c', os.path.join(HARN, 'bufs.c')])
    for n in ('sa_strlcpy', 'sa_hex'):
        f = P.harness(n)
        f.parse()
        M = Models(P)
        M.no_api = {'printf_hex', 'sys_strlcpy'}
        E = Engine(P, M, Config(unroll=4, models={'snprintf': formatted}))
        R = E.run(f)
        rep.count('driver functions')
        rep.count('driver paths', len(R.ends))
        for e in R.errors.values():
            if e['kind'] in ('bounds', 'length'):
                rep.viol('out-of-bounds', e['file'], e['function'], e['msg'], e['line'], ['driver ' + n] + list(e['path']))


def v14(tier):
    rep = Report('V14', 'Driver functions in sa/harness call the container API with symbolic contents; the interpreter follows '
                 'every path, including every allocation failure, and checks the assertions about what the container then '
                 'holds and that everything is released exactly once.')
    un = 10 if tier == 'thorough' else 6
    jobs = [(['voucher/array.c', 'voucher/keyvalue.c', 'utils/os.c', 'utils/log.c', os.path.join(HARN, 'lists.c')],
             ('sa_array_list', 'sa_keyvalue_list', 'sa_binary_array')),
            (['utils/os.c', 'utils/log.c', 'voucher/array.c', 'voucher/keyvalue.c', os.path.join(HARN, 'ptrlist.c')], ('sa_ptr_list',))]
    done = 0
    for srcs, names in jobs:
        try:
            P = Program(srcs)
        except BuildError as e:
            rep.notes.append('driver %s does not compile against the current source: %s' % (os.path.basename(srcs[-1]), str(e)[-300:]))
            continue
        for n in names:
            M = Models(P)
            M.no_api = suite.LIST_API
            E = Engine(P, M, Config(unroll=un))
            R = E.run(P.harness(n))
            done += 1
            rep.count('driver functions')
            rep.count('paths to a return', len(R.ends))
            rep.count('interpreted instructions', R.steps)
            for k, c in R.obl.items():
                rep.count('obligations ' + k, c)
            rep.sample('%s: %d paths, %d states' % (n, len(R.ends), R.states))
            for e in R.errors.values():
                rep.viol('container-' + e['kind'], e['file'], e['function'], e['msg'], e['line'], ['driver ' + n] + list(e['path']))
    rep.need(done > 0, 'no container driver compiles against the current source')
    rep.assumptions = ['lists of at most two elements stand for longer ones: the code treats every element alike']
    return rep


def v28(tier):
    return analyse('V28', 'used-before-set', ('unset',), tier,
                   'On every path, a variable, member or part of an allocation that is compared, branched on, followed as a pointer, '
                   'passed to a function, returned or handed out inside an object was written before; memory of ours handed to a '
                   'library function that only reads it was written before.')[1]
