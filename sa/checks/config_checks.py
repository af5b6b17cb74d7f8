"""V15: what a configuration file says is what the components see."""
import os

from ..build import Program, BuildError
from ..engine import Engine, Config
from ..models import Models
from ..report import Report
from .. import suite

HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
CONFIG_API = {'load_brski_config', 'load_pledge_config', 'load_registrar_config', 'load_masa_config', 'free_config_content',
              'free_pledge_config_content', 'free_registrar_config_content', 'free_masa_config_content', 'load_cert_files', 'load_config_value_list'}


_JOB = None


def _one(name):
    P, no_api, attrs, kw = _JOB
    M = Models(P)
    M.no_api = no_api
    for k, v in attrs.items():
        setattr(M, k, v)
    R = Engine(P, M, Config(**kw)).run(P.harness(name))
    return name, len(R.ends), R.steps, R.states, R.obl, R.truncated, list(R.errors.values())


def driver(rep, srcs, names, no_api, file, kinds=None, attrs=None, **kw):
    """interprets driver functions compiled together with the source they drive"""
    global _JOB
    try:
        P = Program(srcs)
    except BuildError as e:
        rep.notes.append('NOT EXAMINED: driver %s does not compile against the current source: %s' % (os.path.basename(srcs[-1]), str(e)[-300:]))
        print('not examined: driver %s' % os.path.basename(srcs[-1]))
        return 0
    kw.setdefault('unroll', 6)
    _JOB = (P, no_api, attrs or {}, kw)
    for name, ends, steps, states, obl, trunc, errors in suite.pmap(_one, names):
        rep.count('driver functions')
        rep.count('paths to a return', ends)
        rep.count('interpreted instructions', steps)
        for k, c in obl.items():
            rep.count('obligations ' + k, c)
        rep.sample('%s: %d paths, %d states' % (name, ends, states))
        if trunc:
            rep.notes.append('%s: stopped at the state limit' % name)
        for e in errors:
            if kinds is None or e['kind'] in kinds:
                f = e['file'] if 'harness' not in e['file'] else file
                fn = e['function'] if 'harness' not in e['file'] else name
                rep.viol(e['kind'], f, fn, e['msg'], e['line'], ['driver ' + name] + list(e['path']))
    return len(names)


def v15(tier):
    rep = Report('V15', 'A driver loads configurations whose keys all have distinct values (the minIni calls are interpreted over a table of '
                 'entries): on every path, every allocation failure included, each member holds the value of its own key or its '
                 'default, lists hold all values in order, and releasing the configuration releases everything once.')
    n = 0
    n += driver(rep, ['brski/config.c', 'voucher/array.c', 'utils/os.c', 'utils/log.c', os.path.join(HARN, 'config.c')],
                ('sa_config_full', 'sa_config_twice', 'sa_config_blank', 'sa_cert_files'), suite.LIST_API | CONFIG_API, 'src/brski/config.c', unroll=80)
    rep.need(n > 0, 'the configuration driver does not compile against the current source')
    return rep
