"""V27: every log message comes out once, whole, at its level, and goes where it was directed."""
import itertools, os

from ..build import Program
from ..engine import Engine, Config, U, iv, new_state
from ..models import Models, rec
from ..report import Report, Anchor
from .. import gates as G, suite
from .server_checks import file_of

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'logd.c')
HOWS = ('log_levels', 'log_errno_error', 'log_error_exit', 'log_error_exit_proc')
NAMES = (b'TRACE', b'DEBUG', b'INFO', b'WARN', b'ERROR')
OUTS = {'fprintf': (0, 1), 'vfprintf': (0, 1), 'fputs': (1, 0), 'fputc': (1, 0), 'putc': (1, 0), '_IO_putc': (1, 0), 'fwrite': (3, 0), 'dprintf': (0, 1),
        'vdprintf': (0, 1), 'printf': (None, 0), 'vprintf': (None, 0), 'puts': (None, 0), 'putchar': (None, 0), 'write': (0, 1), 'perror': (None, 0),
        'syslog': (None, 1), 'vsyslog': (None, 1), 'std::operator_shl': (None, 1)}
ENDS = ('exit', '_exit', '_Exit', 'abort', 'quick_exit')
FMT = b'sa-format %d'


def snap(E, st, src, vals):
    return tuple(E.content(st, v) if isinstance(v, tuple) else v for v in vals)


def flat(t):
    """every leaf of a content term"""
    if isinstance(t, (tuple, list)):
        for x in t:
            yield from flat(x)
    else:
        yield t


def terms(t, kind):
    if isinstance(t, tuple):
        if t and t[0] == kind:
            yield t
        for x in t:
            yield from terms(x, kind)


class Run:
    """the log set up one way, one message written"""

    def __init__(self, P, f, how, level, mn, quiet, meta, color, path, close, locked):
        M = Models(P)
        M.no_api = set(HOWS) | {'print_to', 'log_msg'}
        self.exits = []
        E = self.E = Engine(P, M, Config(record={'*'}, snap=snap, start=True, unroll=4, on_exit=self.on_exit, models={'sa_lock': self.lock}))
        st = new_state()
        p = 0
        if path:
            p = E.lazy(st, 'PATH')
            st.nn['PATH'] = True
        self.R = E.run(f, args=[how, level, mn, quiet, meta, color, p, close, locked][:len(f.params)], st=st)
        self.ends = [(s, None) for s, v, i in self.R.ends] + self.exits

    def lock(self, E, st, inst, av, src):
        rec(E, st, src, av, inst, None)
        return [(st, None)]

    def on_exit(self, E, st, inst, av):
        self.exits.append((st, av[0][1] if av else 'abort'))


_JOB = None


def _one(job):
    P, f = _JOB
    how, level, mn, quiet, meta, color, path, close, locked = job
    out = {'viol': [], 'paths': 0, 'outs': 0, 'job': describe(job), 'steps': 0}
    try:
        k = Run(P, f, *job)
        out['steps'] = k.R.steps
        bad = set()

        def v(rule, msg, line=None):
            if (rule, msg) not in bad:
                bad.add((rule, msg))
                out['viol'].append((rule, msg, line))
        for st, status in k.ends:
            judge(k, st, status, job, out, v)
        if not out['paths']:
            v('reached', 'no path gets to the message')
    except Exception as e:
        out['exc'] = '%s: %s' % (type(e).__name__, e)
    return out


def describe(job):
    how, level, mn, quiet, meta, color, path, close, locked = job
    s = '%s at level %s' % (HOWS[how], NAMES[level].decode())
    if mn >= 0:
        s += ', log_set_level(%s)' % NAMES[mn].decode()
    if quiet >= 0:
        s += ', log_set_quiet(%d)' % quiet
    if meta >= 0:
        s += ', log_set_meta(%d)' % meta
    if color >= 0:
        s += ', log_set_color(%d)' % color
    if path:
        s += ', log file opened' + (' and closed' if close else '')
    if locked:
        s += ', lock set'
    return s


def judge(k, st, status, job, out, v):
    how, level, mn, quiet, meta, color, path, close, locked = job
    E = k.E
    ev = list(G.events(st))
    opened = [e for e in ev if e[0] in ('fopen', 'fopen64', 'fdopen', 'freopen')]
    stream = None
    if path:
        got = [e for e in opened if e[3] != 0 and e[3] is not None]
        if not got:
            return  # the file could not be opened
        stream = got[-1][3]
        for e in got:
            c = e[4]
            if c[0] != ('cont', 'PATH', 0):
                v('file', 'the log file opened is not the one named', e[2])
            m = c[1][1] if isinstance(c[1], tuple) and c[1][0] == 'lit' else b''
            if not m.startswith(b'a'):
                v('file', 'the log file is not opened for appending: what it held is lost', e[2])
        masks = [e for e in ev if e[0] == 'umask']
        at = ev.index(got[-1])
        before = [e for e in masks if ev.index(e) < at]
        after = [e for e in masks if ev.index(e) > at]
        if before and not (after and after[-1][1][0] == before[0][3]):
            v('file', 'the file mode creation mask is not put back after the log file was opened', got[-1][2])
        if before and isinstance(before[-1][1][0], int) and before[-1][1][0] & 0o077 != 0o077:
            v('file', 'others may read the log file', got[-1][2])
    out['paths'] += 1
    if how >= 2 and status is None:
        v('exit', '%s returns' % HOWS[how])
    if how < 2 and status is not None:
        v('exit', '%s ends the program' % HOWS[how])
    if how >= 2 and status is not None and status != 'abort' and (not isinstance(status, int) or status & 0xff == 0):
        v('exit', '%s ends the program with status %s' % (HOWS[how], status))
    mine = [(i, e) for i, e in enumerate(ev) if e[0] in OUTS]
    out['outs'] += len(mine)
    shown = quiet != 1 and (how == 3 or level >= max(mn, 0))
    if not shown:
        if mine:
            v('filter', 'a message that is %s is written' % ('below the level set' if quiet != 1 else 'to be suppressed'), mine[0][1][2])
        return
    if locked:
        locking(ev, mine, v)
    if st.fails:
        return  # a part of the message could not be made
    text = [(i, e, e[4]) for i, e in mine]
    body = [(i, e) for i, e, c in text if FMT in flat(c)]
    if len(body) != 1:
        v('whole', 'the message is written %d times' % len(body) if body else 'a message at or above the level set is not written',
          body[1][1][2] if len(body) > 1 else None)
        return
    want = stream if path and not close else None
    for i, e in mine:
        n = OUTS[e[0]][0]
        t = e[1][n] if n is not None and n < len(e[1]) else None
        if want is not None and t != want:
            v('where', 'part of a message is not written to the log file that is open', e[2])
        if want is None:
            # a closed file or nothing at all: standard error
            ok = isinstance(t, tuple) and t[0] == 'p' and str(t[1]).startswith('@stderr') or t == 2 and e[0] in ('dprintf', 'vdprintf', 'write')
            if not ok:
                v('where', 'part of a message goes somewhere else than standard error', e[2])
    first, bi = mine[0][0], body[0][0]
    pre = [c for i, e, c in text if i <= bi]
    # -- the line ends after the message
    last = text[-1]
    lits = [x for x in flat(last[2]) if isinstance(x, bytes)]
    if not (any(x.endswith(b'\n') for x in lits) or 10 in [x for x in flat(last[2]) if isinstance(x, int)]) or last[0] < bi:
        v('whole', 'the line of a message is not ended', last[1][2])
    # -- what it is about
    if meta != 0:
        leaves = [x for c in pre for x in flat(c)]
        if not any(isinstance(x, bytes) and NAMES[level] in x for x in leaves) or \
                any(isinstance(x, bytes) and any(n in x for j, n in enumerate(NAMES) if j != level) for x in leaves):
            v('meta', 'a message is not marked with its level', text[0][1][2])
        if b'sa-file' not in leaves or 4242 not in leaves:
            v('meta', 'a message does not tell the place it comes from', text[0][1][2])
        when(k, pre, v, text[0][1][2])
    # -- it is there when the call returns
    if path and not close:
        un = any(e[0] in ('setbuf', 'setvbuf') and e[1][:1] == (stream,) and (e[0] == 'setvbuf' and e[1][2] in (1, 2) or e[0] == 'setbuf' and e[1][1] == 0)
                 for e in ev[:first])
        fl = any(e[0] in ('fflush', 'fflush_unlocked') and e[1][0] in (stream, 0) for e in ev[text[-1][0]:])
        if not un and not fl:
            v('whole', 'a message stays in a buffer', text[-1][1][2])
    # -- the error of the moment the call was made
    errno(k, st, ev, job, mine, text, v)


def locking(ev, mine, v):
    """one thread at a time"""
    lk = [(i, e) for i, e in enumerate(ev) if e[0] == 'sa_lock']
    held, cover = 0, True
    for i, e in enumerate(ev):
        if e[0] == 'sa_lock':
            held += 1 if e[1][0] in (1, True) else -1
            if held not in (0, 1):
                v('lock', 'the lock is taken while it is held' if held > 0 else 'the lock is given back without being held', e[2])
                return
        elif e[0] in OUTS and not held:
            cover = False
    if not cover:
        v('lock', 'part of a message is written without the lock', mine[0][1][2])
    if held:
        v('lock', 'the lock is still held when the message is written', lk[-1][1][2])
    if sum(1 for i, e in lk if e[1][0] in (1, True)) > 1:
        v('lock', 'the lock is given back in the middle of a message', lk[-1][1][2])


def when(k, pre, v, line):
    """year, month, day, hours, minutes and seconds, in this order"""
    fm = [t for c in pre for t in terms(c, 'fmt')]
    for t in fm:
        args = t[2:] if not (len(t) == 3 and isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], (tuple, int))) else t[2]
        tm = []
        for a in args:
            add = 0
            if isinstance(a, tuple) and a[0] == 'lin' and len(a[1]) == 1 and a[1][0][1] == 1:
                add, a = a[2], a[1][0][0]
            if isinstance(a, tuple) and a[0] == 's' and '.tm' in str(a[1]):
                tm.append((int(str(a[1]).rsplit('.tm', 1)[1]), add))
        if tm:
            if tm[:6] != [(20, 1900), (16, 1), (12, 0), (8, 0), (4, 0), (0, 0)]:
                v('time', 'the time of a message is not year, month, day, hour, minute and second of the local time', line)
            return
    if not any('strftime' in str(c) for c in pre):
        v('time', 'a message does not tell its time', line)


def errno(k, st, ev, job, mine, text, v):
    how = job[0]
    said = [(i, e) for i, e, c in text if any(terms(c, 'strerror')) or '%m' in str(c)]
    asked = [e for e in ev if e[0] in ('strerror', 'strerror_r')]
    if how == 0:
        if said:
            v('errno', 'a message without an error tells one', said[0][1][2])
        return
    got = [(i, e) for i, e in enumerate(ev) if e[0] == '__errno_location']
    stop = [i for i, e in enumerate(ev) if e[0] in OUTS or e[0] in ('localtime', 'localtime_r', 'gettimeofday', 'strerror')
            or e[0] == 'sa_lock']
    early = [e for i, e in got if not stop or i < min(stop)]
    if not early:
        v('errno', 'the error number is read after other calls may have changed it', got[0][1][2] if got else None)
        return
    vals = set()
    for e in early:
        o = k.E.obj(st, e[3][1])
        # the value found at the call: what its name says, even if it was put back later
        vals.add(('s', '%s.0' % e[3][1], 32))
    for e in asked:
        if e[1][0] not in vals:
            v('errno', 'the error told is not the one of the call that failed', e[2])
    pos = [x for x in vals if iv(st, x)[0] > 0]
    if pos and not said:
        v('errno', 'the error of the failed call is not told', mine[0][1][2])


def v27(tier):
    global _JOB
    rep = Report('V27', 'The log is set up through its public functions, with every combination of message function, level of the message, minimum '
                 'level, quiet, meta data, colour, log file (opened, closed, none) and lock; one message is written and all paths are '
                 'enumerated. Judged on every path: the message comes out exactly once if it is to be shown and nothing comes out '
                 'otherwise; all parts go to the open log file or else to standard error; level, place and time precede it, the line ends '
                 'after it and nothing stays in a buffer; the error told is the one of the failed call; the lock is held from the '
                 'first part to the last and given back; the functions that end the program do, with a failure. The program turns '
                 'its log on exactly if asked to be verbose, and sets the lock before anything is logged.')
    rep.part(messages, rep, tier)
    rep.part(main_log, rep)
    rep.assumptions = ['stdio functions write what they are given', 'standard error is unbuffered']
    return rep


def messages(rep, tier):
    global _JOB
    P = Program(['utils/log.c', HARNESS])
    f = P.harness('sa_log')
    f.parse()
    jobs = []
    for how in range(4):
        for level in range(5):
            for mn in (-1, 0, 1, 2, 3, 4):
                for quiet in (-1, 0, 1):
                    jobs.append((how, level, mn, quiet, 1, 0, 0, 0, 1))
        for meta, color, path, close, locked in itertools.product((-1, 0, 1), (-1, 0, 1), (0, 1), (0, 1), (0, 1)):
            if close and not path:
                continue
            jobs.append((how, 3, -1, -1, meta, color, path, close, locked))
            if tier == 'thorough':
                for level in (0, 1, 2, 4):
                    for mn in (-1, 2, 4):
                        jobs.append((how, level, mn, 0, meta, color, path, close, locked))
    _JOB = (P, f)
    loc = P.fn('log_msg') or P.fn('log_levels')
    for r in suite.pmap(_one, jobs):
        if 'exc' in r:
            rep.notes.append('NOT EXAMINED: %s: %s' % (r['job'], r['exc']))
            rep.count('setups not examined')
            continue
        rep.count('setups')
        rep.count('paths', r['paths'])
        rep.count('output calls judged', r['outs'])
        rep.count('interpreted instructions', r['steps'])
        rep.sample(r['job'])
        for rule, msg, line in r['viol']:
            rep.viol(rule, file_of(loc) if loc else 'src/utils/log.c', loc.name if loc else 'log_msg', msg, line, [r['job']])


def main_log(rep):
    from . import cli_checks as C
    P = Program()
    main = P.fn('main')
    if main is None:
        raise Anchor('main is not defined below src/')
    inits = [f for f in main.mod.fns.values() if f.name.startswith('_GLOBAL__sub_I')]
    rec = set(C.REC) | {'log_set_quiet', 'log_set_level', 'log_set_lock', 'log_levels', 'log_errno_error', 'log_error_exit', 'log_error_exit_proc'}
    # (options, wanted)
    for opts, on in (('c', 0), ('cd', 1), ('dc', 1), ('co', 0)):
        for cmd in ('sign', 'masa', 'registrar', 'epvr'):
            k = C.Cli(P, main, inits, opts, cmd, 1, record=rec)
            for st, v, inst in k.ends:
                ev = list(G.events(st))
                ops = [i for i, e in enumerate(ev) if e[0] in C.MAIN_OPS]
                if not ops:
                    continue
                rep.count('paths of main to its operation')
                before = ev[:ops[0]]
                q = [e for e in before if e[0] == 'log_set_quiet']
                lv = [e for e in before if e[0] == 'log_set_level']
                lk = [i for i, e in enumerate(before) if e[0] == 'log_set_lock']
                quiet = bool(q and q[-1][1][0] not in (0, False))
                if on and quiet:
                    rep.viol('verbose', file_of(main), 'main', 'nothing is logged although -d was given', None, ['brski -%s %s' % (opts, cmd)])
                if on and lv and lv[-1][1][0] != 0:
                    rep.viol('verbose', file_of(main), 'main', 'not every level is logged although -d was given', lv[-1][2], ['brski -%s %s' % (opts, cmd)])
                if not on and not quiet:
                    rep.viol('verbose', file_of(main), 'main', 'the log is on although -d was not given', None, ['brski -%s %s' % (opts, cmd)])
                if not lk or before[lk[0]][1][0] == 0:
                    rep.viol('lock', file_of(main), 'main', 'the log has no lock when the operation starts', None, ['brski -%s %s' % (opts, cmd)])
