"""V21: what the command line asks for is what is done, with the values given, and the exit status tells how it went."""
import itertools, traceback

from ..build import Program
from ..engine import Engine, Config, U, iv, new_state, st_isnull
from ..models import apply, newheap, sget, API, S
from ..report import Report, Anchor
from .. import gates as G, suite
from .server_checks import file_of, unver

SRCS = ['brski/brski.cpp', 'brski/config.c', 'utils/os.c', 'utils/log.c']
OPS = {'epvr': ('voucher_pledge_request_to_base64', 'voucher_pledge_request_to_smimefile'), 'preq': ('post_voucher_pledge_request',),
       'vmasa': ('verify_masa_pledge_request',), 'sign': ('post_sign_cert',), 'serial': ('crypto_getcert_serial',),
       'registrar': ('registrar_start',), 'masa': ('masa_start',)}
# operation -> (argument, part of the configuration)
PARTS = {'voucher_pledge_request_to_base64': {0: 'pconf'}, 'voucher_pledge_request_to_smimefile': {0: 'pconf'},
         'post_voucher_pledge_request': {0: 'pconf', 1: 'rconf', 2: 'mconf'}, 'post_sign_cert': {0: 'pconf', 1: 'rconf', 2: 'mconf'},
         'verify_masa_pledge_request': {0: 'pconf'}, 'registrar_start': {0: 'rconf', 1: 'mconf'},
         'masa_start': {0: 'rconf', 1: 'mconf', 2: 'pconf'}, 'crypto_getcert_serial': {}}
MAIN_OPS = {o for v in OPS.values() for o in v}
OUT = {'std::operator_shl': (None, 1), 'printf': (0, 1), 'fprintf': (1, 2), 'vfprintf': (1, 2), 'vprintf': (0, 1), 'puts': (None, 0), 'fputs': (None, 0), 'fwrite': (None, 0)}
STREAM = {'std::operator_shl': 0, 'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fwrite': 3}
FILES = ('certbuf_to_file', 'keybuf_to_file')
REC = {o for v in OPS.values() for o in v} | set(OUT) | set(FILES) | {'load_brski_config', 'file_to_x509buf', 'exit', '_exit', 'crypto_cert2context',
                                                                         'crypto_getcert_meta', 'serialize_base64str2array', 'serialize_array2base64str'}
OVERRIDES = ('preq', 'sign', 'registrar')
PORT, CPORT = 4444, 1111
NUM = ('strtol', 'strtoul', 'strtoll', 'strtoull', 'atoi', 'atol', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll', '__isoc23_strtoull',
       'std::stoi', 'std::stol', 'std::stoul', 'std::__cxx11::stoi', 'std::__cxx11::stol', 'std::__cxx11::stoul')
MARK = {'o': ('arg', 'o'), 'c': ('arg', 'c'), 'i': ('arg', 'i'), 'a': ('arg', 'a')}


def snap(E, st, src, vals):
    out = {'c': tuple(E.content(st, v) if isinstance(v, tuple) else ('num', v) for v in vals)}
    if src in PARTS and src != 'crypto_getcert_serial' or src in FILES:
        out['arr'] = {i: G.arr(E, st, v) for i, v in enumerate(vals) if isinstance(v, tuple) and v[0] == 'p' and v[1] in st.objs
                      and i not in PARTS.get(src, {})}
    base = st.cont.get('CONF@')
    if base and src in PARTS:
        o = E.obj(st, base[1])
        fo, ro = E.prog.fields('brski_config') or {}, E.prog.fields('registrar_config') or {}
        if 'rconf' in fo:
            b = base[2] + fo['rconf']
            out['port'] = G.peek(E, st, o, b + ro['port'], ('i', 32), 4)
            a = G.peek(E, st, o, b + ro['bind_address'], ('ptr',), 8)
            out['addr'] = ('nul',) if a == 0 or st_isnull(st, a) == 1 else E.content(st, a)
    return out


class Cli:
    """the program entered with one command line: the option parser is given the options one after the other"""

    def __init__(self, P, main, inits, opts, cmd, words, bad=None, record=REC, snap=snap):
        self.P, self.opts = P, opts
        self.exits = []
        M = suite.models_for(P, 'main')
        kw = {n: self.number for n in NUM}
        kw.update(getopt=self.getopt, load_brski_config=self.load)
        E = self.E = Engine(P, M, Config(unroll=24, sticky=True, record=record, snap=snap, models=kw, on_exit=self.on_exit))
        self.script = list(opts) + ([bad] if bad else [])
        self.optstr = set()
        st = None
        for f in inits:
            f.parse()
            R = E.run(f, st=st)
            if len(R.ends) != 1:
                raise Anchor('the initialisers of the file with main are not straight-line code')
            st = R.ends[0][0]
            st.frames.clear()
        if st is None:
            st = new_state()
        st.fails = ()
        a = E.lazy(st, 'ARGV')
        st.nn['ARGV'] = True
        n = 1 + words
        self.argc = n
        E.lazy(st, 'ARG:0')
        st.nn['ARG:0'] = True
        E.poke(st, st.objs['ARGV'], 0, ('p', 'ARG:0', 0), 8)
        if cmd is not None:
            E.lazy(st, 'ARG:cmd')
            st.nn['ARG:cmd'] = True
            st.cont['ARG:cmd'] = ('lit', cmd.encode())
            E.poke(st, st.objs['ARGV'], 8 * n, ('p', 'ARG:cmd', 0), 8)
            n += 1
        E.poke(st, st.objs['ARGV'], 8 * n, 0, 8)
        E.poke(st, E.obj(st, '@optind'), 0, 1, 4)
        main.parse()
        self.R = E.run(main, args=[n, a][:len(main.params)], st=st)
        self.ends = [(s, v, i) for s, v, i in self.R.ends] + self.exits

    def getopt(self, E, st, inst, av, src):
        i = st.cont.get('OPT#', 0)
        st.cont['OPT#'] = i + 1
        lit = E.literal(st, av[2][1])
        self.optstr.add(lit if lit is not None else E.content(st, av[2][1]))
        if i >= len(self.script):
            E.poke(st, E.obj(st, '@optind'), 0, self.argc, 4)
            return [(st, -1)]
        ch = self.script[i]
        oid = 'ARG:' + ch
        E.lazy(st, oid)
        st.nn[oid] = True
        st.cont[oid] = MARK.get(ch, ('arg', ch))
        E.poke(st, E.obj(st, '@optarg'), 0, ('p', oid, 0) if ch in 'coipa' else 0, 8)
        E.poke(st, E.obj(st, '@optopt'), 0, ord(ch), 4)
        return [(st, ord(ch))]

    def number(self, E, st, inst, av, src):
        v = [v for _, v, _ in av]
        c = E.content(st, v[0]) if isinstance(v[0], tuple) else None
        if c is None or 'basic_string' in str(src):
            c = sget(E, st, v[0])
        return [(st, PORT if c == ('arg', 'p') else E.unk(st, inst, inst.a[0]))]

    def load(self, E, st, inst, av, src):
        sp = API.get(src) or S('i0', '01')
        base = av[1][1]
        outs = apply(E, st, inst, av, src, sp)
        fo, ro = E.prog.fields('brski_config') or {}, E.prog.fields('registrar_config') or {}
        for s, v in outs:
            if v == 0 or isinstance(v, tuple) and iv(s, v)[0] >= 0:
                s.cont['CONF@'] = base
                o = E.obj(s, base[1])
                b = base[2] + fo['rconf']
                E.poke(s, o, b + ro['port'], CPORT, 4)
                for n in ('bind_address', 'tls_cert_path'):
                    h = newheap(E, s, inst, 'malloc', tag=n)
                    s.cont[h[1]] = ('cfg', n)
                    E.poke(s, o, b + ro[n], h, 8)
        return outs

    def on_exit(self, E, st, inst, av):
        self.exits.append((st, av[0][1] if av else None, inst))


def zero(st, v):
    return v == 0 or isinstance(v, tuple) and v is not U and iv(st, v) == (0, 0)


def nonzero(st, v):
    if isinstance(v, int):
        return v & 0xff != 0
    lo, hi = iv(st, v) if isinstance(v, tuple) else (0, 1)
    return lo > 0 or hi < 0


def okret(st, r):
    if isinstance(r, tuple) and r[0] == 'p':
        return st_isnull(st, r) == 0
    return r is not None and r is not U and (isinstance(r, int) and r >= 0 or isinstance(r, tuple) and iv(st, r)[0] >= 0)


def core(c):
    """a text, whatever copies were made of it"""
    while isinstance(c, tuple) and len(c) >= 2 and c[0] in ('strdup', 'sys_strdup', 'strndup', 'sys_strndup'):
        c = c[1]
    return c


def judge(c, cmd, opts, res):
    """all ends of a command line that is complete and valid, or lacks the input file its command needs"""
    E = c.E
    fo = E.prog.fields('brski_config') or {}
    need_in = cmd in ('vmasa', 'serial')

    def bad(rule, msg, st=None, inst=None):
        res['viol'].append((rule, msg, E.loc(inst)[1] if inst is not None else None))
    for st, v, inst in c.ends:
        evs = [e for e in G.events(st) if '#' not in e[0]]
        ops = [e for e in evs if any(e[0] in o for o in OPS.values())]
        res['paths'] += 1
        for e in ops:
            if e[0] not in OPS[cmd]:
                bad('wrong-command', 'the command %s runs %s' % (cmd, e[0]), st, inst)
        own = [e for e in ops if e[0] in OPS[cmd]]
        loads = [e for e in evs if e[0] == 'load_brski_config' and okret(st, e[3])]
        for e in own:
            if cmd != 'serial':
                ld = [l for l in loads if evs.index(l) < evs.index(e)]
                if not ld:
                    bad('no-config', 'the command %s runs without the configuration loaded' % cmd, st, inst)
                    continue
                want = ('arg', 'c') if 'c' in opts else ('lit', b'')
                if ld[-1][4]['c'][0] != want:
                    bad('config-file', 'the configuration is not read from the file named with -c', st, inst)
                base = ld[-1][1][1]
                for i, part in PARTS[e[0]].items():
                    if part in fo and e[1][i] != ('p', base[1], base[2] + fo[part]):
                        bad('config-part', '%s is not given the %s part of the loaded configuration' % (e[0], part), st, inst)
                port, addr = e[4].get('port'), e[4].get('addr')
                wp = PORT if 'p' in opts and cmd in OVERRIDES else CPORT
                given = 'a' in opts and cmd in OVERRIDES and not empty(st, ('arg', 'a'))
                wa = ('arg', 'a') if given else ('cfg', 'bind_address')
                if port != wp:
                    bad('port', 'the command %s %s' % (cmd, 'does not use the port given with -p' if wp == PORT else 'does not use the port of the configuration file'), st, inst)
                if core(addr) != wa:
                    bad('address', 'the command %s %s' % (cmd, 'does not use the address given with -a' if given else 'does not use the address of the configuration file'), st, inst)
        res['ops'] += len(own)
        done = [e for e in own if okret(st, e[3])]
        if zero(st, v):
            if not done:
                bad('success-without-doing', 'the command %s exits with success although it %s' % (cmd, 'failed' if own else 'was not carried out'), st, inst)
                continue
            if need_in and 'i' not in opts:
                bad('success-without-doing', 'the command %s exits with success without the input file it needs' % cmd, st, inst)
            output(c, cmd, opts, st, inst, evs, done[-1], bad)
        elif nonzero(st, v):
            if not st.fails and not (need_in and ('i' not in opts or empty(st, ('arg', 'i')))) \
                    and not (cmd == 'vmasa' and not own):
                bad('failure-without-cause', 'the command %s exits with failure although nothing failed' % cmd, st, inst)
        else:
            bad('exit-status', 'the exit status of the command %s does not tell success from failure' % cmd, st, inst)
        inputs(c, cmd, opts, st, inst, evs, own, bad)


def empty(st, c):
    sy = ('s', 'strlen:%r' % (c,), 64, (0, 1 << 40))
    return iv(st, sy) == (0, 0)


def inputs(c, cmd, opts, st, inst, evs, own, bad):
    """the certificates the command works on are those of the files named"""
    files = [e for e in evs if e[0] == 'file_to_x509buf']
    for e in own:
        before = [f for f in files if evs.index(f) < evs.index(e)]
        if cmd in ('vmasa', 'serial'):
            if not before or before[-1][4]['c'][0] != ('arg', 'i'):
                bad('input-file', 'the command %s does not read the certificate named with -i' % cmd, st, inst)
        if cmd == 'vmasa' and before:
            if e[1][2] != before[-1][3]:
                bad('input-file', 'vmasa does not verify with the certificate read from the file named with -i', st, inst)
            a = e[4]['arr'].get(1)
            if not (a and isinstance(a[0], tuple) and 'serialize_base64str2array' in repr(a[0])[:200]):
                bad('input', 'vmasa does not verify the voucher decoded from its input', st, inst)
        if cmd == 'epvr':
            if not before or e[1][1] != before[-1][3] or core(before[-1][4]['c'][0]) != ('cfg', 'tls_cert_path'):
                bad('input-file', 'epvr is not given the registrar certificate of the configuration', st, inst)


def printed(c, st, evs):
    """[content] of the text arguments of everything written to stdout"""
    out = []
    for e in evs:
        if e[0] not in OUT:
            continue
        fmt, first = OUT[e[0]]
        s = STREAM.get(e[0])
        if s is not None and s < len(e[4]['c']) and any(x in repr(e[4]['c'][s]) + repr(e[1][s]) for x in ('stderr', '_ZSt4cerr', '_ZSt4clog')):
            continue
        cs = e[4]['c']
        xs = cs[first:] if fmt is not None else (cs[first],)
        for x in xs:
            if x[0] not in ('lit', 'num'):
                out.append(x)
    return out


def output(c, cmd, opts, st, inst, evs, op, bad):
    """on success the result, and nothing but the result, is where it was asked to be"""
    E = c.E
    named = 'o' in opts and not empty(st, ('arg', 'o'))
    after = evs[evs.index(op):]
    pr = printed(c, st, evs)
    fl = [e for e in after if e[0] in FILES]
    if cmd in ('registrar', 'masa'):
        if pr or fl:
            bad('output', 'the command %s writes output' % cmd, st, inst)
        return
    if cmd == 'serial':
        if pr != [E.content(st, op[3])]:
            bad('output', 'serial does not print the serial number of the certificate', st, inst)
        return
    if cmd == 'epvr':
        if named:
            if op[0] != 'voucher_pledge_request_to_smimefile' or suffixed(op[4]['c'][2]) != b'.smime' or pr:
                bad('output', 'epvr does not write its request to the file named with -o', st, inst)
        elif op[0] != 'voucher_pledge_request_to_base64' or pr != [E.content(st, op[3])]:
            bad('output', 'epvr does not print its request', st, inst)
        return
    spec = {'preq': ((3, 'certbuf_to_file', b'.crt'),), 'vmasa': ((3, 'certbuf_to_file', b'.crt'),),
            'sign': ((3, 'certbuf_to_file', b'.crt'), (4, 'keybuf_to_file', b'.key'))}[cmd]
    if named:
        got = [(e[0], e[4]['arr'].get(0, (None,))[0], suffixed(e[4]['c'][1])) for e in fl if okret(st, e[3])]
        for i, fn, suf in spec:
            if (fn, (op[0], i), suf) not in got:
                bad('output', '%s does not write its %s to the file named with -o' % (cmd, suf[1:].decode()), st, inst)
        if len(got) > len(spec) or pr:
            bad('output', '%s writes more than its result' % cmd, st, inst)
        return
    if fl or pr != [('serialize_array2base64str', 2, (op[0], i)) for i, _, _ in spec]:
        bad('output', '%s does not print its result' % cmd, st, inst)


def suffixed(c):
    """what is appended to the text given with -o"""
    if isinstance(c, tuple) and c[0] == 'cat' and core(c[1]) == MARK['o'] and c[2][0] == 'lit':
        return c[2][1]
    if isinstance(c, tuple) and c[0] == 'fmt' and isinstance(c[1], bytes) and c[1].startswith(b'%s') and b'%' not in c[1][2:] and core(c[2][0]) == MARK['o']:
        return c[1][2:]
    return None


_JOB = None


def _one(job):
    P, main, inits = _JOB
    cmd, opts = job
    res = {'viol': [], 'paths': 0, 'ops': 0, 'steps': 0, 'job': '%s %s' % (cmd, ' '.join('-' + o for o in opts)), 'optstr': []}
    try:
        c = Cli(P, main, inits, [o for o in opts if o != 'bad'], cmd if cmd != 'none' else None, sum(2 if o in 'ciopa' else 1 for o in opts))
        res['steps'] = c.R.steps
        res['optstr'] = [o.decode('latin1') if isinstance(o, bytes) else repr(o) for o in c.optstr]
        reached = {k for st, v, inst in c.ends for e in G.events(st) for k in OPS if e[0] in OPS[k]}
        if len(reached) > 4:
            raise Anchor('the way a command is looked up is not followed: every command is possible')
        if cmd in OPS and not set(opts) & set('hv?:'):
            judge(c, cmd, opts, res)
        else:
            for st, v, inst in c.ends:
                res['paths'] += 1
                ops = [e[0] for e in G.events(st) if any(e[0] in o for o in OPS.values()) or e[0] == 'load_brski_config']
                what = 'help and version' if set(opts) & set('hv') else 'a command line that is not understood'
                if ops:
                    res['viol'].append(('usage', '%s: %s runs' % (what, ops[0]), E_loc(c, inst)))
                if set(opts) & set('hv'):
                    if not zero(st, v):
                        res['viol'].append(('exit-status', 'asking for help or the version exits with failure', E_loc(c, inst)))
                elif not nonzero(st, v):
                    res['viol'].append(('exit-status', 'a command line that is not understood exits with success', E_loc(c, inst)))
    except Exception:
        res['exc'] = traceback.format_exc()[-700:]
    return res


def E_loc(c, inst):
    return c.E.loc(inst)[1] if inst is not None else None


def v21(tier):
    global _JOB
    rep = Report('V21', 'main is entered once per command line: every command with every set of options, commands and options that do '
                 'not exist, and none. The option parser hands out the options of that line; static tables are initialised by '
                 'interpreting their initialisers. On every path: only the operation of that command runs, on the configuration read '
                 'from the file named, with the port and address given taking effect exactly where they should; the exit status is '
                 'zero exactly if the operation and its output succeeded; the result is printed or written under the name given.')
    P = Program()
    main = P.fn('main')
    if main is None:
        raise Anchor('main is not defined below src/')
    inits = [f for f in main.mod.fns.values() if f.name.startswith('_GLOBAL__sub_I')]
    sets = [''.join(s) for n in range(7) for s in itertools.combinations('ciopad', n)]
    if tier != 'thorough':
        sets = [s for s in sets if len(s) <= 2 or len(s) >= 5]
    jobs = [(c, s) for c in OPS for s in sets] + [('bogus', 'c'), ('bogus', ''), ('preqx', 'c'), ('pre', 'c'), ('SIGN', 'c'), ('', 'c'), ('none', 'c'), ('none', 'd')]
    jobs += [(c, s) for c in ('sign', 'masa') for s in ('h', 'v', '?', ':', 'c?', 'co:', 'cp:', 'dh', 'cv')]
    _JOB = (P, main, inits)
    used = set()
    for r in suite.pmap(_one, jobs):
        if 'exc' in r:
            rep.notes.append('NOT EXAMINED: %s: %s' % (r['job'], r['exc']))
            rep.count('command lines not examined')
            continue
        rep.count('command lines')
        rep.count('paths to an exit', r['paths'])
        rep.count('operations judged', r['ops'])
        rep.count('interpreted instructions', r['steps'])
        used |= set(r['optstr'])
        rep.sample(r['job'] + ': %d paths' % r['paths'])
        for rule, msg, line in r['viol']:
            rep.viol(rule, file_of(main), 'main', msg, line, ['command line: ' + r['job']])
    for o in used:
        if ':' not in o and not o.startswith("b'"):
            continue
        s = o.lstrip(':+-')
        for ch in 'ciopa':
            if ch + ':' not in s:
                rep.viol('options', file_of(main), 'main', 'the option -%s does not take a value' % ch)
        for ch in 'dhv':
            if ch not in s or ch + ':' in s:
                rep.viol('options', file_of(main), 'main', 'the option -%s is not a flag' % ch)
    rep.assumptions = ['getopt behaves as POSIX says', 'the operations behave as their own properties say']
    return rep
