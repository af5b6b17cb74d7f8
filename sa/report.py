"""What a check found, compared with the known findings, written as evidence."""
import json, os, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')
EVID = os.path.join(ROOT, 'evidence')


class Anchor(Exception):
    """the code the rule is about cannot be found or read: the check has no answer"""


class Report:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.counts = {}
        self.viols = {}
        self.samples = []
        self.notes = []
        self.assumptions = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s, cap=40):
        if len(self.samples) < cap and s not in self.samples:
            self.samples.append(s)

    def viol(self, rule, file, function, msg, line=None, path=()):
        """identity: rule, file, function and message (no line numbers)"""
        key = '%s|%s|%s|%s' % (rule, file, function, msg)
        self.viols.setdefault(key, {'rule': rule, 'file': file, 'function': function, 'line': line,
                                    'message': msg, 'path': [str(p) for p in path][-30:], 'key': key})

    def part(self, fn, *a):
        """one part of a check; source in a form it can not follow leaves that part unexamined, which the evidence says"""
        try:
            fn(*a)
            self.count('parts examined')
        except Anchor as e:
            self.notes.append('NOT EXAMINED: %s: %s' % (fn.__name__, e))
            print('not examined: %s: %s' % (fn.__name__, e))
        except Exception as e:
            self.notes.append('NOT EXAMINED: %s: %s' % (fn.__name__, traceback.format_exc()[-600:]))
            print('not examined: %s: %r' % (fn.__name__, e))

    def need(self, cond, what):
        if not cond:
            raise Anchor(what)


def known(prop):
    """known: property=<id> <key> lines (never written at run time)"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            pre = 'known: property=%s ' % prop
            if ln.startswith(pre):
                key, _, what = ln[len(pre):].partition(' ## ')
                out.append((key.strip(), what.strip()))
    return out


def finish(rep, tier, seed, t0):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    kn = dict(known(rep.prop))
    new = {k: v for k, v in rep.viols.items() if k not in kn}
    old = {k: v for k, v in rep.viols.items() if k in kn}
    cov = {'explanation': rep.rule, 'samples': rep.samples, 'notes': rep.notes}
    cov.update({k.replace(' ', '_').replace('-', '_'): v for k, v in sorted(rep.counts.items())})
    cov['known_findings_seen'] = len(old)
    ev = {'property': rep.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(EVID, rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, kn[k] or v['message']))
    rp = os.path.join(EVID, 'replay', rep.prop + '.json')
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, 'w') as f:
            json.dump(list(new.values()), f, indent=1)
        for v in list(new.values())[:25]:
            print('%s: %s:%s: %s: %s' % (v['rule'], v['file'], v['line'], v['function'], v['message']))
        print('VIOLATION property=%s replay=%s' % (rep.prop, os.path.relpath(rp, ROOT)))
        return 1
    print('%s: held (%s)' % (rep.prop, ', '.join('%s %s' % (v, k) for k, v in sorted(rep.counts.items()))))
    return 0
