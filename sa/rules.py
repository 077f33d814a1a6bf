"""Running the rules of a property and reporting what was decided."""
import contextlib
import ctypes
import json
import os
import sys
import threading
import time
import traceback

from . import engine
from .compare import Proj, GiveUp, Mismatch
from .source import AnchorError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class OutOfTime(BaseException):
    pass


@contextlib.contextmanager
def watchdog(seconds):
    """end the enclosed analysis when it takes longer"""
    me = threading.get_ident()
    t = threading.Timer(seconds, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(OutOfTime)))
    t.daemon = True
    t.start()
    try:
        yield
    finally:
        t.cancel()


class Finding(object):
    """one violation: the rule, the construct, and what is wrong"""

    def __init__(self, rule, construct, text, line=None, file=None):
        self.rule = rule
        self.construct = construct
        self.text = text
        self.line = line
        self.file = file

    def key(self):
        return '%s %s' % (self.rule, self.construct)

    def __str__(self):
        return '%s at %s (%s:%s): %s' % (self.rule, self.construct, self.file, self.line, self.text)


class Result(object):
    def __init__(self):
        self.findings = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.units = []       # analysed functions
        self.notes = []

    def add(self, n, ok=True):
        self.obligations += n
        if ok:
            self.discharged += n


def behaviour(key, proj=None, what=''):
    """rule: the entry behaves as its reference model, under a projection"""
    proj = proj or Proj()

    def rule(res, ctx):
        from .entries import ENTRIES
        e = ENTRIES[key]
        t = time.time()
        lost = e.missing()
        if lost:
            # renamed or dissolved into its callers: nothing to compare with
            res.undecided.append({'rule': key, 'why': 'no function %s in the analysed tree' % lost})
            res.obligations += 1
            return
        left = ctx['deadline'] - t
        if left <= 0:
            res.undecided.append({'rule': key, 'why': 'time budget of the check'})
            return
        limit = min(ctx['per_entry'], left)
        try:
            with watchdog(limit * 1.5 + 5):
                status, detail, obl = e.check(proj, max_time=limit)
        except OutOfTime:
            status, detail, obl = 'undecided', 'time limit of the analysis', 1
        except AnchorError:
            raise
        except RecursionError as x:
            status, detail, obl = 'undecided', 'analysis recursion limit', 1
        except Exception as x:
            if ctx.get('debug'):
                traceback.print_exc()
            status, detail, obl = 'undecided', 'analysis failure %r' % (x,), 1
        fn = engine.program().func(e.qual)
        unit = {'entry': e.qual, 'file': fn.mod.path, 'line': fn.node.lineno, 'reference': e.specs, 'status': status,
                'obligations': obl, 'wall_s': round(time.time() - t, 3)}
        try:
            if status == 'undecided' and not e._cache:
                raise ValueError
            with watchdog(10):
                A = e.summary()[0]
            unit['inlined'] = sorted(A.run.inlined)
            unit['exits'] = len(A.exits)
            unit['loops'] = len(A.run.loops)
        except (Exception, OutOfTime):
            pass
        res.units.append(unit)
        res.obligations += max(obl, 1)
        if status == 'ok':
            res.discharged += max(obl, 1)
        elif status == 'undecided':
            res.undecided.append({'rule': key, 'why': str(detail)})
        else:
            node = detail.node
            line = getattr(node, 'lineno', None) or fn.node.lineno
            res.findings.append(Finding('behaviour/' + key, e.qual, detail.text(900), line, fn.mod.path))
    rule.key = key
    rule.proj = proj
    return rule


def load_known(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def run_property(pid, tier, seed, debug=False):
    from .props import PROPS
    p = PROPS[pid]
    t0 = time.time()
    res = Result()
    ctx = {'deadline': t0 + (240 if tier == 'quick' else 780), 'per_entry': 45.0 if tier == 'quick' else 240.0, 'tier': tier, 'debug': debug}
    for r in p['rules']:
        try:
            with watchdog(ctx['deadline'] + 60 - t0):
                r(res, ctx)
        except OutOfTime:
            res.undecided.append({'rule': getattr(r, 'key', getattr(r, '__name__', '?')), 'why': 'time limit of the analysis'})
            res.obligations += 1
    if tier == 'thorough':
        from . import selftest
        selftest.sensitivity(pid, p, res, ctx, seed)
    known = load_known(pid)
    fresh = []
    for f in res.findings:
        hit = [k for k in known if f.key() in k]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else:
            fresh.append(f)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': p['explain'],
            'rule': 'each listed function is analysed from its current source into a gated value graph (path conditions, effects in '
                    'order, exits, field updates; loops as fixed points) and compared with the reference model on every case split; '
                    'structural rules enumerate the sites listed under rules',
            'obligations': res.obligations, 'discharged': res.discharged,
            'functions': len(res.units), 'units': res.units, 'undecided': res.undecided, 'notes': res.notes,
            'samples': [{'entry': u['entry'], 'reference': u.get('reference'), 'status': u['status'],
                         'obligations': u.get('obligations')} for u in res.units[:5]],
        },
        'assumptions': p.get('assume', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3), 'violations': len(fresh),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d functions, %d obligations, %d discharged, %d undecided, %d findings, %.1fs' % (
        pid, len(res.units), res.obligations, res.discharged, len(res.undecided), len(res.findings), time.time() - t0))
    for u in res.undecided:
        print('UNDECIDED %s: %s' % (u['rule'], u['why'][:300]))
    if fresh:
        path = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as f:
            for x in fresh:
                f.write(str(x) + '\n')
        for x in fresh:
            print('  ' + str(x))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    'Python 3 semantics (the Python 2 branches selected by sys.version_info are not analysed)',
    'library functions behave as documented; each call into the standard library, pyserial or sockets is an event with an unknown result',
    'no monkey patching of module attributes at run time, and callers pass values of the documented types',
]
