"""Analyse one entry point and compare it with its reference model."""
import time

from . import interp as I
from . import terms as TM
from .terms import *
from .source import Program, AnchorError
from .compare import Compare, Summary, Proj, GiveUp, Mismatch

_PROG = [None]


def program():
    if _PROG[0] is None:
        from . import tables  # noqa: F401
        import os
        from .source import SPEC
        p = Program()
        for f in sorted(os.listdir(SPEC)):
            if f.endswith('.py') and f != '__init__.py':
                p.add_spec(f)
        _PROG[0] = p
    return _PROG[0]


class Entry(object):
    def __init__(self, qual, spec, types=None, stubs=None, even=(), consts=None, ext=None, budget=None, selftype=None, skip=False,
                 nonnull=()):
        self.qual = qual
        self.specs = [spec] if isinstance(spec, str) else list(spec)
        self.types = types or {}
        self.stubs = stubs or {}
        self.even = even
        self.consts = consts or {}
        if self.specs:
            Program.EXPECTED.setdefault(qual, self.specs[0])
        self.ext = ext or {}
        self.budget = budget
        self.selftype = selftype
        self._cache = {}
        self.nonnull = nonnull

    def missing(self):
        """the anchor, or a function assumed about, that the tree lacks"""
        prog = program()
        for q in [self.qual] + sorted(self.stubs):
            if q.startswith('spec.') or prog.class_by_path(q) is not None:
                continue
            try:
                prog.func(q)
            except AnchorError:
                return q
        return None

    def params(self, fn):
        a = fn.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def syms(self, names, cls):
        out = {}
        for i, p in enumerate(names):
            if p in self.consts:
                out[p] = const(self.consts[p])
            elif i == 0 and (cls is not None):
                out[p] = mk('sym', 'self', 'obj:' + (self.selftype or cls.name), 'exact')
            else:
                t = self.types.get(p)
                nan = t in ('float', 'float?')
                out[p] = mk('sym', p, t.replace('float', 'num') if nan else t)
                if nan:
                    TM.NANABLE.add(out[p])
            if p in self.even:
                TM.EVEN.add(out[p])
        return out

    def default(self, qual, p):
        """value of a parameter's default, None when it has none"""
        prog = program()
        fn = prog.func(qual)
        a = fn.node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        if p not in d:
            return None
        run = I.Run(prog, self.stubs, self.ext)
        st = I.State()
        run.stack.append(run.newframe(None, None, fn.mod.name))
        try:
            return run.rv(st, run.eval_default(st, fn, d[p], []))
        except Exception:
            return mk('opaque', 'default', 0)

    def defaults_differ(self, spec):
        """parameters whose default the reference and the code disagree on"""
        q = 'spec.' + spec
        fn = program().func(self.qual)
        sp = self.params(program().func(q))
        own = self.params(fn)
        out = []
        for i, p in enumerate(sp):
            if i == 0 and fn.cls is not None:
                continue
            c = p if p in own else (own[i] if i < len(own) and own[i] not in sp else None)
            a = self.default(q, p)
            if c is None:
                out.append((p, 'missing'))
                continue
            if a is None:
                continue
            b = self.default(self.qual, c)
            if a is not b:
                out.append((p, c))
        return out

    def order_differs(self, spec):
        sp = self.params(program().func('spec.' + spec))
        own = self.params(program().func(self.qual))
        for i, p in enumerate(sp):
            if p in own and own.index(p) != i:
                return p
        return None

    def analyse(self, qual, names=None, syms=None):
        prog = program()
        fn = prog.func(qual)
        run = I.Run(prog, self.stubs, self.ext)
        if self.budget:
            run.BUDGET = self.budget
        own = self.params(fn)
        if syms is None:
            # the class that is asked for, which may inherit the function
            syms = self.syms(own, fn.cls and (prog.class_by_path(qual.rpartition('.')[0]) or fn.cls))
            names = own
            known = [self.params(prog.func('spec.' + x)) for x in self.specs]
            for i, p in enumerate(own):
                if i and all(p not in k and i >= len(k) for k in known) and self.default(qual, p) is not None:
                    # a parameter that the callers of the documented function do not give
                    del syms[p]
        st = I.State()
        out = []
        run.stack.append(run.newframe(None, None, fn.mod.name))
        args = []
        kw = {}
        for i, p in enumerate(own):
            if p in syms:
                v = syms[p]
            elif i < len(names) and qual.startswith('spec.') and i == 0:
                v = syms[names[0]]
            else:
                v = None
            if v is None:
                # a parameter the reference does not know: its default
                continue
            kw[p] = v
        from .interp import Dead
        try:
            v = run.call_func(st, fn, None, [], kw, out, None)
            out.append(('return', st, v))
        except Dead:
            pass
        return Summary(run, out), syms, names, fn

    def summary(self):
        s = self._cache.get('code')
        if s is None:
            s = self._cache['code'] = self.analyse(self.qual)
        return s

    def reference(self, spec):
        s = self._cache.get(spec)
        if s is None:
            A, syms, names, fn = self.summary()
            q = 'spec.' + spec
            prog = program()
            sfn = prog.func(q)
            own = self.params(sfn)
            # positional correspondence for self, by name for the rest
            m = {}
            for i, p in enumerate(own):
                if p in syms:
                    m[p] = syms[p]
                elif i == 0 and fn.cls is not None:
                    m[p] = syms[names[0]]
                else:
                    if i < len(names) and names[i] not in own:
                        m[p] = syms[names[i]]
            s = self._cache[spec] = self.analyse(q, names, m)
        return s

    def check_defaults(self, sp, proj, max_time):
        """the parameters in the same order, and the call that leaves out the
        optional ones behaves the same"""
        fn = program().func(self.qual)
        p = self.order_differs(sp)
        if p is not None:
            return Mismatch('parameter %s is not at its documented position' % p, node=fn.node), 1
        diff = self.defaults_differ(sp)
        if not diff:
            return None, 1
        miss = [p for p, c in diff if c == 'missing']
        if miss:
            return Mismatch('parameter %s is missing' % miss[0], node=fn.node), 1
        A, syms, names, fn = self.summary()
        gone = {c for p, c in diff}
        keep = {k: v for k, v in syms.items() if k not in gone}
        A2 = self.analyse(self.qual, names, keep)[0]
        q = 'spec.' + sp
        sown = self.params(program().func(q))
        m = {}
        for i, p in enumerate(sown):
            if p in [x for x, c in diff]:
                continue
            if p in keep:
                m[p] = keep[p]
            elif i == 0 and fn.cls is not None:
                m[p] = syms[names[0]]
            elif i < len(names) and names[i] not in sown:
                m[p] = syms[names[i]]
        B2 = self.analyse(q, sown, m)[0]
        if A2.run.opaques:
            raise GiveUp('unmodelled construct: %s' % A2.run.opaques[0])
        c = Compare(A2, B2, proj, max_time=max_time, fresh=syms[names[0]] if fn.name == '__init__' else None)
        r = c.go()
        return r, c.obligations

    def check(self, proj, max_time=60.0):
        """('ok'|'diff'|'undecided', detail, compare)"""
        I.DEADLINE[0] = time.time() + max_time
        try:
            return self.check_specs(proj, max_time)
        finally:
            I.DEADLINE[0] = float('inf')

    def check_specs(self, proj, max_time):
        A, syms, names, fn = self.summary()
        last = None
        obl = 0
        und = None
        for sp in self.specs:
            B = self.reference(sp)[0]
            if B.run.opaques:
                return 'undecided', 'reference model uses an unmodelled construct: %s' % B.run.opaques[:2], obl
            c = Compare(A, B, proj, max_time=max_time, fresh=syms[names[0]] if fn.name == '__init__' else None)
            try:
                r = c.go()
                obl += c.obligations
                if r is None:
                    r, n = self.check_defaults(sp, proj, max_time)
                    obl += n
            except GiveUp as e:
                und = str(e)
                obl += c.obligations
                continue
            if r is None:
                return 'ok', None, obl
            if last is None:
                last = r
        if A.run.opaques:
            return 'undecided', 'unmodelled construct: %s' % '; '.join(A.run.opaques[:3]), obl
        if und is not None:
            return 'undecided', und, obl
        return 'diff', last, obl
