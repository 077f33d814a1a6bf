"""Deciding whether two value graphs describe the same observable behaviour.

A summary (events in order, exits, net stores) of a function of the analysed
tree is compared with the summary of its reference model.  Wherever the two
summaries are not already the same node, the comparison splits on the branch
conditions that select between alternatives, under a small equality / linear
theory, and compares what is left.  No solver, no execution.
"""
import os
import math
import time
from fractions import Fraction

from .terms import *
from .terms import _cmp_rel, _is_lit
from . import terms as TM
from . import interp as I
from .interp import Ev, Loop
from .builtin_model import reify


TOK = [0]


class GiveUp(Exception):
    pass


def lits_of(c):
    return list(c.args) if c.op == 'and' else [c]


class Env(object):
    __slots__ = ('lits', 'lset', 'sub', 'luids', 'memo', 'n', 'zero')

    def __init__(self):
        self.lits = []
        self.lset = set()
        self.sub = {}
        self.luids = {}
        self.memo = {}
        self.n = 0
        self.zero = {}      # loops that do not run: id -> what they start from

    def copy(self):
        e = Env()
        e.lits = list(self.lits)
        e.lset = set(self.lset)
        e.sub = dict(self.sub)
        e.luids = dict(self.luids)
        e.n = self.n
        e.zero = self.zero
        return e

    def assume(self, c):
        """new environment with c; None when c contradicts what is known"""
        e = self.copy()
        for l in lits_of(c):
            if not e._add(l):
                return None
        return e

    def _add(self, l):
        if l is TRUE or l in self.lset:
            return True
        if l is FALSE:
            return False
        if l.op == 'or':
            self.lits.append(l)
            self.lset.add(l)
            return True
        v = self.under(l)
        if v is False:
            return False
        self.lits.append(l)
        self.lset.add(l)
        t = self.tighter(l)
        if t is not None and not self._add(t):
            return False
        if l.op == 'eq' and is_const(l.args[1]):
            x, c = l.args
            if x.op not in ('lin', 'const'):
                self.sub[x] = c
                if x.op == 'modulo' and c is const(0):
                    for k in list(self.lits):
                        t = self.tighter(k)
                        if t is not None and not self._add(t):
                            return False
                if x.op == 'modulo' and c is const(0) and is_num_const(x.args[1]) and isinstance(x.args[1].args[0], int):
                    # divisible: the rounded quotients are exact
                    k = abs(x.args[1].args[0])
                    for j in range(2, k + 1):
                        if k % j == 0:
                            for q in (Fraction(1, j), Fraction(-1, j)):
                                e = scale(x.args[0], q)
                                for r in range(min(j, 8)):
                                    f = floor(add(e, const(Fraction(r, j))) if r else e)
                                    if f.op == 'floor':
                                        self.sub[f] = e
            elif x.op == 'lin' and is_num_const(c):
                # solve for one unknown
                cst, d = linparts(x)
                for t, k in d.items():
                    if t.op not in ('len', 'hlen', 'it', 'phi') and k in (1, -1):
                        rest = dict(d)
                        del rest[t]
                        self.sub[t] = scale(sub(const(c.args[0] - cst), mklin(0, rest)), k)
                        break
        elif l.op == 'eq':
            a, b = l.args
            if a.id > b.id:
                self.sub[a] = b
            else:
                self.sub[b] = a
        elif l.op == 'not':
            t = l.args[0]
            if t.op == 'le' and t.args[0].op in ('len', 'hlen') and t.args[1] >= 0:
                if not self._add(neg_b(eq(t.args[0].args[0], NONE))):
                    return False
            if t.op == 'eq' and t.args[1] is NONE and t.args[0].op == 'dget' and not is_const(t.args[0].args[1]):
                # what is there: looking it up either way
                g = t.args[0]
                self.sub[mk('idx', g.args[0], g.args[1])] = g
            x = t.args[0] if t.op == 'truth' else t.args[0] if t.op == 'eq' and is_const(t.args[1]) and not t.args[1].args[0] else None
            if x is not None and x.op not in ('lin', 'const'):
                # false, hence None or the empty value of its type
                empty = const({'int?': 0, 'num?': 0, 'str?': ''}.get(ty(x), None))
                if empty is not NONE and neg_b(TM.mk('truth', x)) in self.lset:
                    if neg_b(eq(x, NONE)) in self.lset:
                        if not self._add(eq(x, empty)):
                            return False
                    elif neg_b(eq(x, empty)) in self.lset and not self._add(eq(x, NONE)):
                        return False
        elif l.op == 'isinst' and l.args[2] != 'sub' or l.op == 'truth':
            if not self._add(neg_b(eq(l.args[0], NONE))):
                return False
        elif l.op == 'le' and l.args[0].op in ('len', 'hlen') and l.args[1] == 0:
            self.sub[l.args[0]] = const(0)
        return True

    def tighter(self, l):
        """a bound on a multiple of k, moved to the next multiple"""
        y = l.args[0] if l.op == 'not' else l
        if y.op != 'le' or y.args[0].op in ('lin', 'const') or not isinstance(y.args[1], int):
            return None
        x, b = y.args
        for m, c in self.sub.items():
            if m.op == 'modulo' and c is const(0) and m.args[0] is x and is_num_const(m.args[1]) and isinstance(m.args[1].args[0], int):
                k = abs(m.args[1].args[0])
                if k > 1 and l.op == 'le' and b % k:
                    return le(x, const(b - b % k))
                if k > 1 and l.op == 'not' and (b + 1) % k:
                    return neg_b(le(x, const(b + k - (b + 1) % k)))
        return None

    def under(self, x):
        if x in self.lset:
            return True
        nx = neg_b(x)
        if nx in self.lset:
            return False
        for l in self.lits:
            if l.op == 'or':
                continue
            r = _cmp_rel(l, x)
            if r == 'imp':
                return True
            if r == 'con':
                return False
        return None


BOOL = {'and', 'or', 'not', 'le', 'eq', 'truth', 'exc', 'isinst', 'cmp'}


def after(lu, x):
    """value of x when the loop (or each of several) ends: its carried leaves are the last ones"""
    if x.op == 'eta' and isinstance(lu, dict):
        return x
    if x.op in ('it', 'mu', 'acc', 'MU') and (x.args[0] in lu if isinstance(lu, dict) else x.args[0] == lu):
        r = mk('eta', x.args[0], x)
        if r._ty is None:
            r._ty = (ty(x),)
        return r
    if x.op == 'phi':
        return phi(after(lu, x.args[0]), after(lu, x.args[1]), after(lu, x.args[2]))
    if x.op in ('and', 'or'):
        return (band if x.op == 'and' else bor)(*[after(lu, y) for y in x.args])
    ch = children(x)
    nk = [after(lu, c) for c in ch]
    return x if all(p is q for p, q in zip(ch, nk)) else rebuild(x, nk)


def start(lu, info, t):
    """what t is before the first iteration"""
    def f(x):
        if x.op in ('it', 'mu', 'acc') and x.args[0] == lu:
            if x.op == 'it':
                return const(0)
            if x.op == 'acc':
                return EMPTYSEQ
            if x.args[1] in info.mus:
                return info.mus[x.args[1]][0]
        return None
    return TM.subst(t, f, {})


def phi_leaves(t):
    if t.op == 'phi':
        return phi_leaves(t.args[1]) | phi_leaves(t.args[2])
    return {t}


def simp(env, t):
    memo = env.memo
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'const':
        return t
    s = env.sub.get(t)
    if s is not None:
        r = simp(env, s) if s is not t else t
        memo[t] = r
        return r
    memo[t] = t          # cycle guard for self substitutions
    if op == 'phi':
        c = simp(env, t.args[0])
        if c is TRUE:
            r = simp(env, t.args[1])
        elif c is FALSE:
            r = simp(env, t.args[2])
        else:
            r = phi(c, simp(env, t.args[1]), simp(env, t.args[2]))
            if r.op == 'phi' and r.args[0] is not c and r is not t:
                # turned around
                r = simp(env, r)
    elif op in ('and', 'or'):
        parts = []
        r = None
        for x in t.args:
            y = simp(env, x)
            if op == 'and' and y is FALSE or op == 'or' and y is TRUE:
                r = y
                break
            parts.append(y)
        if r is None:
            r = band(*parts) if op == 'and' else bor(*parts)
            if r.op in ('and', 'or') and r is not t and (r in env.lset):
                r = TRUE
    elif op == 'eta':
        lu = env.luids.get(t.args[0], t.args[0])
        if t.args[0] in env.zero:
            r = simp(env, start(t.args[0], env.zero[t.args[0]], t.args[1]))
            memo[t] = r
            return r
        x = simp(env, t.args[1])
        r = mk('eta', lu, x) if x.op not in ('phi', 'lin') else simp(env, after(lu, x))
        if t.args[1].op == 'acc' and t.args[1].args in TM.ACC_LEN:
            n = TM.ACC_LEN[t.args[1].args][1]
            c = le(simp(env, n), const(0)) if n is not None else FALSE
            if c is TRUE or c is not FALSE and env.under(c):
                memo[t] = EMPTYSEQ
                return EMPTYSEQ
        if r._ty is None:
            r._ty = (ty(t),)
        s = env.sub.get(r)
        if s is not None:
            r = s
    else:
        ch = children(t)
        if not ch:
            r = t
        else:
            nk = [simp(env, c) for c in ch]
            if all(p is q for p, q in zip(ch, nk)):
                r = t
            else:
                r = rebuild(t, nk)
                if r.op == 'phi' and op != 'phi':
                    # a selection that came about by rebuilding
                    r = simp(env, r)
                if r.op in ('call', 'apply', 'ext', 'post', 'fld') and r._ty is None:
                    k = ty(t)
                    if k is not None and I.EXT_TYPES.get(r) is None:
                        I.EXT_TYPES[r] = k
                s = env.sub.get(r)
                if s is not None and s is not r:
                    r = s
        if r.op == 'len' and r.args[0].op == 'slice' and is_num_const(r.args[0].args[1]) and is_const(r.args[0].args[2]):
            n = simp(env, TM.mklen(r.args[0].args[0]))
            if is_num_const(n):
                r = const(len(range(int(n.args[0]))[r.args[0].args[1].args[0]:r.args[0].args[2].args[0]]))
        if r.op == 'call' and r.args[0] == 'hexstr':
            n = simp(env, TM.mklen(r.args[1]))
            if is_num_const(n) and n.args[0] <= 64:
                r = TM.cat(*[mk('fmt', r.args[2].args[0], TM.idx(r.args[1], const(i))) for i in range(int(n.args[0]))] or [const('')])
        if r.op == 'slice' and is_num_const(r.args[1]) and is_num_const(r.args[2]) and r.args[1].args[0] >= 0 and \
                r.args[2].args[0] == r.args[1].args[0] + 1 and TM.base_ty(r.args[0]) == 'bytes':
            c = le(TM.mklen(r.args[0]), r.args[1])
            if c is FALSE or env.under(c) is False:
                r = mk('enc', 'B', TM.idx(r.args[0], r.args[1]))
        if r.op == 'call' and r.args[0] == 'from_bytes' and r.args[2] is const('big') and is_const(r.args[3]):
            n = simp(env, TM.mklen(r.args[1]))
            for k, code in ((1, 'Bb'), (2, 'Hh'), (4, 'Ii'), (8, 'Qq')):
                if n is const(k) or env.under(TM.eq(n, const(k))):
                    r = TM.dec(code[1 if r.args[3] is TM.TRUE else 0], r.args[1], const(0))
                    break
        if r.op == 'padto' and not is_const(r.args[1]):
            # nothing is cut: the value and what fills it up
            n = TM.mklen(r.args[1])
            if env.under(le(n, r.args[0])):
                r = TM.cat(r.args[1], simp(env, TM.padto(sub(r.args[0], n), const(b''))))
        if r.op == 'dict' and r.args[0] is not EMPTYSEQ:
            # entries that store what is there already
            base, items = r.args
            keep = {}
            for k, v in items:
                g = simp(env, TM.dget(base, k))
                if v is ABSENT and g is NONE or v is g and g is not NONE:
                    continue
                keep[k] = v
            if len(keep) < len(items):
                r = TM.mkdict(base, keep) if keep else base
        if r.op in BOOL and r.op not in ('and', 'or'):
            v = env.under(r)
            if v is not None:
                r = TRUE if v else FALSE
    memo[t] = r
    return r


def pick_phi(t, seen=None):
    """condition of an undetermined selection inside t (innermost first)"""
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    if t.op == 'phi':
        return pick_atom(t.args[0], seen)
    for c in children(t):
        r = pick_phi(c, seen)
        if r is not None:
            return r
    return None


def pick_atom(c, seen=None):
    while True:
        if c.op in ('and', 'or'):
            # prefer plain literals
            best = None
            for x in c.args:
                if x.op not in ('and', 'or'):
                    best = x
                    break
            c = best if best is not None else c.args[0]
            continue
        if c.op == 'not':
            c = c.args[0]
            continue
        break
    p = pick_phi(c, set())
    if p is not None:
        return p
    return c


# ------------------------------------------------------- linear consistency

def linear_consistent(lits, extra=()):
    """False when the linear literals cannot hold together"""
    cons = []       # (dict, const): sum + const <= 0
    eqs = []
    terms = set()

    def add_le(L, b):
        c, d = linparts(L)
        cons.append((dict(d), Fraction(c) - b))
        terms.update(d)

    for l in list(lits) + list(extra):
        if l.op == 'le':
            add_le(l.args[0], l.args[1])
        elif l.op == 'not' and l.args[0].op == 'le':
            L, b = l.args[0].args
            # L > b ; integers: L >= b + 1
            c, d = linparts(L)
            isint = all(ty(x) in ('int', 'int?') for x in d) and isinstance(b, int)
            nb = b + 1 if isint else b
            cons.append(({k: -v for k, v in d.items()}, -Fraction(c) + nb))
            terms.update(d)
        elif l.op == 'eq' and (is_numeric(l.args[0]) or l.args[0].op == 'lin') and \
                (is_num_const(l.args[1]) or l.args[1].op == 'lin' or is_numeric(l.args[1])):
            if is_const(l.args[1]) and not is_num_const(l.args[1]):
                continue
            if is_num_const(l.args[1]) and isinstance(l.args[1].args[0], float):
                continue
            s = sub(l.args[0], l.args[1])
            c, d = linparts(s)
            cons.append((dict(d), Fraction(c)))
            cons.append(({k: -v for k, v in d.items()}, -Fraction(c)))
            terms.update(d)
    # a whole number between two bounds that leave only what it is not
    low, high = {}, {}
    for l in list(lits) + list(extra):
        y = l.args[0] if l.op == 'not' else l
        if y.op == 'le' and isinstance(y.args[1], int):
            if l.op == 'le':
                high[y.args[0]] = min(y.args[1], high.get(y.args[0], y.args[1]))
            elif all(ty(x) in ('int', 'int?') for x in linparts(y.args[0])[1]):
                low[y.args[0]] = max(y.args[1] + 1, low.get(y.args[0], y.args[1] + 1))
    if low:
        for l in list(lits) + list(extra):
            if l.op == 'not' and l.args[0].op == 'eq' and is_num_const(l.args[0].args[1]):
                x, v = l.args[0].args[0], l.args[0].args[1].args[0]
                if x in low and low[x] == high.get(x) == v:
                    return False
    for t in list(terms):
        if t.op == 'modulo' and is_num_const(t.args[1]) and isinstance(t.args[1].args[0], int) and t.args[1].args[0] > 0:
            cons.append(({t: -1}, Fraction(0)))
            cons.append(({t: 1}, Fraction(1 - t.args[1].args[0])))
        if t.op in ('len', 'hlen', 'it') or (t.op == 'eta' and t.args[1].op == 'it'):
            cons.append(({t: -1}, Fraction(0)))
        if t.op == 'len' and t.args[0].op == 'slice' and t.args[0].args[2] is NONE and is_num_const(t.args[0].args[1]) and \
                t.args[0].args[1].args[0] >= 0:
            # what a slice leaves out
            c, d = linparts(TM.mklen(t.args[0].args[0]))
            e = dict(d)
            e[t] = e.get(t, 0) - 1
            cons.append((e, Fraction(c) - t.args[0].args[1].args[0]))
            terms.update(d)
        if t.op == 'dec' and t.args[0] in TM.CODE_SIZE and t.args[0] in 'BHIQ':
            cons.append(({t: -1}, Fraction(0)))
            cons.append(({t: 1}, Fraction(-(256 ** TM.CODE_SIZE[t.args[0]] - 1))))
        if t.op == 'floor':
            c, d = linparts(t.args[0])
            e = {k: -v for k, v in d.items()}
            e[t] = e.get(t, 0) + 1
            cons.append((e, -Fraction(c)))
            e2 = dict(d)
            e2[t] = e2.get(t, 0) - 1
            cons.append((e2, Fraction(c) - 1))
            terms.update(d)
    mult = {}
    for l in list(lits) + list(extra):
        if l.op == 'eq' and l.args[0].op == 'modulo' and l.args[1] is const(0) and is_num_const(l.args[0].args[1]) and \
                isinstance(l.args[0].args[1].args[0], int):
            mult[l.args[0].args[0]] = abs(l.args[0].args[1].args[0])
    if mult:
        # a sum of multiples of g stays below the next multiple
        for i, (d, c) in enumerate(cons):
            if len(d) and any(t in mult for t in d) and all(Fraction(k).denominator == 1 and ty(t) in ('int', 'int?') for t, k in d.items()):
                g = 0
                for t, k in d.items():
                    g = math.gcd(g, int(k) * mult.get(t, 1))
                if g > 1:
                    cons[i] = (d, Fraction(-((-c) // g) * g))
    for t in sorted(terms, key=lambda x: x.id):
        pos, neg_, rest = [], [], []
        for d, c in cons:
            k = d.get(t, 0)
            if k > 0:
                pos.append((d, c, k))
            elif k < 0:
                neg_.append((d, c, -k))
            else:
                rest.append((d, c))
        if len(pos) * len(neg_) > 400:
            return True
        for dp, cp, kp in pos:
            for dn, cn, kn in neg_:
                e = {}
                for x, v in dp.items():
                    e[x] = e.get(x, 0) + Fraction(v) / kp
                for x, v in dn.items():
                    e[x] = e.get(x, 0) + Fraction(v) / kn
                e = {x: v for x, v in e.items() if v != 0 and x is not t}
                c = cp / kp + cn / kn
                if not e:
                    if c > 0:
                        return False
                else:
                    rest.append((e, c))
        cons = rest
        if len(cons) > 600:
            return True
    return all(c <= 0 for d, c in cons if not d)


def or_consistent(env, depth=0):
    return True


# ------------------------------------------------------------------ summary

class Exit(object):
    __slots__ = ('kind', 'pc', 'payload', 'stores', 'cls')


class Summary(object):
    """observables of one analysed entry"""

    def __init__(self, run, out, params=()):
        self.run = run
        self.trace = run.trace
        self.exits = []
        for k, s, p in out:
            if s is None or s.pc is FALSE:
                continue
            e = Exit()
            e.kind = k
            e.pc = s.pc
            e.cls = None
            if k == 'raise':
                e.cls = p
                e.payload = NONE
            else:
                e.payload = reify(run, s, p) if isinstance(p, T) else NONE
            st = {}
            for (b, f), v in s.store.items():
                if isinstance(b, int):
                    continue
                if b.op == 'obj':
                    continue
                if f == '$':
                    if b.op == 'fld':
                        key = (b.args[0], b.args[1])
                        if (b.args[0], b.args[1]) in s.store:
                            # the field was also reassigned: the mutated
                            # container is the one the field held before
                            key = (b, '$')
                    else:
                        key = (b, '$')
                    if b.op in ('lst', 'tup', 'dict', 'cat', 'const'):
                        continue
                    st[key] = reify(run, s, b)
                    continue
                st[(b, f)] = reify(run, s, v) if isinstance(v, T) else NONE
            e.stores = I.StoreDict(st)
            e.stores.ver = dict(s.ver)
            self.exits.append(e)


class Proj(object):
    """which observables a comparison looks at"""

    def __init__(self, events=True, raises=True, stores=True, returns=True, skip_events=(), only_events=None,
                 skip_fields=(), only_fields=None, any_exc=False, truth=False, raise_stores=True,
                 trace=False, closes=False):
        self.raise_stores = raise_stores
        self.events = events
        self.raises = raises
        self.stores = stores
        self.returns = returns
        self.skip_events = set(skip_events) | (set() if trace else {'trace'}) | {'print', 'file.flush'} | {'file.close'} | (set() if closes else {'zipfile.close'})
        self.only_events = only_events
        self.skip_fields = set(skip_fields)
        self.only_fields = set(only_fields) if only_fields is not None else None
        self.any_exc = any_exc
        self.truth = truth          # only whether the result is true matters

    def ev(self, kind):
        if not self.events:
            return False
        if kind in self.skip_events:
            return False
        if self.only_events is not None:
            return any(kind == k or (k.endswith('*') and kind.startswith(k[:-1])) for k in self.only_events)
        return True

    def field(self, b, f):
        if not self.stores or f == '@closed':
            return False
        if self.only_fields is not None:
            return f in self.only_fields
        return f not in self.skip_fields


VERBOSE = os.environ.get('SA_VERBOSE')


class Mismatch(object):
    def __init__(self, what, a=None, b=None, env=None, node=None):
        self.what = what
        self.a = a
        self.b = b
        self.lits = list(env.lits) if env else []
        self.node = node

    def text(self, n=300):
        n = 9000 if VERBOSE else n
        s = self.what
        if self.a is not None or self.b is not None:
            s += ': found %s, expected %s' % (_cut(self.a, n), _cut(self.b, n))
        if self.lits:
            s += ' [when %s]' % _cut(' and '.join(show(l, 4) for l in (self.lits if VERBOSE else self.lits[:8])), n)
        return s


def _cut(x, n):
    if isinstance(x, T):
        x = show(x, 6)
    x = str(x)
    return x if len(x) <= n else x[:n] + '...'


class Compare(object):
    def __init__(self, A, B, proj, max_leaves=60000, max_time=60.0, fresh=None):
        self.A = A
        self.B = B
        self.proj = proj
        self.leaves = 0
        self.relate = False
        self.steps = 0
        self.max_leaves = max_leaves
        self.deadline = time.time() + max_time
        self.obligations = 0
        self._silent = {}
        self._used = {}
        self.toks = {}
        self.ended = {}
        self.links = []
        self.objs = {}
        self.fresh = fresh      # the object under construction

    # ---- top level
    def go(self):
        ea = [(x.kind, x.pc, x.payload, x.stores, x.cls) for x in self.A.exits]
        eb = [(x.kind, x.pc, x.payload, x.stores, x.cls) for x in self.B.exits]
        ta = self.useful(self.A.trace, self.refs(self.A)[0])
        tb = self.useful(self.B.trace, self.refs(self.B)[0])
        r = self.dfs(Env(), ta, tb, ea, eb, None)
        if r is not None and not self.relate:
            # once more, with what is known of each two carried values together
            again = Compare(self.A, self.B, self.proj, self.max_leaves, max(1, min(20, self.deadline - time.time())), self.fresh)
            again.relate = True
            try:
                if again.go() is None:
                    self.obligations += again.obligations
                    return None
            except GiveUp:
                pass
        return r

    # ---- loops worth looking at
    def refs(self, S):
        """(loops, loop-carried nodes) that observable terms depend on"""
        key = id(S)
        r = self._used.get(key)
        if r is not None:
            return r
        loops = set()
        nodes = set()
        seen = set()
        todo = []

        def loop(lu):
            if isinstance(lu, int) and lu not in loops:
                loops.add(lu)
                info = S.run.loops.get(lu)
                if info is not None and info.X is not None:
                    todo.append(info.X)

        def term(t):
            todo.append(t)
            while todo:
                for x in walk(todo.pop(), seen):
                    if x.op in ('eta', 'it', 'mu', 'acc') and isinstance(x.args[0], int):
                        loop(x.args[0])
                        if x.op in ('mu', 'acc') and x not in nodes:
                            nodes.add(x)
                            info = S.run.loops.get(x.args[0])
                            if info is not None:
                                if x.op == 'mu':
                                    if x.args[1] in info.mus:
                                        todo.extend(info.mus[x.args[1]])
                                elif x.args[1] in info.accs:
                                    todo.append(info.accs[x.args[1]])

        def events(tr):
            for e in tr:
                if isinstance(e, Loop):
                    if not self.silent(e):
                        loop(e.luid)
                        term(e.pc)
                        term(e.X)
                        events(e.body)
                        for k, g, p, s in e.exits:
                            term(g)
                            if isinstance(p, T):
                                term(p)
                        for b, f, v in e.back:
                            if self.proj.field(b, f):
                                term(b)
                                term(v)
                elif self.proj.ev(e.kind):
                    term(e.pc)
                    for a in e.args:
                        term(a)
                    for f, v in e.state:
                        if isinstance(v, T):
                            term(v)
        events(S.trace)
        for x in S.exits:
            term(x.pc)
            if self.proj.returns and x.kind == 'return':
                term(x.payload)
            for (b, f), v in x.stores.items():
                if self.proj.field(b, f):
                    term(b)
                    term(v)
        self._used[key] = (loops, nodes)
        return loops, nodes

    def silent(self, L):
        r = self._silent.get(id(L))
        if r is None:
            r = True
            for e in L.body:
                if isinstance(e, Loop):
                    if not self.silent(e):
                        r = False
                elif self.proj.ev(e.kind):
                    r = False
            if self.proj.raises and any(k == 'raise' for k, g, p, s in L.exits):
                r = False
            if any(self.proj.field(b, f) for b, f, v in L.back):
                r = False
            if any(self.proj.field(b, f) for k, g, p, s in L.exits for b, f, v in s):
                r = False
            self._silent[id(L)] = r
        return r

    def useful(self, trace, used):
        out = []
        for e in trace:
            if isinstance(e, Loop):
                if self.silent(e) and e.luid not in used:
                    continue
                out.append(e)
            elif self.proj.ev(e.kind):
                out.append(e)
        return out

    # ---- the walk
    def dfs(self, env0, ta, tb, exa, exb, loop):
        """None when equal on all cases, else a Mismatch"""
        stack = [(env0, 0, 0, frozenset())]
        while stack:
            self.steps += 1
            if self.steps > 400000 or time.time() > self.deadline:
                raise GiveUp('comparison budget')
            env, ia, ib, done = stack.pop()
            r = self.step(env, ia, ib, done, ta, tb, exa, exb, loop, stack)
            if r is not None:
                return r
        return None

    def split(self, env, cond, stack, pos):
        a = pick_atom(cond)
        for lit in (neg_b(a), a):
            e = env.assume(lit)
            if e is not None and self.feasible(e, lit):
                stack.append((e,) + pos)

    def feasible(self, env, lit):
        x = lit.args[0] if lit.op == 'not' else lit
        if x.op in ('le', 'eq'):
            return linear_consistent([l for l in env.lits if l.op != 'or'])
        return True

    def real(self, env):
        """can the assumptions hold at all?  (disjunctions are re-simplified)"""
        raw = [l for l in env.lits if l.op != 'or']
        new = [simp_lit(env, l) for l in raw]
        if any(l is FALSE for l in new) or not linear_consistent(raw + [l for l, r in zip(new, raw) if l is not r and l is not TRUE]):
            return False
        for l in env.lits:
            if l.op == 'or':
                if all(simp(env, x) is FALSE for x in l.args):
                    return False
        return True

    def step(self, env, ia, ib, done, ta, tb, exa, exb, loop, stack):
        # A head
        pos = None
        while ia < len(ta):
            e = ta[ia]
            g = simp(env, e.pc)
            if g is FALSE or (isinstance(e, Loop) and ('a', e.luid) in done):
                ia += 1
                continue
            if g is not TRUE:
                return self.split(env, g, stack, (ia, ib, done))
            if isinstance(e, Loop) and self.silent(e):
                # pair with a silent loop of the other side
                alive = False
                for f in tb:
                    if isinstance(f, Loop) and self.silent(f) and ('b', f.luid) not in done:
                        gb = simp(env, f.pc)
                        if gb is FALSE:
                            continue
                        if gb is not TRUE:
                            return self.split(env, gb, stack, (ia, ib, done))
                        alive = True
                        ne = self.match_loops(env, e, f, quiet=True)
                        if isinstance(ne, Env):
                            env = ne
                            done = done | {('b', f.luid)}
                            break
                else:
                    r = self.norun(env, e, self.A.run, not alive)
                    if isinstance(r, T):
                        return self.split(env, r, stack, (ia, ib, done))
                    env = r
                ia += 1
                continue
            break
        while ib < len(tb):
            f = tb[ib]
            if isinstance(f, Loop) and self.silent(f):
                if ('b', f.luid) not in done and simp(env, f.pc) is not FALSE:
                    r = self.norun(env, f, self.B.run, False)
                    env = env if isinstance(r, T) else r
                ib += 1
                continue
            g = simp(env, f.pc)
            if g is FALSE:
                ib += 1
                continue
            if g is not TRUE:
                return self.split(env, g, stack, (ia, ib, done))
            break
        a = ta[ia] if ia < len(ta) else None
        b = tb[ib] if ib < len(tb) else None
        if isinstance(a, Loop) != isinstance(b, Loop):
            # a loop with nothing opposite may be one that does not run here
            x, run = (a, self.A.run) if isinstance(a, Loop) else (b, self.B.run)
            info = run.loops[x.luid]
            z = simp(env, start(x.luid, info, x.header))
            if z is FALSE:
                env = env.copy()
                env.zero = dict(env.zero)
                env.zero[x.luid] = info
                stack.append((env, ia + (x is a), ib + (x is b), done))
                return None
            if z is not TRUE:
                return self.split(env, z, stack, (ia, ib, done))
        if a is None and b is None:
            return self.exits(env, exa, exb, loop, stack, (ia, ib, done))
        if a is None or b is None:
            if not self.real(env):
                return None
            x = a or b
            return Mismatch('missing effect' if a is None else 'extra effect', _evname(a), _evname(b), env, x.node)
        self.obligations += 1
        if isinstance(a, Loop) != isinstance(b, Loop) or (not isinstance(a, Loop) and a.kind != b.kind):
            if not self.real(env):
                return None
            return Mismatch('different effect', _evname(a), _evname(b), env, a.node)
        if isinstance(a, Loop):
            r = self.match_loops(env, a, b)
            if isinstance(r, Env):
                stack.append((r, ia + 1, ib + 1, done))
                return None
            if not self.real(env):
                return None
            return r
        if len(a.args) != len(b.args):
            return Mismatch('effect %s arguments' % a.kind, len(a.args), len(b.args), env, a.node)
        # local objects handed out: the same object from here on
        pair = []
        for x, y in zip(a.args, b.args):
            x, y = simp(env, x), simp(env, y)
            if x.op == 'obj' and y.op == 'obj' and x.args[1] == y.args[1]:
                pair.append((x, y))
            elif (x.op == 'obj' or y.op == 'obj') and (x.op == 'phi' or y.op == 'phi'):
                return self.split(env, pick_phi(x if x.op == 'phi' else y), stack, (ia, ib, done))
        if pair:
            env = env.copy()
            for x, y in pair:
                tok = mk('OBJ', self.token('o', x, y), x.args[1])
                I.MU_TYPES[tok] = 'obj:' + x.args[1]
                env.sub[x] = tok
                env.sub[y] = tok
                if loop:
                    self.links.append((x, tok))
                    self.links.append((y, tok))
        sa_, sb_ = dict(a.snap), dict(b.snap)
        for x, y in zip(a.args, b.args):
            for o in I.alts(x):
                for q in I.alts(y):
                    if o in sa_ and q in sb_ and simp(env, o) is simp(env, q):
                        r = self.equal(env, sa_[o], sb_[q])
                        if isinstance(r, T):
                            return self.split(env, r, stack, (ia, ib, done))
                        if r is not True:
                            if not self.real(env):
                                return None
                            return Mismatch('object passed to %s' % a.kind, r[0], r[1], env, a.node)
        there = dict(b.state)
        for f, x in a.state:
            y = there.get(f)
            if x is y or not isinstance(x, T) or not isinstance(y, T):
                continue
            r = self.equal(env, x, y)
            if isinstance(r, T):
                return self.split(env, r, stack, (ia, ib, done))
            if r is not True:
                if not self.real(env):
                    return None
                return Mismatch('field %s at the time of %s' % (f, a.kind), r[0], r[1], env, a.node)
        for x, y in zip(a.args, b.args):
            r = self.equal(env, x, y)
            if r is True:
                continue
            if isinstance(r, T):
                return self.split(env, r, stack, (ia, ib, done))
            if not self.real(env):
                return None
            return Mismatch('effect %s' % a.kind, r[0], r[1], env, a.node)
        # results of matched effects are the same unknown
        if isinstance(a.extra, T) and isinstance(b.extra, T):
            sa, sb = simp(env, a.extra), simp(env, b.extra)
            if sa is not sb:
                env = env.copy()
                tok = mk('ext', 'R', self.token('r', a.extra, b.extra), NONE, const(a.kind), *[c for c in (loop or ())])
                if ty(a.extra) is not None:
                    I.EXT_TYPES[tok] = ty(a.extra)
                env.sub[a.extra] = tok
                env.sub[b.extra] = tok
                env.sub[sa] = tok
                env.sub[sb] = tok
                if loop:
                    self.links.append((a.extra, tok))
                    self.links.append((b.extra, tok))
        stack.append((env, ia + 1, ib + 1, done))
        return None

    def norun(self, env, L, run, split):
        """a loop without a counterpart: the environment in which it is known
        not to run, or a condition to split on"""
        info = run.loops[L.luid]
        z = simp(env, start(L.luid, info, L.header))
        if z is FALSE:
            env = env.copy()
            env.zero = dict(env.zero)
            env.zero[L.luid] = info
        elif split and z is not TRUE:
            return z
        return env

    def exits(self, env, exa, exb, loop, stack, pos):
        sel = []
        for ex in (exa, exb):
            got = None
            for e in ex:
                g = simp(env, e[1])
                if g is FALSE:
                    continue
                if g is not TRUE:
                    return self.split(env, g, stack, pos)
                got = e
                break
            sel.append(got)
        self.leaves += 1
        if self.leaves > self.max_leaves:
            raise GiveUp('too many cases')
        a, b = sel
        self.obligations += 1
        if a is None or b is None:
            if a is None and b is None:
                return None
            if not self.real(env):
                return None
            return Mismatch('no exit', a and a[0], b and b[0], env)
        if not self.proj.raises and 'raise' in (a[0], b[0]):
            # with exceptions out of scope a path that raises on one side decides nothing
            if a[0] != b[0]:
                return None
        # which way a loop ended is compared where its consequences show
        left = loop and a[0] != b[0] and 'next' not in (a[0], b[0])
        if a[0] != b[0] and not left:
            if not self.real(env):
                return None
            return Mismatch('outcome', _exname(a), _exname(b), env)
        if left:
            pass
        elif a[0] == 'raise':
            ca, cb = excname(simp(env, a[4])), excname(simp(env, b[4]))
            if ca is None or cb is None:
                x = simp(env, a[4]) if ca is None else simp(env, b[4])
                p = pick_phi(x)
                if p is not None:
                    return self.split(env, p, stack, pos)
            if self.proj.raises and not self.proj.any_exc and ca != cb:
                if not self.real(env):
                    return None
                return Mismatch('exception class', ca, cb, env)
        if a[0] == 'return' and self.proj.returns and not left:
            ra, rb = a[2], b[2]
            if self.proj.truth:
                ra, rb = truth(simp(env, ra)), truth(simp(env, rb))
            r = self.equal(env, ra, rb)
            if isinstance(r, T):
                return self.split(env, r, stack, pos)
            if r is not True:
                if not self.real(env):
                    return None
                return Mismatch('return value', r[0], r[1], env)
        if a[0] == 'next':
            for (what, x), (_, y) in zip(a[2], b[2]):
                r = self.equal(env, x, y)
                if isinstance(r, T):
                    return self.split(env, r, stack, pos)
                if r is not True:
                    if not self.real(env):
                        return None
                    return Mismatch('loop update of %s' % what, r[0], r[1], env)
        if self.proj.stores and (self.proj.raise_stores or a[0] != 'raise'):
            # an object whose construction failed is nobody's
            gone = self.fresh if a[0] == 'raise' else None
            da, db = self.norm_stores(env, a[3], gone), self.norm_stores(env, b[3], gone)
            for k in list(da) + [k for k in db if k not in da]:
                bse, f = k
                self.obligations += 1
                x = da.get(k)
                y = db.get(k)
                now = []
                if x is None:
                    x = self.init_value(bse, f)
                    now = [(v, y) for v in self.last_values(bse, f, a[3])]
                if y is None:
                    y = self.init_value(bse, f)
                    now = [(x, v) for v in self.last_values(bse, f, b[3])]
                r = self.equal(env, x, y)
                for v, w in now:
                    # what the field holds by now is what was last read from it
                    if r is not True and not isinstance(r, T):
                        r2 = self.equal(env, v, w)
                        r = r2 if r2 is True or isinstance(r2, T) else r
                if isinstance(r, T):
                    return self.split(env, r, stack, pos)
                if r is not True and any(t.op == 'eta' for t in walk(bse)) and self.equal_at_end(env, bse, [(x, y)] + now):
                    r = True
                if r is not True:
                    if not self.real(env):
                        return None
                    return Mismatch('%s of %s after %s' % (f if f != '$' else 'content', _cut(bse, 80), a[0]), r[0], r[1], env)
        return None

    def init_value(self, b, f):
        return b if f == '$' else mk('fld', b, f)

    def equal_at_end(self, env, b, pairs):
        """equal given what holds in the last iteration of the loops b comes from"""
        e = env
        for tok in {t.args[0] for t in walk(b) if t.op == 'eta'}:
            fact = self.ended.get(tok)
            if fact is None:
                continue
            fact = after(self.ended, fact)
            e = e.assume(simp(e, fact))
            if e is None:
                return True
        return e is not env and any(self.equal(e, x, y) is True for x, y in pairs)

    def last_values(self, b, f, stores):
        if f == '$':
            return []
        v = getattr(stores, 'ver', {}).get(f, 0)
        # (leaving a loop counts, too, but an element of its last iteration is as it was there)
        return [mk('fld', b, f, k) for k in range(v, 0 if any(x.op == 'eta' for x in walk(b)) else v - 1, -1) if k > 0]

    def norm_stores(self, env, st, gone=None):
        out = {}
        items = st.items() if isinstance(st, dict) else [((b, f), v) for b, f, v in st]
        for (b, f), v in items:
            if not self.proj.field(b, f) or ty(b) == 'obj:sslctx':
                # (the settings of a context count when it is used)
                continue
            if gone is not None and b is gone:
                continue
            nb = simp(env, b)
            if nb.op == 'phi' or nb is NONE:
                # alternatives that are not selected here
                if nb is NONE:
                    continue
            x = simp(env, v)
            if f != '$' and x.op == 'fld' and x.args[0] is nb and x.args[1] == f:
                # what is there already
                continue
            out[(nb, f)] = x
        return out

    # ---- terms
    def equal(self, env, a, b):
        """True, a condition to split on, or (a, b) that differ"""
        x = simp(env, a)
        y = simp(env, b)
        if x is y:
            return True
        return self.diff(env, x, y)

    def diff(self, env, x, y, depth=0):
        if x is y:
            return True
        if x.op == 'obj' and y.op == 'obj' and x.args[1] == y.args[1]:
            if x not in self.objs and y not in self.objs:
                self.objs[x] = y
                self.objs[y] = x
            if self.objs.get(x) is y:
                return True
        if x.op == 'phi' or y.op == 'phi':
            p = pick_phi(x if x.op == 'phi' else y)
            return p
        if x.op in ('and', 'or', 'not', 'le', 'eq', 'truth', 'exc') or y.op in ('and', 'or', 'not', 'le', 'eq', 'truth', 'exc'):
            if not is_const(x):
                return pick_atom(x)
            return pick_atom(y)
        if x.op == y.op and depth < 40:
            cx, cy = children(x), children(y)
            same_shape = len(cx) == len(cy) and x.op not in ('lin', 'dict', 'mul') and \
                [z for z in x.args if not isinstance(z, T)] == [z for z in y.args if not isinstance(z, T)]
            if same_shape:
                first = None
                for p, q in zip(cx, cy):
                    r = self.diff(env, p, q, depth + 1)
                    if isinstance(r, T):
                        return r
                    if r is not True and first is None:
                        first = r
                # no selection below: really different
                if first is not None:
                    return (x, y) if depth == 0 or len(cx) > 1 else first
                return True
            if x.op == 'dict':
                dx, dy = dict(x.args[1]), dict(y.args[1])
                if set(dx) == set(dy):
                    for k in dx:
                        r = self.diff(env, dx[k], dy[k], depth + 1)
                        if isinstance(r, T):
                            return r
                        if r is not True:
                            return r
                    r = self.diff(env, x.args[0], y.args[0], depth + 1)
                    return r
        p = pick_phi(x) or pick_phi(y)
        if p is not None:
            return p
        p = pick_bool(x) or pick_bool(y)
        if p is not None:
            return p
        return (x, y)

    # ---- loops
    def match_loops(self, env, LA, LB, quiet=False):
        ra, rb = self.A.run, self.B.run
        ia, ib = ra.loops[LA.luid], rb.loops[LB.luid]
        e = env.copy()
        tok = self.token('L%d' % LA.depth, LA.luid, LB.luid)
        e.luids[LA.luid] = tok
        e.luids[LB.luid] = tok
        itt = mk('it', tok)
        self.ended.pop(tok, None)
        e.sub[mk('it', LA.luid)] = itt
        e.sub[mk('it', LB.luid)] = itt
        na = self.nodes(LA.luid, ia, self.refs(self.A)[1])
        nb = self.nodes(LB.luid, ib, self.refs(self.B)[1])
        # colours
        col = {}
        ctab = {}

        def cid(t):
            return ctab.setdefault(t, len(ctab))

        def colour_round(first):
            new = {}
            ee = e.copy()
            for n, c in col.items():
                ee.sub[n] = self.coltok(n, c)
            for side in (na, nb):
                for n, (init, upd) in side.items():
                    if first:
                        new[n] = cid(mk('c0', const(n.op), simp(env, init) if init is not None else NONE))
                    else:
                        new[n] = cid(mk('c', const(col[n]), simp(ee, upd)))
            return new
        col.update(colour_round(True))
        for _ in range(3):
            if not col:
                break
            nc = colour_round(False)
            col = dict(nc)
        base = []
        usedb = set()
        for x in na:
            for y in nb:
                if y not in usedb and col[x] == col[y]:
                    base.append((x, y))
                    usedb.add(y)
                    break
        donea = {p[0] for p in base}
        resta = [x for x in na if x not in donea]
        restb = [y for y in nb if y not in usedb]
        rel = self.relations(env, na, True) + self.relations(env, nb, True) if self.relate else []
        first = None
        for extra in self.pairings(env, resta, restb, na, nb):
            e2 = e.copy()
            r = self.match_body(env, e2, tok, itt, LA, LB, na, nb, base + extra, rel)
            if isinstance(r, Env):
                # one of the exits was taken
                for x in [LA.Xw] + LA.facts:
                    x = simp(r, x)
                    if x.op == 'or' and x not in r.lset:
                        r.lits.append(x)
                        r.lset.add(x)
                return r
            if first is None:
                first = r
                base1 = base + extra
        near = self.relations(env, na, False) + self.relations(env, nb, False) if isinstance(first, Mismatch) else []
        if near:
            e2 = e.copy()
            r = self.match_body(env, e2, tok, itt, LA, LB, na, nb, base1, rel + near)
            if isinstance(r, Env):
                return r
        return first

    def relations(self, env, n, late):
        """(x, x0, y, y0, y1): carried values such that y is y0 whenever x is
        the constant x0 it starts with and, if y1 is there, y1 otherwise
        (shown by induction over the iterations)"""
        xs = []
        for x, (i, _) in n.items():
            c = simp(env, i) if x.op == 'mu' else None
            if c is not None and is_const(c) and not c.args[0]:
                xs.append((x, c))
        out = []
        for x, x0 in xs:
            for y, (i, u) in n.items():
                if y is x or y.op != 'mu':
                    continue
                y0 = simp(env, i)
                if not late and not (x0 is NONE and is_const(y0) and not y0.args[0] and y0 is not NONE):
                    continue
                self.tries = 200
                one = self.kept(Env(), n[x][1], u, x, x0, y, y0, True)
                y1 = None
                if late and not one:
                    continue
                for c in () if not late else {c for c in phi_leaves(u) if is_const(c) and c is not y0}:
                    self.tries = 200
                    if self.kept(Env(), n[x][1], u, x, x0, y, c, False):
                        y1 = c
                if y1 is not None if late else one:
                    out.append((x, x0, y, y0 if one else None, y1))
        return out

    def kept(self, env, a, b, x, x0, y, c, same):
        """in every case: a is (when same, else is not) x0 only with b being c, if the same holds of x and y"""
        self.tries -= 1
        if self.tries < 0:
            return False
        a = simp(env, a)
        g = simp(env, eq(a, x0))
        if g is (FALSE if same else TRUE):
            return True
        b = simp(env, b)
        if b is c or a is x and b is y:
            return True
        k = pick_phi(a) if a.op == 'phi' else pick_phi(b) if b.op == 'phi' else g if g not in (TRUE, FALSE) and a.op != 'mu' else None
        if k is None:
            return False
        k = pick_atom(k)
        for lit in (neg_b(k), k):
            e = env.assume(lit)
            if e is None or not self.feasible(e, lit):
                continue
            if simp(e, eq(x, x0)) is (TRUE if same else FALSE) and y not in e.sub:
                e = e.copy()
                e.sub[y] = c
            if not self.kept(e, a, b, x, x0, y, c, same):
                return False
        return True

    def hint(self, run, n):
        if n.op != 'mu':
            return None
        for (lu, loc), i in run.locids.items():
            if lu == n.args[0] and i == n.args[1]:
                return loc[1]
        return None

    def pairings(self, env, resta, restb, na, nb):
        """ways to pair the nodes the refinement left open, likeliest first"""
        none = lambda i: i is not None and simp(env, i) is NONE
        guards = any(none(i) for i, _ in na.values()) and any(none(i) for i, _ in nb.values())

        def score(x, y):
            i1, i2 = na[x][0], nb[y][0]
            s = 0
            if i1 is None and i2 is None or i1 is not None and i2 is not None and simp(env, i1) is simp(env, i2):
                s += 2
            elif i1 is not None and i2 is not None:
                if not guards or x.op != 'mu':
                    return None
                s -= 10
            k1, k2 = kindof(x), kindof(y)
            if k1 is not None and k2 is not None and k1 != k2:
                return None
            if k1 == k2:
                s += 1
            if x.op != y.op:
                return None
            h1, h2 = self.hint(self.A.run, x), self.hint(self.B.run, y)
            if h1 is not None and h1 == h2:
                s += 1
            return s
        n = 0

        def rec(i, used):
            if i == len(resta):
                yield []
                return
            x = resta[i]
            opts = []
            for y in restb:
                if y not in used:
                    q = score(x, y)
                    if q is not None:
                        opts.append((-q, restb.index(y), y))
            opts.sort(key=lambda o: o[:2])
            for _, _, y in opts:
                for t in rec(i + 1, used | {y}):
                    yield [(x, y)] + t
            if not opts:
                for t in rec(i + 1, used):
                    yield t
        flips = []
        for p in rec(0, frozenset()):
            yield p
            n += 1
            if n >= 8:
                break
            num = [q for q in p if q[0].op == 'acc' and kindof(q[0]) == 'n' and kindof(q[1]) == 'n']
            if num:
                flips.append((p, num))
        # numeric accumulators may run in opposite directions
        for p, num in flips[:4]:
            for m in range(1, min(2 ** len(num), 8)):
                neg_ = [q for i, q in enumerate(num) if m >> i & 1]
                yield [(q[0], q[1], -1) if q in neg_ else q for q in p]

    def match_body(self, env, e, tok, itt, LA, LB, na, nb, plist, rel=()):
        ra, rb = self.A.run, self.B.run
        pairs = []
        def unknown(kind, x, y):
            t = mk('MU', tok, self.token(kind, x, y))
            k = ty(x) if ty(x) is not None else ty(y)
            I.MU_TYPES[t] = k
            t._ty = None
            return t
        turned = set()
        for q in plist:
            x, y = q[0], q[1]
            t = unknown('m', x, y)
            pairs.append((x, y, t))
            if x.op == 'acc' and y.op == 'acc' and x.args in TM.ACC_LEN and y.args in TM.ACC_LEN:
                (k, n), (k2, n2) = TM.ACC_LEN[x.args], TM.ACC_LEN[y.args]
                if k == k2:
                    TM.ACC_LEN[t.args] = (k, simp(env, n) if n is not None and n2 is not None and simp(env, n) is simp(env, n2) else None)
            if len(q) > 2:
                turned.add(y)
        # a pair that starts out different may still agree whenever some
        # other carried value, None at first, has been set
        guard = None
        apart = set()
        for x, y, t in pairs:
            if na[x][0] is not None and nb[y][0] is not None:
                i, j = simp(env, na[x][0]), simp(env, nb[y][0])
                if i is NONE and j is NONE and guard is None:
                    guard = (x, y, t)
                elif i is not j and x.op == 'mu' and y.op == 'mu' and self.equal(env, i, j) is not True:
                    apart.add((x, y))
        if guard is None:
            apart = set()
        ups_a, ups_b = [], []
        sub = {}
        for x, y, t in pairs:
            sub[x] = sub[y] = t
            if y in turned:
                sub[y] = neg(t)
            if (x, y) in apart:
                unset = eq(guard[2], NONE)
                sub[x] = phi(unset, unknown('ua', x, y), t)
                sub[y] = phi(unset, unknown('ub', x, y), t)
        for x, x0, y, y0, y1 in rel:
            for p, q, t in pairs:
                if y in (p, q) and (p, q) not in apart and q not in turned and sub[p] is t:
                    sub[p] = sub[q] = phi(eq(sub.get(x, x), x0), t if y0 is None else y0, t if y1 is None else y1)
        e.sub.update(sub)
        e.memo = {}
        for x, y, t in pairs:
            nm = str(self.hint(ra, x) or x.op)
            if (x, y) in apart:
                ups_a.append((nm, phi(eq(na[guard[0]][1], NONE), const('unset'), na[x][1])))
                ups_b.append((nm, phi(eq(nb[guard[1]][1], NONE), const('unset'), nb[y][1])))
                continue
            if na[x][0] is not None and nb[y][0] is not None:
                r = self.equal(env, na[x][0], nb[y][0])
                if r is not True:
                    if isinstance(r, T):
                        # the initial values differ only in some cases
                        return Mismatch('initial value of %s' % nm, na[x][0], nb[y][0], env, LA.node)
                    return Mismatch('initial value of %s' % nm, r[0], r[1], env, LA.node)
            ups_a.append((nm, na[x][1]))
            ups_b.append((nm, neg(nb[y][1]) if y in turned else nb[y][1]))
        ea = self.loop_exits(LA, ups_a)
        eb = self.loop_exits(LB, ups_b)
        ta = self.useful(LA.body, self.refs(self.A)[0])
        tb = self.useful(LB.body, self.refs(self.B)[0])
        mark = len(self.links)
        r = self.dfs(e, ta, tb, ea, eb, (const(tok), itt))
        if r is not None:
            del self.links[mark:]
            if r.node is None:
                r.node = LA.node
            return r
        # what was identified inside the body stays identified after it
        for k, v in self.links[mark:]:
            if isinstance(k, int):
                e.luids.setdefault(k, v)
            elif k not in e.sub:
                e.sub[k] = v
        e.memo = {}
        self.ended[tok] = simp(e, LA.X)
        self.links.append((LA.luid, tok))
        self.links.append((LB.luid, tok))
        self.links.append((mk('it', LA.luid), itt))
        self.links.append((mk('it', LB.luid), itt))
        for x, y, t in pairs:
            self.links.append((x, sub[x]))
            self.links.append((y, sub[y]))
        return e

    def token(self, kind, a, b):
        key = (kind, a, b)
        r = self.toks.get(key)
        if r is None:
            TOK[0] += 1
            r = self.toks[key] = '%s.%d' % (kind, TOK[0])
        return r

    def coltok(self, n, c):
        t = mk('MU', 'colour', c, const(n.op))
        if I.MU_TYPES.get(t) is None:
            I.MU_TYPES[t] = ty(n)
            t._ty = None
        return t

    def nodes(self, luid, info, used):
        """loop-carried nodes: term -> (init, update)"""
        out = {}
        for lid, (init, upd) in info.mus.items():
            n = mk('mu', luid, lid)
            if n in used:
                out[n] = (init, upd)
        for gid, d in info.accs.items():
            n = mk('acc', luid, gid)
            if n in used:
                out[n] = (None, d)
        return out

    def loop_exits(self, L, ups):
        ex = []
        for k, g, p, s in L.exits:
            ex.append((k, g, p if isinstance(p, T) and k == 'return' else NONE, s, p if k == 'raise' else None))
        ex.append(('normal', neg_b(L.header), NONE, [], None))
        ex.append(('next', neg_b(L.X), ups, L.back, None))
        return ex


def kindof(t):
    k = ty(t)
    if k is None:
        return None
    k = k.rstrip('?')
    if k in ('int', 'num', 'bool'):
        return 'n'
    if k in ('str', 'bytes'):
        return 's'
    return k.split(':')[0]


def simp_lit(env, l):
    """the literal under everything else that is known"""
    if l.op == 'not':
        return neg_b(simp_lit(env, l.args[0]))
    if l.op not in ('le', 'eq', 'truth'):
        return l
    ch = children(l)
    # what the literal itself states is not used to simplify it
    nk = [rebuild(c, [simp(env, y) for y in children(c)]) if c.op in ('len', 'hlen') and l.op == 'le' else simp(env, c) for c in ch]
    return l if all(p is q for p, q in zip(ch, nk)) else rebuild(l, nk)


def pick_bool(t, seen=None):
    """an undetermined truth value stored inside t"""
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    if t.op in ('le', 'eq', 'truth', 'exc', 'and', 'or', 'not'):
        return pick_atom(t)
    if t.op in ('eta', 'ext', 'call', 'apply', 'fld', 'it', 'MU', 'mu', 'acc'):
        return None
    for c in children(t):
        r = pick_bool(c, seen)
        if r is not None:
            return r
    return None


def excname(t):
    if t is None:
        return None
    if t.op == 'excval':
        return {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(t.args[0], t.args[0])
    if t.op == 'phi':
        return None
    if t.op == 'eta':
        return excname(t.args[1])
    if t.op == 'post' or t.op == 'ext':
        return 'value'
    return t.op


def _evname(e):
    if e is None:
        return 'nothing'
    if isinstance(e, Loop):
        inner = [x.kind if isinstance(x, Ev) else 'loop' for x in e.body]
        return 'loop(%s)' % ', '.join(inner[:6])
    return '%s(%s)' % (e.kind, ', '.join(show(a, 4) for a in e.args))


def _exname(e):
    if e is None:
        return None
    if e[0] == 'raise':
        return 'raise %s' % (excname(e[4]))
    return e[0]
