"""Hash-consed value terms with smart constructors (normal forms).

A term is a node of the value graph that the abstract interpreter builds.  All
terms live in one intern table, so two terms are equal iff they are the same
object.  The constructors below rewrite to a normal form on creation, so that
differently written but equal expressions become the same node.
"""
import math
from fractions import Fraction

_TABLE = {}
_COUNT = [0]


class T(object):
    __slots__ = ('op', 'args', 'id', '_ty')

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self


def mk(op, *args):
    key = (op,) + tuple((a.id,) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t._ty = None
        _TABLE[key] = t
    return t


def const(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if isinstance(v, float) and v != v:
        return mk('const', 'nan', 'float')
    if isinstance(v, float):
        return mk('const', v, repr(v))
    if isinstance(v, (tuple, list)):
        return tup([const(x) for x in v])
    return mk('const', v, type(v).__name__)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ABSENT = mk('absent')
UNDEF = mk('undef')
EMPTYSEQ = mk('emptyseq')      # no items; neutral element of cat


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_num_const(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool)


def is_str_const(t):
    return t.op == 'const' and isinstance(t.args[0], str)


def is_bytes_const(t):
    return t.op == 'const' and isinstance(t.args[0], bytes)


# ----------------------------------------------------------------- types
# A type is a string: 'int' 'num' 'str' 'bytes' 'bool' 'none' 'list:<elt>'
# 'dict:<elt>' 'tuple' 'obj:<Class>' with '?' appended when None is possible,
# or None when nothing is known.

TYPE_ORACLE = [lambda t: None]


def ty(t):
    if t._ty is None:
        t._ty = (_ty(t),)
    return t._ty[0]


def _ty(t):
    op = t.op
    a = t.args
    if op == 'const':
        v = a[0]
        if v is None:
            return 'none'
        if a[1] == 'float' and v == 'nan':
            return 'num'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, (float, Fraction)):
            return 'num'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bytes):
            return 'bytes'
        return None
    if op == 'lin':
        if all(isinstance(c, int) for _, c in a[1]) and isinstance(a[0], int) and \
                all(ty(x) == 'int' for x, _ in a[1]):
            return 'int'
        return 'num'
    if op in ('mul',):
        return 'int' if all(ty(x) == 'int' for x in a) else 'num'
    if op in ('floor', 'len', 'hlen', 'it', 'shl', 'shr', 'band', 'bor', 'bxor', 'modulo', 'crc'):
        return 'int'
    if op == 'dec':
        return 'num' if a[0] in 'fd' else 'int'
    if op in ('enc', 's2b', 'padto'):
        return 'bytes'
    if op in ('b2s', 'fmt', 'str', 'join'):
        return 'str'
    if op in ('eq', 'le', 'not', 'and', 'or', 'truth', 'exc', 'isinst'):
        return 'bool'
    if op == 'cat':
        for p in a:
            x = ty(p)
            if x:
                x = x.rstrip('?')
            if x in ('str', 'bytes'):
                return x
            if x and x.startswith('list'):
                return x
        return None
    if op == 'lst':
        return 'list:' + ((ty(a[0]) or '') if a else '')
    if op == 'tup':
        return 'tuple'
    if op == 'slice':
        x = ty(a[0])
        return x.rstrip('?') if x else None
    if op == 'idx':
        x = ty(a[0])
        if x:
            x = x.rstrip('?')
            if x.startswith('list:'):
                return x[5:] or None
            if x == 'str':
                return 'str'
            if x == 'bytes':
                return 'int'
        return TYPE_ORACLE[0](t)
    if op == 'dget':
        x = ty(a[0])
        if x and x.rstrip('?').startswith('dict:'):
            e = x.rstrip('?')[5:]
            return (e.rstrip('?') + '?') if e else None
        return TYPE_ORACLE[0](t)
    if op == 'phi':
        x, y = ty(a[1]), ty(a[2])
        if x == y:
            return x
        if x == 'none' and y:
            return y.rstrip('?') + '?'
        if y == 'none' and x:
            return x.rstrip('?') + '?'
        if x in ('int', 'num') and y in ('int', 'num'):
            return 'num'
        if a[1] is EMPTYSEQ:
            return y
        if a[2] is EMPTYSEQ:
            return x
        if x and y and x.rstrip('?') == y.rstrip('?'):
            return x.rstrip('?') + '?'
        if x and y and x.startswith('list') and y.startswith('list'):
            return x if len(x) > len(y) else y
        return None
    if op in ('eta',):
        return ty(a[1])
    if op == 'acc':
        return TYPE_ORACLE[0](t) or 'num'
    if op == 'dict':
        return 'dict:'
    return TYPE_ORACLE[0](t)


def base_ty(t):
    x = ty(t)
    return x.rstrip('?') if x else None


def is_optional(t):
    x = ty(t)
    return x is None or x.endswith('?') or x == 'none'


def is_int(t):
    return ty(t) == 'int'


def is_numeric(t):
    return ty(t) in ('int', 'num')


def is_seq(t):
    x = base_ty(t)
    return x is not None and (x in ('str', 'bytes', 'tuple') or x.startswith('list') or x.startswith('dict'))


# ------------------------------------------------------------- arithmetic

def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def linparts(t):
    """(const, {term: coef})"""
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    if t.op == 'const' and isinstance(t.args[0], bool):
        return int(t.args[0]), {}
    if t.op == 'const' and isinstance(t.args[0], (int, Fraction)):
        return t.args[0], {}
    return 0, {t: 1}


def mklin(c, d):
    items = tuple(sorted(((t, _norm(k)) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    c = _norm(c)
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    key = ('lin', c, tuple((t.id, k) for t, k in items))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = 'lin'
        t.args = (c, items)
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t._ty = None
        _TABLE[key] = t
    return t


def add(a, b, k=1):
    if (a.op == 'const' and isinstance(a.args[0], float)) or (b.op == 'const' and isinstance(b.args[0], float)):
        if is_num_const(a) and is_num_const(b):
            return const(a.args[0] + k * b.args[0])
        if is_num_const(b) and float(b.args[0]).is_integer():
            b = const(int(b.args[0]))
        else:
            return mk('fadd', a, b, k)
    ca, da = linparts(a)
    cb, db = linparts(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + k * c
    return mklin(ca + k * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    ca, da = linparts(a)
    return mklin(ca * k, {t: c * k for t, c in da.items()})


def neg(a):
    return scale(a, -1)


def mul(a, b):
    if is_num_const(a) and is_num_const(b):
        return const(a.args[0] * b.args[0])
    if is_num_const(a):
        a, b = b, a
    if is_num_const(b):
        v = b.args[0]
        if isinstance(v, float):
            return mk('fmul', a, b)
        return scale(a, v)
    # expand products of linear forms
    ca, da = linparts(a)
    cb, db = linparts(b)
    out = {}
    cst = ca * cb

    def put(t, k):
        out[t] = out.get(t, 0) + k
    for t, k in da.items():
        if cb:
            put(t, k * cb)
        for u, j in db.items():
            fs = []
            for x in (t, u):
                fs.extend(x.args if x.op == 'mul' else (x,))
            put(mk('mul', *sorted(fs, key=lambda x: x.id)), k * j)
    if ca:
        for u, j in db.items():
            put(u, ca * j)
    return mklin(cst, out)


def div(a, b):
    if is_num_const(b) and b.args[0] != 0:
        if is_num_const(a) and (isinstance(a.args[0], float) or isinstance(b.args[0], float)):
            return const(a.args[0] / b.args[0])
        if not isinstance(b.args[0], float):
            return scale(a, Fraction(1, 1) / b.args[0])
    return mk('div', a, b)


EVEN = set()     # sequences whose length is assumed even (register data)


def floor(a):
    """floor for the non-negative quantities of this code base (int() == floor)"""
    if is_num_const(a):
        v = a.args[0]
        return const(int(v // 1))
    c, d = linparts(a)
    rest = {}
    ints = {}
    ci = c
    for t, k in d.items():
        whole = isinstance(k, int) or (isinstance(k, Fraction) and k.denominator == 1)
        if whole and is_int(t):
            ints[t] = k
        elif isinstance(k, Fraction) and k.denominator == 2 and is_even(t):
            ints[t] = k
        else:
            rest[t] = k
    if not rest:
        if isinstance(ci, Fraction) and ci.denominator != 1:
            ci = ci // 1
        r = mklin(ci, ints)
        return r
    if len(rest) == 1 and not ints and c == 0:
        (t, k), = rest.items()
        if k == 1 and ty(t) == 'int':
            return t
        if k == 1 and ty(t) is None:
            return mk('call', 'int', t)
        if k == 1 and ty(t) in ('str', 'str?', 'bytes'):
            return mk('call', 'int', t)
        if k == 1 and t.op in ('call', 'phi'):
            if t.op == 'phi':
                return phi(t.args[0], floor(t.args[1]), floor(t.args[2]))
            return mk('call', 'int', t)
    ci = Fraction(ci)
    part = ci - ci // 1
    out = mklin(_norm(ci // 1), ints)
    if all(is_int(t) and isinstance(k, (int, Fraction)) for t, k in rest.items()):
        # (m + r) / q with whole m and r
        q = 1
        for k in rest.values():
            q = q * Fraction(k).denominator // math.gcd(q, Fraction(k).denominator)
        r = part * q // 1
        if Fraction(rest[min(rest, key=lambda t: t.id)]) < 0:
            # rounding the opposite up
            r = q - 1 - r
            rest = {t: _norm(-Fraction(k)) for t, k in rest.items()}
            return sub(out, mk('floor', mklin(_norm(Fraction(r, q)), rest)))
        return add(out, mk('floor', mklin(_norm(Fraction(r, q)), rest)))
    return add(out, mk('floor', mklin(_norm(part), rest)))


def modulo(a, b):
    if is_num_const(a) and is_num_const(b) and b.args[0] != 0:
        return const(a.args[0] % b.args[0])
    if is_num_const(b) and isinstance(b.args[0], int) and b.args[0] == 2 and is_even(a):
        return const(0)
    return mk('modulo', a, b)


def is_even(t):
    return False


def even_seq(x):
    if x in EVEN:
        return True
    if x.op == 'slice':
        lo, hi = x.args[1], x.args[2]
        return all(y is NONE or _even_lin(y) for y in (lo, hi)) and even_seq(x.args[0])
    return False


def _even_lin(x):
    c, d = linparts(x)
    return isinstance(c, int) and c % 2 == 0 and all(
        (isinstance(k, int) and k % 2 == 0) or is_even(t) for t, k in d.items())


# --------------------------------------------------------------- booleans

def neg_b(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return bor(*[neg_b(x) for x in t.args])
    if t.op == 'or':
        return band(*[neg_b(x) for x in t.args])
    return mk('not', t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def _nonneg(t):
    if t.op == 'phi':
        return _nonneg(t.args[1]) and _nonneg(t.args[2])
    return t.op in ('len', 'hlen', 'it') or is_num_const(t) and t.args[0] >= 0


def _cmp_rel(a, b):
    """relation between two literals: 'imp' a=>b, 'con' contradict, None"""
    # only literals over the same linear form or equality on the same term
    na, ta = (True, a.args[0]) if a.op == 'not' else (False, a)
    nb, tb = (True, b.args[0]) if b.op == 'not' else (False, b)
    if ta.op == 'le' and tb.op == 'le' and ta.args[0] is tb.args[0]:
        ca, cb = ta.args[1], tb.args[1]
        if not na and not nb:
            return 'imp' if ca <= cb else None
        if na and nb:        # x > ca , x > cb
            return 'imp' if ca >= cb else None
        if not na and nb:    # x<=ca , x>cb
            return 'con' if ca <= cb else None
        return 'con' if cb <= ca else None
    if ta.op == 'eq' and tb.op == 'eq' and ta.args[0] is tb.args[0] and is_const(ta.args[1]) and is_const(tb.args[1]) \
            and ta is not tb:
        if not na and not nb:
            return 'con'
        if not na and nb:
            return 'imp'
        return None
    if ta.op == 'eq' and tb.op == 'le' and tb.args[0] is ta.args[0] and is_num_const(ta.args[1]) and not na:
        holds = ta.args[1].args[0] <= tb.args[1]
        return 'imp' if holds != nb else 'con'
    if tb.op == 'eq' and ta.op == 'le' and ta.args[0] is tb.args[0] and is_num_const(tb.args[1]):
        inside = tb.args[1].args[0] <= ta.args[1]
        if na:
            inside = not inside
        if not inside:
            return 'imp' if nb else 'con'
        return None
    if ta.op == 'eq' and tb.op == 'le' and not na and ta.args[0].op == 'slice' and (is_str_const(ta.args[1]) or is_bytes_const(ta.args[1])):
        # a part of it is these characters, so it has as many
        c, p = linparts(tb.args[0])
        s = ta.args[0].args[0]
        k = [v for t, v in p.items() if t.op == 'len' and t.args[0] is s]
        if k and k[0] > 0 and all(v > 0 and _nonneg(t) for t, v in p.items()) and c + k[0] * len(ta.args[1].args[0]) > tb.args[1]:
            return 'imp' if nb else 'con'
    if ta.op == 'truth' and tb.op == 'eq' and ta.args[0] is tb.args[0] and is_const(tb.args[1]):
        v = tb.args[1].args[0]
        if not na and not v:
            return 'imp' if nb else 'con'
        if na and v:
            return 'imp' if nb else 'con'
        return None
    if tb.op == 'truth' and ta.op == 'eq' and ta.args[0] is tb.args[0] and is_const(ta.args[1]) and not na:
        v = bool(ta.args[1].args[0])
        return 'imp' if v != nb else 'con'
    return None


def band(*ts):
    ts = _flat('and', ts)
    out = []
    seen = set()
    for t in ts:
        if t is TRUE or t in seen:
            continue
        if t is FALSE:
            return FALSE
        if neg_b(t) in seen:
            return FALSE
        seen.add(t)
        out.append(t)
    if len(out) > 1:
        # literal theory
        drop = set()
        lits = [t for t in out if _is_lit(t)]
        for i, a in enumerate(lits):
            for b in lits:
                if a is b or b in drop or a in drop:
                    continue
                r = _cmp_rel(a, b)
                if r == 'con':
                    return FALSE
                if r == 'imp':
                    drop.add(b)
        out = [t for t in out if t not in drop]
        # unit propagation into disjunctions
        litset = [t for t in out if _is_lit(t)]
        changed = False
        new = []
        for t in out:
            if t.op == 'or':
                keep = []
                sat = False
                for x in t.args:
                    v = _under(x, litset)
                    if v is True:
                        sat = True
                        break
                    if v is False:
                        changed = True
                        continue
                    keep.append(x)
                if sat:
                    changed = True
                    continue
                if len(keep) != len(t.args):
                    new.append(bor(*keep))
                else:
                    new.append(t)
            else:
                new.append(t)
        if changed:
            return band(*new)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda x: x.id))


def _is_lit(t):
    return t.op not in ('and', 'or')


def _under(x, lits):
    """truth of x given literals, shallow"""
    if not _is_lit(x):
        if x.op == 'and':
            vs = [_under(y, lits) for y in x.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
            return None
        vs = [_under(y, lits) for y in x.args]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        return None
    nx = neg_b(x)
    for l in lits:
        if l is x:
            return True
        if l is nx:
            return False
        r = _cmp_rel(l, x)
        if r == 'imp':
            return True
        if r == 'con':
            return False
    return None


def bor(*ts):
    ts = _flat('or', ts)
    out = []
    seen = set()
    for t in ts:
        if t is FALSE or t in seen:
            continue
        if t is TRUE or neg_b(t) in seen:
            return TRUE
        seen.add(t)
        out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # literal theory on the duals
    lits = [t for t in out if _is_lit(t)]
    drop = set()
    for a in lits:
        for b in lits:
            if a is b or a in drop or b in drop:
                continue
            r = _cmp_rel(neg_b(a), neg_b(b))
            if r == 'con':
                return TRUE
            if r == 'imp':
                drop.add(b)
    out = [t for t in out if t not in drop]
    # (p and a) or (p and b) -> p and (a or b)
    sets = [set(t.args) if t.op == 'and' else {t} for t in out]
    common = set.intersection(*sets)
    if common:
        rest = [band(*(s - common)) for s in sets]
        return band(*(list(common) + [bor(*rest)]))
    # absorption / unit: a or (not a and b) -> a or b
    litset = [neg_b(t) for t in out if _is_lit(t)]
    changed = False
    new = []
    for t in out:
        if t.op == 'and':
            keep = []
            dead = False
            for x in t.args:
                v = _under(x, litset)
                if v is True:
                    changed = True
                    continue
                if v is False:
                    dead = True
                    break
                keep.append(x)
            if dead:
                changed = True
                continue
            new.append(band(*keep) if len(keep) != len(t.args) else t)
        else:
            new.append(t)
    if changed:
        return bor(*new)
    # complementary pairs: (p and a) or (p and not a)
    for i in range(len(out)):
        for j in range(i + 1, len(out)):
            si, sj = sets[i] if i < len(sets) else None, sets[j] if j < len(sets) else None
            si = set(out[i].args) if out[i].op == 'and' else {out[i]}
            sj = set(out[j].args) if out[j].op == 'and' else {out[j]}
            di, dj = si - sj, sj - si
            com = si & sj
            if com:
                ri, rj = band(*di), band(*dj)
                if ri is neg_b(rj):
                    rest = [out[k] for k in range(len(out)) if k not in (i, j)]
                    return bor(band(*com), *rest)
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda x: x.id))


# ------------------------------------------------------------ comparisons

def _gcd_norm(d):
    from math import gcd
    den = 1
    for k in d.values():
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    ks = {t: int(k * den) for t, k in d.items()}
    g = 0
    for k in ks.values():
        g = gcd(g, abs(k))
    return ks, den, g


def le0(x):
    """x <= 0 for a numeric term (integers)"""
    if is_num_const(x):
        return const(bool(x.args[0] <= 0))
    c, d = linparts(x)
    ks, den, g = _gcd_norm(d)
    c = c * den
    # sum ks*t + c <= 0  ->  sum (ks/g)*t <= floor(-c/g)
    bound = (Fraction(-c) / g).__floor__()
    ks = {t: k // g for t, k in ks.items()}
    first = min(ks, key=lambda t: t.id)
    if ks[first] > 0:
        return _le(mklin(0, ks), bound)
    # -L <= bound -> L >= -bound -> not (L <= -bound-1)
    return neg_b(_le(mklin(0, {t: -k for t, k in ks.items()}), -bound - 1))


def _le(L, b):
    if L.op in ('len', 'hlen', 'it') and b < 0:
        return FALSE
    return mk('le', L, b)


def lt(a, b):
    return _numcmp(a, b, 1)


def le(a, b):
    return _numcmp(a, b, 0)


def _numcmp(a, b, strict):
    if is_const(a) and is_const(b):
        try:
            return const(bool(a.args[0] < b.args[0] if strict else a.args[0] <= b.args[0]))
        except TypeError:
            return mk('cmp', '<' if strict else '<=', a, b)
    if a is b:
        return const(not strict)
    for x, y in ((a, b), (b, a)):
        if base_ty(x) in ('str', 'bytes', 'tuple') and x.op != 'phi':
            return mk('cmp', '<' if strict else '<=', a, b)
    d = sub(a, b)
    if d.op == 'fadd':
        return mk('cmp', '<' if strict else '<=', a, b)
    if strict:
        # a < b  with rational coefficients: scale first
        c, p = linparts(d)
        ks, den, g = _gcd_norm(p)
        if not ks:
            return const(bool(c < 0))
        d = scale(d, den)
        if isinstance(linparts(d)[0], int):
            return le0(add(d, const(1)))
        return le0(d)
    return le0(d)


NANABLE = set()


def nanable(t):
    """float values that may be NaN"""
    return (t.op == 'dec' and t.args[0] in 'fd') or t in NANABLE or (t.op == 'call' and t.args[0] == 'float' and len(t.args) > 1 and
                                                                      ty(t.args[1]) != 'int')


def isnan(t):
    return truth(mk('call', 'isnan', t))


def eq(a, b):
    if a is b:
        if nanable(a):
            return neg_b(isnan(a))
        return TRUE
    if is_const(a) and not is_const(b):
        a, b = b, a
    if is_const(b) and b.args[0] == 'nan' and b.args[1] != 'float' and a.op == 'str' and nanable(a.args[0]):
        return isnan(a.args[0])
    if is_const(a) and is_const(b):
        va, vb = a.args[0], b.args[0]
        return const(type(va) == type(vb) and va == vb or (
            isinstance(va, (int, float)) and isinstance(vb, (int, float)) and va == vb))
    if is_const(a):
        a, b = b, a
    ta, tb = ty(a), ty(b)
    if b is NONE:
        if a.op == 'phi':
            return _phi_b(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if ta is not None and not ta.endswith('?') and ta != 'none':
            return FALSE
        if a.op in ('obj', 'lst', 'tup', 'cat', 'dict', 'func', 'class', 'mod', 'closure', 'inst', 'bound'):
            return FALSE
        return mk('eq', a, NONE)
    if is_const(b) and a.op == 'phi' and (is_const(a.args[1]) or is_const(a.args[2])):
        return _phi_b(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if is_const(b) and isinstance(b.args[0], bool) and ta == 'bool':
        return truth(a) if b is TRUE else neg_b(truth(a))
    if (is_str_const(b) or is_bytes_const(b)) and len(b.args[0]) == 0 and ta in ('str', 'bytes'):
        return le(mklen(a), const(0))
    if (is_str_const(b) or is_bytes_const(b)) and len(b.args[0]) == 1 and a.op == 'slice' and base_ty(a.args[0]) in ('str', 'bytes') and \
            is_num_const(a.args[1]) and (a.args[1].args[0] == 0 and a.args[2] is const(1) or a.args[1].args[0] == -1 and a.args[2] is NONE):
        # the first, or last, of at least one
        x, k = a.args[0], b.args[0]
        return band(truth(x), eq(idx(x, a.args[1]), const(k if isinstance(k, str) else k[0])))
    if is_const(b) and ta and ta.rstrip('?') in ('int', 'num') and not isinstance(b.args[0], (int, float)):
        return FALSE
    if is_const(b) and isinstance(b.args[0], (int,)) and ta in ('str', 'bytes'):
        return FALSE
    if (is_numeric(a) or is_num_const(b) or is_numeric(b)) and not (is_const(b) and not is_num_const(b)):
        d = sub(a, b)
        if d.op == 'fadd' or d.op == 'fmul':
            return mk('eq', *sorted((a, b), key=lambda x: x.id))
        c, p = linparts(d)
        if not p:
            return const(c == 0)
        ks, den, g = _gcd_norm(p)
        cc = Fraction(-c * den) / g
        if cc.denominator != 1:
            if all(ty(t) == 'int' for t in ks):
                return FALSE
        first = min(ks, key=lambda t: t.id)
        s = 1 if ks[first] > 0 else -1
        L = mklin(0, {t: s * k // g for t, k in ks.items()})
        cv = const(_norm(s * cc))
        if L.op == 'len' and cv.args[0] == 0:
            return le(L, const(0))
        return mk('eq', L, cv)
    if is_const(b):
        return mk('eq', a, b)
    return mk('eq', *sorted((a, b), key=lambda x: x.id))


def truth(t):
    op = t.op
    if op == 'const':
        return const(bool(t.args[0])) if t.args[0] != 'nan' else TRUE
    if op in ('eq', 'le', 'not', 'and', 'or', 'truth', 'exc', 'isinst', 'cmp'):
        return t
    if op == 'phi':
        return _phi_b(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if op in ('obj', 'func', 'class', 'mod', 'closure', 'bound'):
        return TRUE
    if op in ('lst', 'tup'):
        return const(bool(t.args))
    if op == 'cat':
        for p in t.args:
            if p.op in ('lst', 'enc') and p.args:
                return TRUE
            if is_const(p) and p.args[0]:
                return TRUE
    x = ty(t)
    if x is not None:
        if x == 'none':
            return FALSE
        if x == 'bool':
            return mk('truth', t)
        if x in ('int', 'num'):
            return neg_b(eq(t, const(0)))
        if x in ('str', 'bytes', 'tuple') or (x.startswith('list') or x.startswith('dict')) and not x.endswith('?'):
            return neg_b(le(mklen(t), const(0)))
        if x.startswith('obj:'):
            if x.endswith('?'):
                return neg_b(eq(t, NONE))
            return TRUE
    return mk('truth', t)


def _phi_b(c, a, b):
    return bor(band(c, a), band(neg_b(c), b))


# -------------------------------------------------------------------- phi

def subst_lit(t, lit, depth=3):
    """simplify t under the assumption that lit holds (shallow)"""
    if depth == 0:
        return t
    if ty(t) in ('int', 'str', 'int?', 'str?') and t.op != 'const':
        for l in (lit.args if lit.op == 'and' else (lit,)):
            if l.op == 'eq' and l.args[0] is t and is_const(l.args[1]) and type(l.args[1].args[0]) in (int, str):
                return l.args[1]
    if t.op == 'phi':
        v = _under(t.args[0], [lit] if _is_lit(lit) else (list(lit.args) if lit.op == 'and' else [lit]))
        if v is True:
            return subst_lit(t.args[1], lit, depth - 1)
        if v is False:
            return subst_lit(t.args[2], lit, depth - 1)
        return phi(t.args[0], subst_lit(t.args[1], lit, depth - 1), subst_lit(t.args[2], lit, depth - 1), raw=True)
    return t


def phi(c, a, b, raw=False):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if c.op == 'or':
        # canonical: conjunction side first
        n = neg_b(c)
        if n.op == 'and':
            return phi(n, b, a)
    if c.op == 'eq' and (c.args[0] is NONE and c.args[1] is a or c.args[1] is NONE and c.args[0] is a):
        a = NONE
        if b is NONE:
            return b
    if not raw:
        a2 = subst_lit(a, c)
        b2 = subst_lit(b, neg_b(c))
        if a2 is not a or b2 is not b:
            return phi(c, a2, b2)
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if ty(a) == 'bool' and ty(b) == 'bool' and (a.op in BOOLOPS or is_const(a)) and (b.op in BOOLOPS or is_const(b)):
        return _phi_b(c, a, b)
    # phi(c, cat(p, x), p) -> cat(p, phi(c, x, empty))
    if a.op == 'cat' or b.op == 'cat' or a.op == 'lst' or b.op == 'lst':
        r = _phi_cat(c, a, b)
        if r is not None:
            return r
    if a.op == 'dict' and b.op == 'dict' and a.args[0] is b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        out = {}
        for k in list(da) + [k for k in db if k not in da]:
            out[k] = phi(c, da.get(k, ABSENT), db.get(k, ABSENT))
        return mkdict(a.args[0], out)
    # tie normalisation for min / max like selections
    if c.op == 'le' and is_numeric(a) and is_numeric(b) or c.op == 'le' and a.op == 'lin' or c.op == 'le' and b.op == 'lin':
        L, bound = c.args
        try:
            d = sub(a, b)
            e = sub(L, const(bound + 1))
            if d is e or d is neg(e):
                # a <= b ? ... : the choice on equality does not matter
                c = mk('le', L, bound + 1)
        except Exception:
            pass
    if a.op == 'phi' and a.args[2] is b:
        return phi(band(c, a.args[0]), a.args[1], b)
    if b.op == 'phi' and b.args[1] is a:
        return phi(bor(c, b.args[0]), a, b.args[2])
    if b.op == 'phi' and b.args[2] is a:
        # c ? a : (d ? x : a)  ->  (not c and d) ? x : a
        return phi(band(neg_b(c), b.args[0]), b.args[1], a)
    if a.op == 'phi' and a.args[1] is b:
        # c ? (d ? b : y) : b -> (c and not d) ? y : b
        return phi(band(c, neg_b(a.args[0])), a.args[2], b)
    return mk('phi', c, a, b)


BOOLOPS = ('eq', 'le', 'not', 'and', 'or', 'truth', 'exc', 'isinst', 'cmp')


def _parts(t):
    if t.op == 'cat':
        return list(t.args)
    if t is EMPTYSEQ:
        return []
    return [t]


def _phi_cat(c, a, b):
    ta = base_ty(a)
    tb = base_ty(b)
    if not (is_seq(a) or is_seq(b)):
        return None
    if (ta or '').startswith('list') != (tb or '').startswith('list'):
        if a.op not in ('cat',) or b.op not in ('cat',):
            if not (b in _parts(a)[:1] or a in _parts(b)[:1]):
                return None
    pa, pb = _parts(a), _parts(b)
    # split const / lst prefixes
    n = 0
    while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
        n += 1
    pre = pa[:n]
    pa, pb = pa[n:], pb[n:]
    m = 0
    while m < len(pa) and m < len(pb) and pa[-1 - m] is pb[-1 - m]:
        m += 1
    suf = pa[len(pa) - m:] if m else []
    if m:
        pa, pb = pa[:-m], pb[:-m]
    # list literal prefix
    if not pre and pa and pb and pa[0].op == 'lst' and pb[0].op == 'lst':
        k = 0
        la, lb = pa[0].args, pb[0].args
        while k < len(la) and k < len(lb) and la[k] is lb[k]:
            k += 1
        if k:
            pre = [mk('lst', *la[:k])]
            pa = ([mk('lst', *la[k:])] if la[k:] else []) + pa[1:]
            pb = ([mk('lst', *lb[k:])] if lb[k:] else []) + pb[1:]
    if not pre and not suf:
        return None
    x = _mkcat_raw(pa)
    y = _mkcat_raw(pb)
    return cat(*(pre + [mk('phi', c, x, y) if not (x is EMPTYSEQ or y is EMPTYSEQ) else phi(c, x, y, raw=True)] + suf))


def _mkcat_raw(ps):
    if not ps:
        return EMPTYSEQ
    if len(ps) == 1:
        return ps[0]
    return cat(*ps)


# -------------------------------------------------------------- sequences

def _bytechr(q):
    return q.op == 'chr' and q.args[0].op == 'dec' and q.args[0].args[0] == 'B'


def cat(*ps):
    out = []
    for p in ps:
        for q in (p.args if p.op == 'cat' else (p,)):
            if q is EMPTYSEQ:
                continue
            if is_const(q) and isinstance(q.args[0], (str, bytes)) and len(q.args[0]) == 0:
                out.append(q)
                continue
            out.append(q)
    # drop empty literals unless nothing else
    nonempty = [q for q in out if not (is_const(q) and isinstance(q.args[0], (str, bytes)) and len(q.args[0]) == 0)
                and not (q.op == 'lst' and not q.args)]
    if not nonempty:
        return out[0] if out else EMPTYSEQ
    merged = []
    for q in nonempty:
        if merged:
            l = merged[-1]
            if is_const(l) and is_const(q) and type(l.args[0]) == type(q.args[0]) and isinstance(l.args[0], (str, bytes)):
                merged[-1] = const(l.args[0] + q.args[0])
                continue
            if l.op == 'lst' and q.op == 'lst':
                merged[-1] = mk('lst', *(l.args + q.args))
                continue
            if l.op == 'b2s' and q.op == 'b2s':
                merged[-1] = b2s(cat(l.args[0], q.args[0]))
                continue
        merged.append(q)
    if len(merged) == 1:
        return merged[0]
    # lift b2s when every part is (convertible to) a b2s
    if any(q.op == 'b2s' for q in merged) and all(q.op == 'b2s' or is_str_const(q) or _bytechr(q) for q in merged):
        return b2s(cat(*[q.args[0] if q.op == 'b2s' else mk('enc', 'B', q.args[0]) if q.op == 'chr' else
                         const(q.args[0].encode('latin-1')) for q in merged]))
    return mk('cat', *merged)


def lst(items):
    return mk('lst', *items)


def tup(items):
    return mk('tup', *items)


def b2s(x):
    if x.op == 's2b':
        return x.args[0]
    if is_bytes_const(x):
        return const(x.args[0].decode('latin-1'))
    if x.op == 'phi':
        return phi(x.args[0], b2s(x.args[1]), b2s(x.args[2]))
    if x is EMPTYSEQ:
        return x
    if x.op == 'cat' and any(p.op == 's2b' for p in x.args):
        return cat(*[b2s(p) for p in x.args])
    return mk('b2s', x)


def s2b(x):
    if x.op == 'b2s':
        return x.args[0]
    if is_str_const(x):
        try:
            return const(x.args[0].encode('latin-1'))
        except UnicodeError:
            pass
    if x.op == 'phi':
        return phi(x.args[0], s2b(x.args[1]), s2b(x.args[2]))
    if x.op == 'cat' and base_ty(x) == 'str' and any(p.op == 'b2s' for p in x.args):
        return cat(*[s2b(p) for p in x.args])
    return mk('s2b', x)


CODE_SIZE = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'Q': 8, 'q': 8, 'f': 4, 'd': 8}


def fixed_len(t):
    """statically known length of a bytes/str/list term, or None"""
    if is_const(t) and isinstance(t.args[0], (str, bytes)):
        return len(t.args[0])
    if t.op == 'enc':
        c = t.args[0]
        return CODE_SIZE.get(c[-1])
    if t.op in ('lst', 'tup'):
        return len(t.args)
    if t is EMPTYSEQ:
        return 0
    if t.op in ('b2s', 's2b'):
        return fixed_len(t.args[0])
    if t.op == 'cat':
        n = 0
        for p in t.args:
            k = fixed_len(p)
            if k is None:
                return None
            n += k
        return n
    if t.op == 'phi':
        a, b = fixed_len(t.args[1]), fixed_len(t.args[2])
        return a if a == b else None
    return None


ACC_LEN = {}     # (loop, accumulator) -> (length added per iteration, iterations or None)


def mklen(t):
    if t.op in ('acc', 'MU') and t.args in ACC_LEN:
        return scale(mk('it', t.args[0]), ACC_LEN[t.args][0])
    if t.op == 'eta' and t.args[1].op in ('acc', 'MU') and t.args[1].args in ACC_LEN and t.args[1].args[0] == t.args[0]:
        k, n = ACC_LEN[t.args[1].args]
        return scale(n if n is not None else mk('eta', t.args[0], mk('it', t.args[0])), k)
    n = fixed_len(t)
    if n is not None:
        return const(n)
    if t.op in ('b2s', 's2b'):
        return mklen(t.args[0])
    if t.op == 'cat':
        r = const(0)
        for p in t.args:
            r = add(r, mklen(p))
        return r
    if t.op == 'phi':
        if t.args[1] is EMPTYSEQ or t.args[2] is EMPTYSEQ or fixed_len(t.args[1]) is not None or \
                fixed_len(t.args[2]) is not None:
            return phi(t.args[0], mklen(t.args[1]), mklen(t.args[2]))
        return mk('len', t)
    if t.op == 'padto':
        return t.args[0]
    if t.op == 'slice' and t.args[2] is NONE and is_num_const(t.args[1]) and False:
        pass
    if t.op == 'rev':
        return mklen(t.args[0])
    if t.op == 'map':
        return mklen(t.args[0])
    if t.op == 'dict' and t.args[0] is EMPTYSEQ:
        if all(v is not ABSENT and not _may_absent(v) for k, v in t.args[1]):
            return const(len(t.args[1]))
    if EVEN and even_seq(t):
        return scale(mk('hlen', t), 2)
    return mk('len', t)


def padto(n, v):
    """v cut or NUL padded to n bytes"""
    if is_num_const(n):
        k = n.args[0]
        if is_bytes_const(v):
            return const(v.args[0][:max(k, 0)].ljust(max(k, 0), b'\0'))
        if fixed_len(v) == k:
            return v
    elif n is mklen(v):
        return v
    else:
        d = sub(n, mklen(v))
        if is_num_const(d) and 0 <= d.args[0] <= 64:
            return cat(v, const(b'\0' * d.args[0]))
    return mk('padto', n, v)


def _may_absent(v):
    if v is ABSENT:
        return True
    if v.op == 'phi':
        return _may_absent(v.args[1]) or _may_absent(v.args[2])
    return False


def idx(x, i):
    """x[i] for sequences"""
    if x.op == 'phi':
        return phi(x.args[0], idx(x.args[1], i), idx(x.args[2], i))
    if x is UNDEF:
        return UNDEF
    if is_num_const(i):
        k = i.args[0]
        if isinstance(k, int):
            if x.op in ('lst', 'tup'):
                if -len(x.args) <= k < len(x.args):
                    return x.args[k]
                return mk('indexerror')
            if is_const(x) and isinstance(x.args[0], (str, bytes)):
                try:
                    return const(x.args[0][k])
                except IndexError:
                    return mk('indexerror')
            if x.op == 'cat':
                parts = x.args if k >= 0 else x.args
                if k >= 0:
                    off = 0
                    for p in parts:
                        n = fixed_len(p)
                        if n is None:
                            break
                        if k < off + n:
                            return idx(p, const(k - off))
                        off += n
                else:
                    off = 0
                    for p in reversed(parts):
                        n = fixed_len(p)
                        if n is None:
                            break
                        if -k <= off + n:
                            return idx(p, const(n - (-k - off)))
                        off += n
    if x.op == 'cat' and i.op in ('it', 'eta') and len(x.args) == 2 and x.args[1].op == 'lst':
        # the shape of zip(xs, xs[1:] + [last])
        a, b = x.args
        if a.op == 'slice' and a.args[2] is NONE and is_num_const(a.args[1]) and a.args[1].args[0] >= 0:
            k = a.args[1]
            n = sub(mklen(a.args[0]), k)
            return phi(lt(i, n), idx(a.args[0], add(i, k)), phi(le(k, mklen(a.args[0])), idx(b, sub(i, n)), idx(b, i)))
    if x.op == 'lst' and len(x.args) == 1 and not is_const(i):
        return x.args[0]
    if x.op == 'b2s':
        return mk('chr', idx(x.args[0], i))
    if x.op == 's2b':
        return mk('ord', idx(x.args[0], i))
    if x.op == 'slice':
        lo, hi = x.args[1], x.args[2]
        if not (is_num_const(lo) and lo.args[0] < 0):
            if not (is_num_const(i) and i.args[0] < 0):
                return idx(x.args[0], add(lo, i))
            if hi is NONE:
                return idx(x.args[0], i)
    if x.op == 'rev' and x.args[0].op != 'rev':
        return idx(x.args[0], sub(sub(mklen(x.args[0]), const(1)), i))
    if base_ty(x) == 'bytes':
        if x.op == 'enc' and x.args[0] == 'B' and i is const(0):
            return x.args[1]
        return dec('B', x, i)
    # x[len(x) - k] -> x[-k]
    if x.op != 'tup':
        d = sub(i, mklen(x)) if i.op in ('lin', 'len', 'hlen') else None
        if d is not None and is_num_const(d) and isinstance(d.args[0], int) and d.args[0] < 0:
            return idx(x, d)
    return mk('idx', x, i)


def slc(x, lo, hi):
    if lo is NONE:
        lo = const(0)
    if x.op == 'b2s':
        return b2s(slc(x.args[0], lo, hi))
    if x.op == 's2b':
        return s2b(slc(x.args[0], lo, hi))
    if lo is const(0) and hi is NONE:
        return x
    if x.op == 'phi' and (fixed_len(x.args[1]) == 0 or fixed_len(x.args[2]) == 0):
        return phi(x.args[0], slc(x.args[1], lo, hi), slc(x.args[2], lo, hi))
    if hi is not NONE and hi.op in ('lin', 'len', 'hlen'):
        d = sub(hi, mklen(x))
        if is_num_const(d) and isinstance(d.args[0], int):
            if d.args[0] < 0:
                hi = d
            elif d.args[0] >= 0:
                hi = NONE
        if lo is const(0) and hi is NONE:
            return x
    if x.op == 'call' and x.args[0] == 'hexstr' and is_num_const(lo) and lo.args[0] % 2 == 0 and \
            (hi is NONE or is_num_const(hi) and hi.args[0] % 2 == 0):
        return mk('call', 'hexstr', slc(x.args[1], const(lo.args[0] // 2), NONE if hi is NONE else const(hi.args[0] // 2)), x.args[2])
    klo = lo.args[0] if is_num_const(lo) else None
    khi = hi.args[0] if is_const(hi) else 'sym'
    n = fixed_len(x)
    if klo is not None and khi != 'sym' and isinstance(klo, int):
        if is_const(x) and isinstance(x.args[0], (str, bytes)):
            return const(x.args[0][klo:khi])
        if x.op in ('lst', 'tup'):
            return mk(x.op, *x.args[klo:khi])
        if x.op == 'cat' and klo >= 0 and (khi is None or khi >= 0):
            off = 0
            out = []
            ok = True
            for p in x.args:
                if khi is not None and off >= khi:
                    break
                m = fixed_len(p)
                if m is None:
                    # unknown length part: only allowed if fully inside and to the end
                    if off >= klo and khi is None:
                        out.append(p)
                        off = None
                        idxp = x.args.index(p)
                        out.extend(x.args[idxp + 1:])
                        break
                    ok = False
                    break
                s, e = max(klo, off), (off + m if khi is None else min(khi, off + m))
                if s < e:
                    if s == off and e == off + m:
                        out.append(p)
                    elif p.op in ('lst', 'const'):
                        out.append(slc(p, const(s - off), const(e - off)))
                    else:
                        ok = False
                        break
                off += m
            if ok:
                if not out:
                    return const(b'') if base_ty(x) == 'bytes' else (const('') if base_ty(x) == 'str' else lst([]))
                return cat(*out)
    if x.op == 'slice' and not (klo is not None and klo < 0):
        xlo, xhi = x.args[1], x.args[2]
        if not (is_num_const(xlo) and xlo.args[0] < 0):
            if hi is NONE:
                return slc(x.args[0], add(xlo, lo), xhi)
            if not (khi != 'sym' and khi is not None and khi < 0):
                if xhi is NONE:
                    return slc(x.args[0], add(xlo, lo), add(xlo, hi))
            elif xhi is NONE:
                return slc(x.args[0], add(xlo, lo), hi)
    return mk('slice', x, lo, hi)


def dec(code, x, off):
    """decode field `code` of byte string x at byte offset off"""
    if x.op == 'phi':
        return phi(x.args[0], dec(code, x.args[1], off), dec(code, x.args[2], off))
    if x.op == 'slice':
        lo, hi = x.args[1], x.args[2]
        if not (is_num_const(lo) and lo.args[0] < 0):
            if not (is_num_const(off) and off.args[0] < 0):
                return dec(code, x.args[0], add(lo, off))
            if hi is NONE:
                return dec(code, x.args[0], off)
        elif hi is NONE and is_num_const(off) and isinstance(off.args[0], int) and off.args[0] >= 0:
            # data[-2:] at offset k -> -2+k
            k = lo.args[0] + off.args[0]
            if k < 0:
                return dec(code, x.args[0], const(k))
    if off.op in ('lin',):
        d = sub(off, mklen(x))
        if is_num_const(d) and d.args[0] < 0:
            off = d
    if is_num_const(off) and isinstance(off.args[0], int) and off.args[0] >= 0:
        o = off.args[0]
        pos = 0
        for p in (x.args if x.op == 'cat' else (x,)):
            if pos == o and p.op == 'enc' and p.args[0] == code:
                return p.args[1]
            n = fixed_len(p)
            if n is None:
                break
            pos += n
            if pos > o:
                break
        if is_bytes_const(x):
            import struct
            try:
                return const(struct.unpack_from('>' + code, x.args[0], o)[0])
            except struct.error:
                pass
    return mk('dec', code, x, off)


def shl(a, k):
    if is_num_const(a) and is_num_const(k):
        return const(a.args[0] << k.args[0])
    if is_num_const(k) and isinstance(k.args[0], int):
        return scale(a, 1 << k.args[0])
    return mk('shl', a, k)


BITS = {}       # loop-carried number -> how many bits it never exceeds


def bits(t, memo=None):
    """a bound on the binary digits of t, known not to be negative; or None"""
    if memo is None:
        memo = {}
    if t not in memo:
        memo[t] = None
        memo[t] = _bits(t, memo)
    return memo[t]


def _bits(t, memo):
    op = t.op
    if op == 'const':
        v = t.args[0]
        return v.bit_length() if isinstance(v, int) and v >= 0 else None
    if op == 'mu':
        return BITS.get(t)
    if op == 'eta':
        return bits(t.args[1], memo)
    if op == 'dec':
        return 8 * CODE_SIZE[t.args[0]] if t.args[0] in 'BHIQ' else None
    if op == 'band':
        b = [x for x in (bits(t.args[0], memo), bits(t.args[1], memo)) if x is not None]
        return min(b) if b else None
    if op in ('bor', 'bxor'):
        a, b = bits(t.args[0], memo), bits(t.args[1], memo)
        return None if a is None or b is None else max(a, b)
    if op == 'phi':
        a, b = bits(t.args[1], memo), bits(t.args[2], memo)
        return None if a is None or b is None else max(a, b)
    if op == 'shr' and is_num_const(t.args[1]):
        a = bits(t.args[0], memo)
        return None if a is None else max(0, a - t.args[1].args[0])
    if op == 'modulo' and is_num_const(t.args[1]) and isinstance(t.args[1].args[0], int) and t.args[1].args[0] > 0:
        return (t.args[1].args[0] - 1).bit_length()
    if op == 'lin' and t.args[0] == 0 and len(t.args[1]) == 1:
        x, k = t.args[1][0]
        if isinstance(k, int) and k > 0 and k & (k - 1) == 0:
            a = bits(x, memo)
            return None if a is None else a + k.bit_length() - 1
    if op == 'idx' and t.args[0].op in ('lst', 'tup') and len(t.args[0].args) <= 1024:
        r = 0
        for x in t.args[0].args:
            a = bits(x, memo)
            if a is None:
                return None
            r = max(r, a)
        return r
    if op == 'idx' and base_ty(t.args[0]) == 'bytes':
        return 8
    if op == 'ord':
        return 8                # frames held as text are read as latin-1 throughout (see 's2b')
    return None


def shr(a, k):
    if is_num_const(a) and is_num_const(k):
        return const(a.args[0] >> k.args[0])
    if is_num_const(k) and a.op == 'band' and is_num_const(a.args[0]) and isinstance(a.args[0].args[0], int):
        return bitand(const(a.args[0].args[0] >> k.args[0]), shr(a.args[1], k))
    return mk('shr', a, k)


def _hi_lo(a):
    """a == 256*dec('B',x,i): return (x,i)"""
    if a.op == 'lin' and a.args[0] == 0 and len(a.args[1]) == 1:
        t, k = a.args[1][0]
        if k == 256 and t.op == 'dec' and t.args[0] == 'B':
            return t.args[1], t.args[2]
    if a.op == 'shl' and is_num_const(a.args[1]) and a.args[1].args[0] == 8 and a.args[0].op == 'dec' and a.args[0].args[0] == 'B':
        return a.args[0].args[1], a.args[0].args[2]
    return None


def bitor(a, b):
    if is_num_const(a) and is_num_const(b):
        return const(a.args[0] | b.args[0])
    for x, y in ((a, b), (b, a)):
        h = _hi_lo(x)
        if h and y.op == 'dec' and y.args[0] == 'B' and y.args[1] is h[0] and sub(y.args[2], h[1]) is const(1):
            return dec('H', h[0], h[1])
        if x.op == 'lin' and x.args[0] == 0 and all(isinstance(k, int) and k % 256 == 0 for _, k in x.args[1]) and \
                (y.op == 'dec' and y.args[0] == 'B' or y.op == 'band' and is_num_const(y.args[0]) and 0 <= y.args[0].args[0] < 256):
            return norm_lin_dec(add(x, y))
        if x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1 and isinstance(x.args[1][0][1], int):
            k = x.args[1][0][1]
            n = bits(y)
            if k > 0 and n is not None and k % (1 << n) == 0 and is_int(x.args[1][0][0]):
                return norm_lin_dec(add(x, y))
    return mk('bor', *sorted((a, b), key=lambda x: x.id))


def norm_lin_dec(t):
    """256*x[i] + x[i+1] -> dec H"""
    if t.op == 'lin':
        c, d = linparts(t)
        for x, k in d.items():
            if k == 256 and x.op == 'dec' and x.args[0] == 'B':
                for y, j in d.items():
                    if j == 1 and y.op == 'dec' and y.args[0] == 'B' and y.args[1] is x.args[1] and \
                            sub(y.args[2], x.args[2]) is const(1):
                        d2 = dict(d)
                        del d2[x]
                        del d2[y]
                        z = dec('H', x.args[1], x.args[2])
                        d2[z] = d2.get(z, 0) + 1
                        return mklin(c, d2)
    return t


def apart(parts):
    """multiples by powers of two of numbers, no two with a digit in the same place"""
    spans = []
    for t, k in parts:
        n = bits(t)
        if not isinstance(k, int) or k <= 0 or k & (k - 1) or n is None:
            return False
        spans.append((k.bit_length() - 1, k.bit_length() - 1 + n))
    spans.sort()
    return all(spans[i][1] <= spans[i + 1][0] for i in range(len(spans) - 1))


def bitand(a, b):
    if is_num_const(a) and is_num_const(b):
        return const(a.args[0] & b.args[0])
    if is_num_const(b):
        a, b = b, a
    if is_num_const(a) and isinstance(a.args[0], int):
        m = a.args[0]
        if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) == 1 and m >= 0:
            t, k = b.args[1][0]
            if isinstance(k, int) and k > 1 and k & (k - 1) == 0 and is_int(t):
                return scale(bitand(const(m // k), t), k)
        if b.op == 'band' and is_num_const(b.args[0]):
            return bitand(const(m & b.args[0].args[0]), b.args[1])
        if b.op == 'bxor' and m >= 0:
            return bitxor(bitand(a, b.args[0]), bitand(a, b.args[1]))
        if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) > 1 and m >= 0 and apart(b.args[1]):
            r = const(0)
            for t, k in b.args[1]:
                r = add(r, bitand(a, scale(t, k)))
            return norm_lin_dec(r)
        if b.op == 'dec' and b.args[0] in 'BH' and m == 256 ** CODE_SIZE[b.args[0]] - 1:
            return b
        if m == 1 and ty(b) == 'int':
            return modulo(b, const(2))
        if m > 0 and m & (m + 1) == 0:
            n = bits(b)
            if n is not None and n <= m.bit_length():
                return b
        return mk('band', a, b)
    return mk('band', *sorted((a, b), key=lambda x: x.id))


def bitxor(a, b):
    if is_num_const(a) and is_num_const(b):
        return const(a.args[0] ^ b.args[0])
    c, odd, todo = 0, set(), [a, b]
    while todo:
        x = todo.pop()
        if x.op == 'bxor':
            todo.extend(x.args)
        elif is_num_const(x) and isinstance(x.args[0], int):
            c ^= x.args[0]
        else:
            odd ^= {x}
    r = None
    for x in sorted(odd, key=lambda x: x.id) + ([const(c)] if c else []):
        r = x if r is None else mk('bxor', r, x)
    return const(0) if r is None else r


# ------------------------------------------------------------------ dicts

def mkdict(base, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if not (v is ABSENT and base is EMPTYSEQ)),
                         key=lambda kv: kv[0].id))
    key = ('dict', base.id, tuple((k.id, v.id) for k, v in items))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = 'dict'
        t.args = (base, items)
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t._ty = None
        _TABLE[key] = t
    return t


def dget(d, k):
    """value or None"""
    if d.op == 'phi':
        return phi(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
    if d.op == 'dict':
        base, items = d.args
        for kk, v in items:
            if kk is k:
                return _absent_to(v, NONE if base is EMPTYSEQ else dget(base, k))
        if is_const(k) and all(is_const(kk) for kk, _ in items):
            return NONE if base is EMPTYSEQ else dget(base, k)
        if base is EMPTYSEQ and all(is_const(kk) for kk, _ in items) and len(items) <= 64:
            r = NONE
            for kk, v in reversed(items):
                r = phi(eq(k, kk), _absent_to(v, NONE), r, raw=True)
            return r
    return mk('dget', d, k)


def _absent_to(v, repl):
    if v is ABSENT:
        return repl
    if v.op == 'phi':
        return phi(v.args[0], _absent_to(v.args[1], repl), _absent_to(v.args[2], repl))
    return v


def dset(d, k, v):
    if d.op == 'dict':
        base, items = d.args
        m = dict(items)
        if k in m or (is_const(k) and all(is_const(x) for x in m)) or not m:
            m[k] = v
            return mkdict(base, m)
        return mkdict(d, {k: v})
    if d.op == 'phi' and (d.args[1].op == 'dict' or d.args[2].op == 'dict'):
        return phi(d.args[0], dset(d.args[1], k, v), dset(d.args[2], k, v))
    return mkdict(d, {k: v})


# ------------------------------------------------------------- traversals

def children(t):
    if t.op == 'lin':
        return [x for x, _ in t.args[1]]
    if t.op == 'dict':
        return [t.args[0]] + [x for kv in t.args[1] for x in kv]
    return [a for a in t.args if isinstance(a, T)]


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


pack_later = None      # set where struct formats are understood


def rebuild(t, kids):
    """rebuild t with new children (same order as children())"""
    op = t.op
    a = t.args
    if op == 'lin':
        r = const(a[0])
        for (x, k), n in zip(a[1], kids):
            r = add(r, scale(n, k)) if n.op not in ('const',) or is_num_const(n) else mk('fadd', r, n, k)
        return norm_lin_dec(r)
    if op == 'dict':
        it = iter(kids[1:])
        base = kids[0]
        d = {}
        for (k, v) in a[1]:
            nk = next(it)
            nv = next(it)
            d[nk] = nv
        return mkdict(base, d)
    if op == 'phi':
        return phi(*kids)
    if op == 'and':
        return band(*kids)
    if op == 'or':
        return bor(*kids)
    if op == 'not':
        return neg_b(kids[0])
    if op == 'le':
        return le(kids[0], const(a[1]))
    if op == 'eq':
        return eq(*kids)
    if op == 'truth':
        return truth(kids[0])
    if op == 'isinst':
        return FALSE if kids[0] is NONE and a[2] != 'sub' else mk(op, *(tuple(kids) + a[len(kids):]))
    if op == 'cat':
        return cat(*kids)
    if op == 'idx':
        return idx(*kids)
    if op == 'slice':
        return slc(*kids)
    if op == 'padto':
        return padto(*kids)
    if op == 'len':
        return mklen(kids[0])
    if op == 'hlen':
        return scale(mklen(kids[0]), Fraction(1, 2))
    if op == 'dget':
        return dget(*kids)
    if op == 'b2s':
        return b2s(kids[0])
    if op == 's2b':
        return s2b(kids[0])
    if op == 'dec':
        return dec(a[0], kids[0], kids[1])
    if op == 'mul':
        r = kids[0]
        for k in kids[1:]:
            r = mul(r, k)
        return r
    if op == 'floor':
        return floor(kids[0])
    if op == 'call' and a[0] == 'int' and len(kids) == 1:
        return floor(kids[0]) if ty(kids[0]) in ('int', 'num') else mk('call', 'int', *kids)
    if op == 'bor':
        return bitor(*kids)
    if op == 'band':
        return bitand(*kids)
    if op == 'bxor':
        return bitxor(*kids)
    if op == 'shl':
        return shl(*kids)
    if op == 'shr':
        return shr(*kids)
    if op == 'modulo':
        return modulo(*kids)
    if op == 'ord' and kids[0].op == 'chr':
        return kids[0].args[0]
    if op == 'chr' and kids[0].op == 'ord':
        return kids[0].args[0]
    if op == 'call' and a[0] == 'struct.pack' and len(kids) > 1 and is_const(kids[0]):
        return pack_later(kids) if pack_later is not None else mk('call', 'struct.pack', *kids)
    if op == 'call' and a[0] in ('replace', 'upper', 'lower') and kids[0] is EMPTYSEQ:
        return kids[0]
    if op == 'call' and a[0] in ('replace', 'upper', 'lower') and len(kids) == len(a) - 1 and all(is_const(k) for k in kids) and \
            isinstance(kids[0].args[0], (str, bytes)):
        try:
            return const(getattr(kids[0].args[0], a[0])(*[k.args[0] for k in kids[1:]]))
        except TypeError:
            pass
    it = iter(kids)
    return mk(op, *[next(it) if isinstance(x, T) else x for x in a])


def subst(t, fn, memo=None):
    """bottom-up rewrite; fn(term) -> replacement or None (checked first, top-down)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        n = fn(x)
        if n is None:
            ch = children(x)
            if ch:
                nk = [go(c) for c in ch]
                n = x if all(p is q for p, q in zip(ch, nk)) else rebuild(x, nk)
            else:
                n = x
        memo[x] = n
        return n
    return go(t)


# ---------------------------------------------------------------- display

def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0])
    if depth == 0:
        return '..'
    s = lambda x: show(x, depth - 1)
    if op == 'lin':
        parts = []
        for x, k in a[1]:
            if k == 1:
                parts.append('+ %s' % s(x))
            elif k == -1:
                parts.append('- %s' % s(x))
            else:
                parts.append('%s %s*%s' % ('+' if k > 0 else '-', abs(k), s(x)))
        if a[0]:
            parts.append('%s %s' % ('+' if a[0] > 0 else '-', abs(a[0])))
        r = ' '.join(parts)
        return '(' + (r[2:] if r.startswith('+ ') else r) + ')'
    if op == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'sym':
        return str(a[0])
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'slice':
        return '%s[%s:%s]' % (s(a[0]), '' if a[1] is const(0) else s(a[1]), '' if a[2] is NONE else s(a[2]))
    if op == 'dget':
        return '%s.get(%s)' % (s(a[0]), s(a[1]))
    if op == 'le':
        return '%s <= %s' % (s(a[0]), a[1])
    if op == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'not':
        x = a[0]
        if x.op == 'le':
            return '%s > %s' % (s(x.args[0]), x.args[1])
        if x.op == 'eq':
            return '%s != %s' % (s(x.args[0]), s(x.args[1]))
        return 'not(%s)' % s(x)
    if op == 'truth':
        return 'bool(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a) + ')'
    if op == 'phi':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if op == 'cat':
        return ' ++ '.join(s(x) for x in a)
    if op == 'enc':
        return 'pack(%s, %s)' % (a[0], s(a[1]))
    if op == 'dec':
        return 'unpack(%s, %s @%s)' % (a[0], s(a[1]), s(a[2]))
    if op == 'len':
        return 'len(%s)' % s(a[0])
    if op == 'hlen':
        return 'regs(%s)' % s(a[0])
    if op == 'dict':
        return '{%s%s}' % ('' if a[0] is EMPTYSEQ else '**%s, ' % s(a[0]),
                           ', '.join('%s: %s' % (s(k), s(v)) for k, v in a[1]))
    if op == 'lst':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if op == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))
