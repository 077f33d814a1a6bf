"""Sensitivity of the behaviour rules: small changes of the analysed source,
made on the parsed tree in memory, that the rules are expected to report."""
import ast
import copy
import random
import time

from . import engine
from .source import local_names

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def sites(fn):
    """(description, apply, undo) for every mutation of a function"""
    out = []

    def setter(obj, field, new, what, node):
        old = getattr(obj, field)

        def ap():
            setattr(obj, field, new)

        def un():
            setattr(obj, field, old)
        out.append(('%s:%s %s' % (fn.qual.rpartition('.')[2], getattr(node, 'lineno', '?'), what), ap, un))

    def body(parent, field):
        lst = getattr(parent, field, None)
        if not isinstance(lst, list):
            return
        for i, s in enumerate(lst):
            if not isinstance(s, ast.stmt):
                continue
            if isinstance(s, (ast.Expr,)) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global)):
                continue

            def ap(lst=lst, i=i):
                lst[i] = ast.copy_location(ast.Pass(), lst[i])

            def un(lst=lst, i=i, s=s):
                lst[i] = s
            out.append(('%s:%s drop %s' % (fn.qual.rpartition('.')[2], s.lineno, ast.unparse(s).split('\n')[0][:70]), ap, un))

    for n in ast.walk(fn.node):
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                m = CMP.get(type(op))
                if m:
                    new = list(n.ops)
                    new[i] = m()
                    setter(n, 'ops', new, 'cmp %s' % ast.unparse(n)[:60], n)
        elif isinstance(n, ast.BinOp):
            m = BIN.get(type(n.op))
            if m:
                setter(n, 'op', m(), 'op %s' % ast.unparse(n)[:60], n)
        elif isinstance(n, ast.AugAssign):
            m = BIN.get(type(n.op))
            if m:
                setter(n, 'op', m(), 'aug %s' % ast.unparse(n)[:60], n)
        elif isinstance(n, ast.BoolOp):
            setter(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And(), 'bool %s' % ast.unparse(n)[:60], n)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                setter(n, 'value', not v, 'const %r' % v, n)
            elif isinstance(v, int):
                setter(n, 'value', v + 1, 'const %r+1' % v, n)
            elif v is None:
                setter(n, 'value', 0, 'const None->0', n)
        elif isinstance(n, (ast.If, ast.While)):
            setter(n, 'test', ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test), 'negate %s' % ast.unparse(n.test)[:60], n)
        elif isinstance(n, ast.Try) and n.finalbody:
            setter(n, 'finalbody', [ast.copy_location(ast.Pass(), n)], 'drop finally', n)
        elif isinstance(n, ast.Break):
            pass
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            new = list(n.args)
            new[0], new[1] = new[1], new[0]
            setter(n, 'args', new, 'swap args %s' % ast.unparse(n)[:60], n)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            pass
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(n, (ast.Lambda, ast.IfExp)):
                body(n, f)
    # docstrings and default values of the entry itself stay
    return out


def run_mutants(e, proj, limit=None, seed=1, max_time=8.0, deadline=None, verbose=False):
    prog = engine.program()
    A = e.summary()[0]
    fns = [prog.func(e.qual)]
    for q in sorted(A.run.inlined):
        if q.startswith('spec.') or q == e.qual:
            continue
        try:
            fns.append(prog.func(q))
        except Exception:
            pass
    allm = []
    for f in fns:
        allm += [(f,) + s for s in sites(f)]
    if limit is not None and len(allm) > limit:
        random.Random(seed).shuffle(allm)
        allm = allm[:limit]
    res = {'killed': 0, 'survived': [], 'undecided': []}
    keep = {k: v for k, v in e._cache.items() if k != 'code'}
    for f, what, ap, un in allm:
        if deadline and time.time() > deadline:
            break
        ap()
        old = f.locals
        try:
            e._cache = dict(keep)
            try:
                s, d, o = e.check(proj, max_time=max_time)
            except Exception as x:
                s, d = 'undecided', repr(x)
        finally:
            un()
            f.locals = old
        if s == 'diff':
            res['killed'] += 1
        elif s == 'ok':
            res['survived'].append(what)
        else:
            res['undecided'].append((what, str(d)[:100]))
        if verbose and s != 'diff':
            print('   ', s, what, '' if s == 'ok' else str(d)[:100])
    e._cache = keep
    return res


def sensitivity(pid, p, res, ctx, seed):
    """thorough tier: confirm that the rules react to changes of the source"""
    from .entries import ENTRIES
    total = {'killed': 0, 'survived': 0, 'undecided': 0}
    detail = {}
    for r in p['rules']:
        key = getattr(r, 'key', None)
        if key is None or key not in ENTRIES or time.time() > ctx['deadline'] - 30:
            continue
        m = run_mutants(ENTRIES[key], r.proj, 40, seed, 5.0, min(ctx['deadline'] - 20, time.time() + 60))
        for k in total:
            total[k] += m[k] if isinstance(m[k], int) else len(m[k])
        detail[key] = {'killed': m['killed'], 'unreported': m['survived'], 'undecided': len(m['undecided'])}
    res.notes.append({'sensitivity': 'in-memory source mutants reported by the rules (unreported ones are outside the projection '
                      'of the property or behave the same)', 'total': total, 'per_entry': detail})
