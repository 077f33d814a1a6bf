"""Behaviour-preserving rewrites of a scratch copy of the tree, to look for
false alarms.

python3 tools/refactor.py TRANSFORM[,TRANSFORM...] [--prob P] [--seed N] [--only QUALPART] [--keys k1,k2*] [--keep]
python3 tools/refactor.py all
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['sunspec/core/%s.py' % n for n in ('client', 'device', 'data', 'smdx', 'pics', 'suns', 'util', 'modbus/client', 'modbus/mbmap')]

LISTS = ('models_list', 'blocks', 'points_list', 'regs', 'device_data', 'model_data', 'point_data', 'base_addr_list', 'read_blocks', 'symbols')


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *kinds):
    for x in (n if isinstance(n, list) else [n]):
        for y in ast.walk(x):
            if isinstance(y, kinds):
                return True
    return False


def loose(body, kinds):
    """break/continue of the loop itself"""
    out = []

    def go(ss):
        for s in ss:
            if isinstance(s, kinds):
                out.append(s)
            if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                go(s.orelse if not isinstance(s, ast.FunctionDef) else [])
                continue
            for f in ('body', 'orelse', 'finalbody'):
                go(getattr(s, f, []) or [])
            for h in getattr(s, 'handlers', []) or []:
                go(h.body)
    go(body)
    return out


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def P(s):
    return ast.parse(s).body


def NOT(e):
    return ast.UnaryOp(ast.Not(), e)


class T(object):
    def __init__(self, rnd, prob, only):
        self.rnd = rnd
        self.prob = prob
        self.only = only
        self.count = 0
        self.n = 0

    def pick(self):
        ok = self.rnd.random() < self.prob
        if ok:
            self.count += 1
        return ok

    def fresh(self, base):
        self.n += 1
        return '%s_%d' % (base, self.n)

    # ------------------------------------------------------------ driver
    def module(self, tree, mod):
        self.tree = tree
        for c in [None] + [x for x in tree.body if isinstance(x, ast.ClassDef)]:
            body = tree.body if c is None else c.body
            for f in list(body):
                if isinstance(f, ast.FunctionDef):
                    q = mod + '.' + (c.name + '.' if c else '') + f.name
                    if self.only and self.only not in q:
                        continue
                    self.cls = c
                    self.holder = body
                    self.fn = f
                    self.params = [a.arg for a in f.args.args]
                    self.nested = has(f.body, ast.FunctionDef, ast.Lambda)
                    self.func(f)

    def func(self, f):
        f.body = self.block(f.body, True)

    def block(self, body, tail=False, loop=False):
        out = []
        for i, s in enumerate(body):
            last = i == len(body) - 1
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    inloop = isinstance(s, (ast.For, ast.While)) and fld == 'body'
                    setattr(s, fld, self.block(b, False if inloop else tail and last and isinstance(s, ast.If), inloop or loop))
            for h in getattr(s, 'handlers', []) or []:
                h.body = self.block(h.body, False, loop)
            out += self.stmt(s, tail and last, body, i)
        return self.after(out, tail)

    def after(self, out, tail):
        return out

    def stmt(self, s, tail, body, i):
        return [s]


class Expr(T):
    def func(self, f):
        outer = self

        class V(ast.NodeTransformer):
            def generic_visit(self, n):
                super(V, self).generic_visit(n)
                return outer.expr(n) if isinstance(n, ast.expr) else n
        for i, s in enumerate(f.body):
            f.body[i] = V().visit(s)

    def expr(self, n):
        return n


class Rename(T):
    def func(self, f):
        if self.nested or has(f.body, ast.Global):
            return
        loc = names(f, ast.Store) - set(self.params)
        loc |= {h.name for x in ast.walk(f) if isinstance(x, ast.Try) for h in x.handlers if h.name}
        m = {n: n + '_v' for n in sorted(loc) if self.pick()}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]


class IfSwap(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.If) and s.orelse and self.pick():
            return [ast.If(NOT(s.test), s.orelse, s.body)]
        return [s]


class Guard(T):
    """trailing if -> early exit"""
    def block(self, body, tail=False, loop=False):
        self._tail = tail
        return T.block(self, body, tail, loop)

    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.If) and not s.orelse and tail and self.pick():
            return [ast.If(NOT(s.test), P('def f():\n return\n')[0].body, [])] + s.body
        if isinstance(s, (ast.For, ast.While)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse and self.pick():
            l = s.body[-1]
            s.body = s.body[:-1] + [ast.If(NOT(l.test), [ast.Continue()], [])] + l.body
        return [s]


class DropElse(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and self.pick():
            o = s.orelse
            s.orelse = []
            return [s] + o
        return [s]


class AddElse(T):
    def after(self, out, tail):
        for i, s in enumerate(out):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(out) and self.pick():
                s.orelse = self.after(out[i + 1:], tail)
                return out[:i + 1]
        return out


class WhileTrue(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)) and self.pick():
            return [ast.While(ast.Constant(True), [ast.If(NOT(s.test), [ast.Break()], [])] + s.body, [])]
        return [s]


class WhileCond(T):
    """while True: if c: break; B -> while not c: B"""
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and isinstance(s.body[0], ast.If) and \
                not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break) and len(s.body) > 1 and self.pick():
            return [ast.While(NOT(s.body[0].test), s.body[1:], [])]
        return [s]


class ForWhile(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and \
                not s.orelse and isinstance(s.target, ast.Name) and not loose(s.body, (ast.Continue,)):
            v = s.target.id
            if v in set().union(*[names(x, ast.Store) for x in s.body]):
                return [s]
            a = s.iter.args
            if len(a) == 3 and not (isinstance(a[2], ast.Constant)):
                return [s]
            if not self.pick():
                return [s]
            lo = a[0] if len(a) > 1 else ast.Constant(0)
            hi = a[1] if len(a) > 1 else a[0]
            st = a[2] if len(a) == 3 else ast.Constant(1)
            out = []
            h = self.fresh('stop')
            k = self.fresh('k')
            out.append(ast.Assign([ast.Name(k, ast.Store())], lo))
            out.append(ast.Assign([ast.Name(h, ast.Store())], hi))
            w = ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]),
                          [ast.Assign([ast.Name(v, ast.Store())], ast.Name(k, ast.Load()))] + s.body +
                          [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), st)], [])
            return out + [w]
        return [s]


def listy(e):
    return isinstance(e, ast.Attribute) and e.attr in LISTS


class ForIndex(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.For) and listy(s.iter) and isinstance(s.target, ast.Name) and self.pick():
            k = self.fresh('k')
            it = s.iter
            return [ast.For(ast.Name(k, ast.Store()), P('range(len(%s))' % ast.unparse(it))[0].value,
                            P('%s = %s[%s]' % (s.target.id, ast.unparse(it), k)) + s.body, s.orelse)]
        return [s]


class ForEnum(T):
    """for x in L -> for k, x in enumerate(L)"""
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.For) and listy(s.iter) and isinstance(s.target, ast.Name) and self.pick():
            k = self.fresh('k')
            return [ast.For(ast.Tuple([ast.Name(k, ast.Store()), s.target], ast.Store()), P('enumerate(%s)' % ast.unparse(s.iter))[0].value,
                            s.body, s.orelse)]
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == 'range' and len(s.iter.args) == 1 and \
                ast.unparse(s.iter.args[0]).startswith('len(') and listy(s.iter.args[0].args[0]) and self.pick():
            k = self.fresh('x')
            lst = ast.unparse(s.iter.args[0].args[0])
            v = s.target.id

            class V(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    if ast.unparse(n) == '%s[%s]' % (lst, v) and isinstance(n.ctx, ast.Load):
                        return ast.Name(k, ast.Load())
                    return self.generic_visit(n)
            s.body = [V().visit(x) for x in s.body]
            return [ast.For(ast.Tuple([s.target, ast.Name(k, ast.Store())], ast.Store()), P('enumerate(%s)' % lst)[0].value, s.body, s.orelse)]
        return [s]


class Aug(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.AugAssign) and self.pick():
            l = copy.deepcopy(s.target)
            for x in ast.walk(l):
                if hasattr(x, 'ctx') and x is l:
                    x.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(l, s.op, s.value))]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.BinOp) and \
                ast.unparse(s.value.left) == ast.unparse(s.targets[0]) and self.pick():
            return [ast.AugAssign(s.targets[0], s.value.op, s.value.right)]
        return [s]


class TempRet(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and self.pick():
            k = self.fresh('result')
            return [ast.Assign([ast.Name(k, ast.Store())], s.value), ast.Return(ast.Name(k, ast.Load()))]
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and self.pick():
            k = self.fresh('cond')
            t = s.test
            s.test = ast.Name(k, ast.Load())
            return [ast.Assign([ast.Name(k, ast.Store())], t), s]
        if isinstance(s, ast.Raise) and s.exc is not None and isinstance(s.exc, ast.Call) and s.cause is None and self.pick():
            k = self.fresh('err')
            return [ast.Assign([ast.Name(k, ast.Store())], s.exc), ast.Raise(ast.Name(k, ast.Load()), None)]
        return [s]


class TempArg(T):
    """arguments of a call statement into variables, in order"""
    def stmt(self, s, tail, body, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call) and v.args and not v.keywords and \
                isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in v.args) and self.pick():
            pre = []
            for j, a in enumerate(v.args):
                if isinstance(a, (ast.Constant, ast.Name)):
                    continue
                k = self.fresh('arg')
                pre.append(ast.Assign([ast.Name(k, ast.Store())], a))
                v.args[j] = ast.Name(k, ast.Load())
            return pre + [s]
        return [s]


class InlineTemp(T):
    def after(self, out, tail):
        i = 0
        while i + 1 < len(out):
            s, n = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(n, (ast.Return, ast.Assign, ast.Expr)) and not has(n, ast.Lambda, ast.ListComp):
                v = s.targets[0].id
                uses = [x for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id == v]
                loads = [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                simple = not has(n.value, ast.Call) or (isinstance(n.value, ast.Call) and not any(has(a, ast.Call) for a in n.value.args))
                if len(uses) == 2 and len(loads) == 1 and n.value is not None and not has(s.value, ast.Call) and self.pick():
                    class V(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x is loads[0] else x
                    n.value = V().visit(n.value)
                    del out[i]
                    continue
            i += 1
        return out


class Flip(Expr):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in self.SW and self.pick():
            return ast.Compare(n.comparators[0], [self.SW[type(n.ops[0])]()], [n.left])
        return n


class NotCmp(Expr):
    SW = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
          ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in self.SW and self.pick():
            return NOT(ast.Compare(n.left, [self.SW[type(n.ops[0])]()], n.comparators))
        return n


class Nest(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and self.pick():
            v = s.test.values
            b = s.body
            for t in reversed(v):
                b = [ast.If(t, b, [])]
            return b
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and self.pick():
            return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])]
        return [s]


class SplitOr(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and ends(s.body) and self.pick():
            return [ast.If(t, copy.deepcopy(s.body), []) for t in s.test.values]
        return [s]


class DeMorgan(Expr):
    def expr(self, n):
        if isinstance(n, ast.BoolOp) and self.isbool(n) and self.pick():
            op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            return NOT(ast.BoolOp(op, [NOT(v) for v in n.values]))
        return n

    def isbool(self, n):
        if isinstance(n, ast.BoolOp):
            return all(self.isbool(v) for v in n.values)
        return isinstance(n, ast.Compare) or (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not))


class Ternary(T):
    def stmt(self, s, tail, body, i):
        def one(b):
            return len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1
        if isinstance(s, ast.If) and one(s.body) and one(s.orelse) and ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]) and self.pick():
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and self.pick():
            return [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) \
                and s.body[0].value and s.orelse[0].value and self.pick():
            return [ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        return [s]


class OneExit(T):
    """if c: x = a else: x = b  ->  x = b; if c: x = a   (pure b)"""
    def stmt(self, s, tail, body, i):
        def one(b):
            return len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1
        if isinstance(s, ast.If) and one(s.body) and one(s.orelse) and isinstance(s.body[0].targets[0], ast.Name) and \
                ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]) and isinstance(s.orelse[0].value, (ast.Constant, ast.Name)) \
                and s.body[0].targets[0].id not in names(s.test) | names(s.body[0].value) and self.pick():
            return [s.orelse[0], ast.If(s.test, s.body, [])]
        return [s]


class Swap(T):
    def after(self, out, tail):
        def simple(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
                (not has(s.value, ast.Call, ast.Subscript, ast.BinOp) or ast.unparse(s.value).startswith('element.attrib.get(')) and \
                (isinstance(s.targets[0], ast.Name) or isinstance(s.targets[0].value, ast.Name))
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if simple(a) and simple(b):
                ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
                ra, rb = ast.unparse(a.value), ast.unparse(b.value)
                if ta != tb and ta not in rb and tb not in ra and not tb.startswith(ta) and not ta.startswith(tb) and self.pick():
                    out[i], out[i + 1] = b, a
                    i += 1
            i += 1
        return out


class Wrap(T):
    """whole body into a helper method / function"""
    def func(self, f):
        if f.name.startswith('__') and f.name != '__init__' or f.decorator_list or f.args.vararg or f.args.kwarg or has(f.body, ast.Global, ast.Yield):
            return
        if not self.pick():
            return
        doc = []
        body = f.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if not body or (self.cls is not None and has(body, ast.Call) and 'super()' in ast.unparse(f)):
            return
        name = '_impl_%s_%s' % (self.cls.name if self.cls else '', f.name)
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in self.params], None, [], [], None, []), body, [], None, None)
        if sys.version_info >= (3, 12):
            h.type_params = []
        self.holder.insert(self.holder.index(f), h)
        if self.cls is None:
            call = '%s(%s)' % (name, ', '.join(self.params))
        else:
            call = '%s.%s(%s)' % (self.params[0], name, ', '.join(self.params[1:]))
        f.body = doc + P('def g():\n return %s' % call)[0].body


class Extract(T):
    """the body of an if or of a loop into a helper function of the module"""
    size = 2

    def stmt(self, s, tail, body, i):
        if self.nested or has(self.fn.body, ast.Global):
            return [s]
        for fld in ('body', 'orelse'):
            b = getattr(s, fld, None)
            if not isinstance(s, (ast.If, ast.For, ast.While)) or not b or len(b) < self.size or has(b, ast.Return, ast.Yield, ast.FunctionDef, ast.Lambda) or \
                    loose(b, (ast.Break, ast.Continue)):
                continue
            r = self.extract(b)
            if r and self.pick():
                setattr(s, fld, self.emit(b, *r))
        return [s]

    def extract(self, b):
        loc = names(self.fn, ast.Store) | set(self.params)
        st = set().union(*[names(x, ast.Store) for x in b])
        # assigned unconditionally at the top of the block
        sure = set()
        firstuse = set()
        for x in b:
            firstuse |= (names(x, ast.Load) - sure)
            if isinstance(x, ast.AugAssign):
                firstuse |= names(x.target)
            for y in ast.walk(x):
                if isinstance(y, ast.AugAssign):
                    firstuse |= (names(y.target) - sure)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    sure |= names(t, ast.Store)
        inside = {id(y) for x in b for y in ast.walk(x)}
        other = {y.id for y in ast.walk(self.fn) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and id(y) not in inside}
        outs = sorted(v for v in st if v in other or v in firstuse)
        if any(v not in sure and v not in self.params for v in outs) and any(v not in firstuse for v in outs if v not in sure):
            return None
        maybe = [v for v in outs if v not in sure]
        ins = sorted((firstuse & loc) | set(maybe))
        # inputs must be definitely bound: parameters, or bound before at the top level of the function
        bound = set(self.params)
        for x in self.fn.body:
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    bound |= names(t, ast.Store)
            if any(id(y) in inside for y in ast.walk(x)):
                for y in ast.walk(x):
                    if isinstance(y, ast.For):
                        bound |= names(y.target)
                break
        if any(v not in bound for v in ins):
            return None
        return ins, outs

    def emit(self, b, ins, outs):
        name = self.fresh('_step')
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in ins], None, [], [], None, []), list(b), [], None, None)
        if sys.version_info >= (3, 12):
            h.type_params = []
        if outs:
            h.body = h.body + P('def g():\n return %s' % ', '.join(outs))[0].body
        self.tree.body.append(h)
        call = '%s(%s)' % (name, ', '.join(ins))
        return P(('%s = %s' % (', '.join(outs), call)) if outs else call)


class ExtractM(Extract):
    """as a method where the block uses self"""
    def emit(self, b, ins, outs):
        if self.cls is None or not self.params or self.params[0] not in ins:
            return Extract.emit(self, b, ins, outs)
        me = self.params[0]
        name = self.fresh('_step_' + self.cls.name)
        rest = [v for v in ins if v != me]
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in [me] + rest], None, [], [], None, []), list(b), [], None, None)
        if sys.version_info >= (3, 12):
            h.type_params = []
        if outs:
            h.body = h.body + P('def g():\n return %s' % ', '.join(outs))[0].body
        self.holder.append(h)
        call = '%s.%s(%s)' % (me, name, ', '.join(rest))
        return P(('%s = %s' % (', '.join(outs), call)) if outs else call)


class ExtractCond(T):
    """condition of an if into a predicate helper"""
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)) and not self.nested and not has(s.test, ast.ListComp, ast.GeneratorExp):
            loc = names(self.fn, ast.Store) | set(self.params)
            ins = sorted(names(s.test) & loc)
            if self.pick():
                name = self.fresh('_is')
                h = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in ins], None, [], [], None, []), [ast.Return(s.test)], [], None, None)
                if sys.version_info >= (3, 12):
                    h.type_params = []
                self.tree.body.append(h)
                s.test = P('%s(%s)' % (name, ', '.join(ins)))[0].value
        return [s]


class ExtractExpr(Expr):
    """binary expressions into helpers"""
    def expr(self, n):
        if isinstance(n, ast.BinOp) and not self.nested and not isinstance(n.left, ast.Constant) and not has(n, ast.ListComp, ast.GeneratorExp):
            loc = names(self.fn, ast.Store) | set(self.params)
            ins = sorted(names(n) & loc)
            if ins and self.pick():
                name = self.fresh('_calc')
                h = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in ins], None, [], [], None, []), [ast.Return(n)], [], None, None)
                if sys.version_info >= (3, 12):
                    h.type_params = []
                self.tree.body.append(h)
                return P('%s(%s)' % (name, ', '.join(ins)))[0].value
        return n


class Format(Expr):
    def expr(self, n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            f = n.left.value
            import re
            if re.fullmatch(r"(?:[^%{}]|%[sd])*", f) and self.pick():
                a = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                parts = re.split(r'%[sd]', f)
                vals = []
                for i, p in enumerate(parts):
                    if p:
                        vals.append(ast.Constant(p))
                    if i < len(a):
                        vals.append(ast.FormattedValue(a[i], -1, None))
                return ast.JoinedStr(vals)
        return n


class Keywords(T):
    """no-op statements and docstrings"""
    def func(self, f):
        if self.pick():
            i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body[i:i] = P('_unused = 0')
            T.func(self, f)

    def stmt(self, s, tail, body, i):
        return [s] + (P('pass') if not isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)) else [])


class TryNest(T):
    def stmt(self, s, tail, body, i):
        if isinstance(s, ast.Try) and s.handlers and s.finalbody and self.pick():
            return [ast.Try([ast.Try(s.body, s.handlers, s.orelse, [])], [], [], s.finalbody)]
        return [s]


class TryElse(T):
    """try: A except: ...raise ; B -> try: A except: raise else: B"""
    def after(self, out, tail):
        for i, s in enumerate(out):
            if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and all(ends(h.body) for h in s.handlers) and i + 1 < len(out) and self.pick():
                s.orelse = self.after(out[i + 1:], tail)
                return out[:i + 1]
        return out


class Alias(T):
    """self.x read into a local at the start, when the function never rebinds it: only for dotted constants"""
    def func(self, f):
        if self.nested or not self.params or self.params[0] != 'self' or self.cls is None or f.name == '__init__':
            return
        loads = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                loads.setdefault(x.attr, []).append(x)
        calls = {x.func.attr for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        const = ('slave_id', 'base_addr', 'points_list', 'block_type', 'point_type', 'model_type', 'max_count', 'points', 'addr', 'type', 'trace_func')
        for a, xs in loads.items():
            if a in const and all(isinstance(x.ctx, ast.Load) for x in xs) and self.pick():
                v = self.fresh('the_' + a)

                class V(ast.NodeTransformer):
                    def visit_Attribute(self, n):
                        if n in xs:
                            return ast.Name(v, ast.Load())
                        return self.generic_visit(n)
                i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body = [V().visit(s) for s in f.body]
                f.body[i:i] = P('%s = self.%s' % (v, a))


ALL = {k.lower(): v for k, v in dict(rename=Rename, ifswap=IfSwap, guard=Guard, dropelse=DropElse, addelse=AddElse, whiletrue=WhileTrue,
                                     whilecond=WhileCond, forwhile=ForWhile, forindex=ForIndex, forenum=ForEnum, aug=Aug, tempret=TempRet,
                                     temparg=TempArg, inlinetemp=InlineTemp, flip=Flip, notcmp=NotCmp, nest=Nest, splitor=SplitOr,
                                     demorgan=DeMorgan, ternary=Ternary, oneexit=OneExit, swap=Swap, wrap=Wrap, extract=Extract,
                                     extractm=ExtractM, extractcond=ExtractCond, extractexpr=ExtractExpr, format=Format, noop=Keywords,
                                     trynest=TryNest, tryelse=TryElse, alias=Alias).items()}


def build(ts, prob, seed, only):
    d = tempfile.mkdtemp(prefix='rf')
    dst = os.path.join(d, 'repo')
    shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build', '*.egg-info'))
    n = 0
    for f in FILES:
        p = os.path.join(dst, f)
        tree = ast.parse(open(p).read())
        for t in ts:
            tr = ALL[t](random.Random('%s/%s/%s' % (seed, t, f)), prob, only)
            tr.module(tree, f[:-3].replace('/', '.'))
            n += tr.count
            ast.fix_missing_locations(tree)
            tree = ast.parse(ast.unparse(tree))
        src = ast.unparse(tree)
        compile(src, p, 'exec')
        open(p, 'w').write(src + '\n')
    return d, dst, n


def main():
    a = sys.argv[1:]

    def opt(name, default=None):
        if name in a:
            i = a.index(name)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return default
    prob = float(opt('--prob', '1'))
    seed = opt('--seed', '1')
    only = opt('--only')
    keys = opt('--keys')
    keep = '--keep' in a
    jobs = [x for x in a if not x.startswith('--')]
    if jobs == ['all']:
        jobs = list(ALL)
    for j in jobs:
        ts = j.split(',') if ',' in j else [j]
        d, dst, n = build(ts, prob, seed, only)
        env = dict(os.environ, VERIF_REPO=dst)
        t = subprocess.run([sys.executable, '-m', 'compileall', '-q', dst + '/sunspec'], capture_output=True, text=True)
        tests = ''
        if '--test' in a:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', dst + '/sunspec'], capture_output=True, text=True, cwd=dst,
                               env=dict(env, PYTHONPATH=dst))
            tests = r.stdout.strip().split('\n')[-1]
        r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'status.py')] + (keys.split(',') if keys else []), capture_output=True, text=True, env=env)
        bad = [l[:420] for l in r.stdout.split('\n') if l and not l[25:].startswith('ok ')]
        print('== %s: %d sites, %d bad %s %s' % (j, n, len(bad), tests, d if keep else ''), flush=True)
        for l in bad:
            print('   ', l)
        if r.returncode:
            print(r.stderr[-800:])
        if not keep:
            shutil.rmtree(d)


main()
