"""Loading of the analysed source tree: modules, classes, functions, scopes."""
import ast
import builtins
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

MODULES = {
    'sunspec.core.util': 'sunspec/core/util.py',
    'sunspec.core.suns': 'sunspec/core/suns.py',
    'sunspec.core.pics': 'sunspec/core/pics.py',
    'sunspec.core.smdx': 'sunspec/core/smdx.py',
    'sunspec.core.data': 'sunspec/core/data.py',
    'sunspec.core.device': 'sunspec/core/device.py',
    'sunspec.core.client': 'sunspec/core/client.py',
    'sunspec.core.modbus.client': 'sunspec/core/modbus/client.py',
    'sunspec.core.modbus.mbmap': 'sunspec/core/modbus/mbmap.py',
    'scripts.suns': 'scripts/suns.py',
}


# private methods the rules are anchored at, with their number of parameters
PRIVATE = {'_scan': 3, '_get_property': 2, '_set_property': 3}


class AnchorError(Exception):
    """an anchor the analysis needs is not in the source"""


class Mod(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = desugar(ast.parse(src, path))
        self.funcs = {}
        self.classes = {}
        self.mutable = set()


def _deco(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None


class Managers(ast.NodeTransformer):
    """the managers of contextlib that are a statement of their own, written out"""
    def __init__(self):
        self.n = 0

    def visit_With(self, n):
        self.generic_visit(n)
        body = n.body
        for it in reversed(n.items):
            c = it.context_expr
            what = _deco(c.func) if isinstance(c, ast.Call) and not c.keywords else None
            if what == 'suppress' and c.args and it.optional_vars is None:
                t = c.args[0] if len(c.args) == 1 else ast.Tuple(elts=list(c.args), ctx=ast.Load())
                new = [ast.Try(body=body, handlers=[ast.ExceptHandler(type=t, name=None, body=[ast.Pass()])], orelse=[], finalbody=[])]
            elif what in ('closing', 'nullcontext') and len(c.args) == 1:
                if it.optional_vars is not None and isinstance(it.optional_vars, ast.Name):
                    name = it.optional_vars.id
                else:
                    self.n += 1
                    name = '_managed_%d' % self.n
                new = [ast.Assign(targets=[ast.Name(name, ast.Store())], value=c.args[0])]
                if it.optional_vars is not None and not isinstance(it.optional_vars, ast.Name):
                    new.append(ast.Assign(targets=[it.optional_vars], value=ast.Name(name, ast.Load())))
                if what == 'closing':
                    end = ast.Expr(ast.Call(func=ast.Attribute(ast.Name(name, ast.Load()), 'close', ast.Load()), args=[], keywords=[]))
                    new.append(ast.Try(body=body, handlers=[], orelse=[], finalbody=[end]))
                else:
                    new += body
            else:
                new = [ast.With(items=[it], body=body)]
            for x in new:
                for y in ast.walk(x):
                    if not hasattr(y, 'lineno'):
                        ast.copy_location(y, n)
            body = new
        return body


KEPT = ('staticmethod', 'classmethod', 'property', 'setter', 'getter', 'deleter', 'contextmanager', 'cached_property', 'dataclass', 'wraps',
        'abstractmethod', 'overload', 'total_ordering', 'singledispatch')


class Decorated(ast.NodeTransformer):
    """a function under decorators is a call of what they make of it"""
    def __init__(self, tree):
        self.cls = None
        self.inner = 0
        self.simple = {n.name for n in tree.body if isinstance(n, ast.FunctionDef) and self.plain(n)}

    @staticmethod
    def plain(n):
        """it only makes functions and returns one, so it may be asked again"""
        for k in n.body:
            if isinstance(k, ast.FunctionDef):
                if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(k)) or not all(
                        _deco(d) == 'wraps' for d in k.decorator_list):
                    return False
                for j in k.body:
                    if isinstance(j, ast.FunctionDef) and not all(_deco(d) == 'wraps' for d in j.decorator_list):
                        return False
            elif not (isinstance(k, (ast.Return, ast.Pass)) or isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant)):
                return False
        return True

    def visit_ClassDef(self, n):
        was, self.cls = self.cls, n.name
        self.generic_visit(n)
        self.cls = was
        return n

    def visit_FunctionDef(self, n):
        self.inner += 1
        was, self.cls = self.cls, None
        self.generic_visit(n)
        self.cls = was
        self.inner -= 1
        decos = [d for d in n.decorator_list if _deco(d) not in KEPT]
        if not decos:
            return n
        if self.inner:
            n.decorator_list = [d for d in n.decorator_list if d not in decos]
            e = ast.Name(n.name, ast.Load())
            for d in reversed(decos):
                e = ast.Call(func=d, args=[e], keywords=[])
            return [n, ast.copy_location(ast.Assign(targets=[ast.Name(n.name, ast.Store())], value=e), n)]
        raw = '_plain_%s' % n.name.strip('_')
        e = ast.Attribute(ast.Name(self.cls, ast.Load()), raw, ast.Load()) if self.cls else ast.Name(raw, ast.Load())
        for d in reversed(decos):
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, ast.Name) and f.id not in self.simple:
                # it may keep something from call to call
                e = ast.Call(func=ast.Name('_decorated_', ast.Load()), args=[d, e], keywords=[])
            else:
                e = ast.Call(func=d, args=[e], keywords=[])
        a = n.args
        call = ast.Call(func=e, args=[ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args], keywords=[
            ast.keyword(arg=x.arg, value=ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
        if a.vararg:
            call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        if a.kwarg:
            call.keywords.append(ast.keyword(arg=None, value=ast.Name(a.kwarg.arg, ast.Load())))
        outer = ast.FunctionDef(name=n.name, args=a, body=[ast.Return(call)], returns=None, type_comment=None,
                                decorator_list=[d for d in n.decorator_list if d not in decos])
        n.name, n.decorator_list = raw, []
        for y in ast.walk(outer):
            if not hasattr(y, 'lineno'):
                ast.copy_location(y, n)
        return [n, outer]


def desugar(tree):
    """classes that are a list of fields, and managers that are a statement, written out"""
    tree = Managers().visit(tree)
    tree = Decorated(tree).visit(tree)
    body = []
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            fields = [k for k in n.body if isinstance(k, ast.AnnAssign) and isinstance(k.target, ast.Name)]
            doc = [k for k in n.body if isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant)]
            if [_deco(b) for b in n.bases] == ['NamedTuple'] and len(fields) + len(doc) == len(n.body) and fields:
                new = ast.parse('from collections import namedtuple as namedtuple_\n%s = namedtuple_(%r, %r)' % (
                    n.name, n.name, [k.target.id for k in fields])).body
                vals = [k.value for k in fields if k.value is not None]
                if vals:
                    new[1].value.keywords.append(ast.keyword(arg='defaults', value=ast.Tuple(elts=vals, ctx=ast.Load())))
                for x in new:
                    for y in ast.walk(x):
                        ast.copy_location(y, n)
                body += new
                continue
            deco = [d for d in n.decorator_list if _deco(d) == 'dataclass']
            if deco and all(_deco(b) == 'object' for b in n.bases):
                opts = {k.arg: k.value for k in deco[0].keywords} if isinstance(deco[0], ast.Call) else {}
                has = {k.name for k in n.body if isinstance(k, ast.FunctionDef)}
                params, lines = [], []
                new = []
                for k in fields:
                    f, v, made = k.target.id, k.value, None
                    if isinstance(v, ast.Call) and _deco(v.func) == 'field':
                        kw = {x.arg: x.value for x in v.keywords}
                        made = kw.get('default_factory')
                        v = kw.get('default')
                    if made is not None:
                        lines.append('self.%s = %s() if %s is None else %s' % (f, ast.unparse(made), f, f))
                        params.append(f + '=None')
                    else:
                        lines.append('self.%s = %s' % (f, f))
                        params.append(f if v is None else '%s=%s' % (f, ast.unparse(v)))
                if '__post_init__' in has:
                    lines.append('self.__post_init__()')
                if '__init__' not in has:
                    new += ast.parse('def __init__(self, %s):\n    %s' % (', '.join(params), '\n    '.join(lines or ['pass']))).body
                on = opts.get('eq')
                if '__eq__' not in has and not (isinstance(on, ast.Constant) and on.value is False):
                    new += ast.parse('def __eq__(self, other):\n    if other.__class__ is not self.__class__:\n        return NotImplemented\n'
                                     '    return (%s) == (%s)' % (''.join('self.%s, ' % k.target.id for k in fields),
                                                                   ''.join('other.%s, ' % k.target.id for k in fields))).body
                for x in new:
                    for y in ast.walk(x):
                        ast.copy_location(y, n)
                n.decorator_list = [d for d in n.decorator_list if d not in deco]
                n.body = [k for k in n.body if k not in fields or not (isinstance(k.value, ast.Call))] + new
        body.append(n)
    tree.body = body
    return ast.fix_missing_locations(tree)


class Func(object):
    cdefs = None

    def __init__(self, qual, node, mod, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.cls = cls
        self.locals = local_names(node)
        self.globals = global_names(node)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node))

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Cls(object):
    def __init__(self, qual, node, mod):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.name = node.name
        self.bases = []           # Cls or str
        self.methods = {}
        self.setters = {}         # property name -> setter
        self.attrs = {}           # class level name -> value AST

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return self.renamed(name) if name in PRIVATE else None

    def renamed(self, name):
        """the method that took the place of a private one: the only private
        method with as many parameters that was not there before"""
        out = [f for c in self.mro() for k, f in c.methods.items() if k.startswith('_') and not k.startswith('__') and k not in PRIVATE and
               len(f.node.args.args) == PRIVATE[name]]
        return out[0] if len(out) == 1 else None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def accessor(self, name, which):
        """the getter or setter behind a property"""
        f = self.find(name) if which == 'get' else self.find_setter(name)
        if f is not None:
            return f
        r = self.find_attr(name)
        if r is not None and isinstance(r[1], ast.Call) and isinstance(r[1].func, ast.Name) and r[1].func.id == 'property':
            i = 0 if which == 'get' else 1
            a = r[1].args[i] if len(r[1].args) > i else next((k.value for k in r[1].keywords if k.arg == 'f' + which), None)
            if isinstance(a, ast.Name):
                return r[0].find(a.id)
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def isa(self, other):
        return other in self.mro()


def walk_scope(node):
    """walk a function body without entering nested functions / classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(node):
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    comp = set()
    for n in walk_scope(node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for m in ast.walk(g.target):
                    comp.add(id(m))
    for n in walk_scope(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp:
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
    return out - global_names(node) - nonlocal_names(node)


def global_names(node):
    out = set()
    for n in walk_scope(node):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out


def nonlocal_names(node):
    out = set()
    for n in walk_scope(node):
        if isinstance(n, ast.Nonlocal):
            out.update(n.names)
    return out


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'sort', 'reverse'}


BUILTIN_NAMES = {n for n in dir(builtins) if not n.startswith('_')}


class Program(object):
    """the analysed tree (plus, for reference models, spec modules)"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.missing = []
        for name, rel in MODULES.items():
            path = os.path.join(self.root, rel)
            if not os.path.exists(path):
                self.missing.append(rel)
                continue
            with open(path, encoding='utf-8') as f:
                src = f.read()
            self.add(name, path, src)
        # other modules of the package that a change may have introduced
        for base in ('sunspec/core', 'sunspec/core/modbus', 'sunspec'):
            d = os.path.join(self.root, base)
            if not os.path.isdir(d):
                continue
            for fn in sorted(os.listdir(d)):
                if fn.endswith('.py') and fn != '__init__.py':
                    name = base.replace('/', '.') + '.' + fn[:-3]
                    if name not in self.mods:
                        with open(os.path.join(d, fn), encoding='utf-8') as f:
                            self.add(name, os.path.join(d, fn), f.read())
        self.link()

    def add(self, name, path, src):
        m = Mod(name, path, src)
        self.mods[name] = m
        for n in self._toplevel(m.tree.body):
            if isinstance(n, ast.FunctionDef):
                m.funcs[n.name] = Func(name + '.' + n.name, n, m)
            elif isinstance(n, ast.ClassDef):
                c = Cls(name + '.' + n.name, n, m)
                m.classes[n.name] = c
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        f = Func(c.qual + '.' + k.name, k, m, c)
                        if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in k.decorator_list):
                            c.setters[k.name] = f
                        else:
                            c.methods[k.name] = f
                    elif isinstance(k, ast.Assign):
                        for t in k.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = k.value
                    elif isinstance(k, ast.AnnAssign) and isinstance(k.target, ast.Name) and k.value is not None:
                        c.attrs[k.target.id] = k.value
        m.mutable = self._mutables(m)
        return m

    def stored_fields(self, fn, seen=None):
        """attributes of its own object that a method may set or change, also
        through other methods of the object"""
        if not hasattr(self, '_stored'):
            self._stored = {}
        if fn.qual in self._stored:
            return self._stored[fn.qual]
        top = seen is None
        seen = set() if top else seen
        if fn.qual in seen or fn.cls is None:
            return set()
        seen.add(fn.qual)
        a = fn.node.args.posonlyargs + fn.node.args.args
        out = set()
        if not a:
            return out
        me = a[0].arg

        def own(e):
            return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and own(n) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and own(n.value):
                out.add(n.value.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                f = n.func
                if own(f.value) and f.attr in MUTATORS:
                    out.add(f.value.attr)
                k = None
                if isinstance(f.value, ast.Name) and f.value.id == me:
                    k = fn.cls.find(f.attr)
                elif n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me or isinstance(f.value, ast.Call) and \
                        isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                    for b in fn.cls.mro()[1:]:
                        if f.attr in b.methods:
                            k = b.methods[f.attr]
                            break
                if k is not None:
                    out |= self.stored_fields(k, seen)
        if top:
            self._stored[fn.qual] = out
        return out

    def read_fields(self, fn, seen=None):
        """attributes of its own object that a method may look at, also
        through other methods of the object"""
        if not hasattr(self, '_read'):
            self._read = {}
        if fn.qual in self._read:
            return self._read[fn.qual]
        top = seen is None
        seen = set() if top else seen
        a = fn.node.args.posonlyargs + fn.node.args.args
        out = set()
        if fn.qual in seen or fn.cls is None or not a:
            return out
        seen.add(fn.qual)
        me = a[0].arg
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                k = fn.cls.find(n.attr)
                if k is None:
                    out.add(n.attr)
                else:
                    out |= self.read_fields(k, seen)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
                    n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me or
                    isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'):
                for b in fn.cls.mro()[1:]:
                    if n.func.attr in b.methods:
                        out |= self.read_fields(b.methods[n.func.attr], seen)
                        break
        if top:
            self._read[fn.qual] = out
        return out

    def add_spec(self, fname):
        path = os.path.join(SPEC, fname)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        name = 'spec.' + fname[:-3]
        if name in self.mods:
            return self.mods[name]
        m = self.add(name, path, src)
        self._link_mod(m)
        return m

    def _toplevel(self, body):
        for n in body:
            yield n
            if isinstance(n, (ast.If, ast.Try)):
                for sub in (n.body, n.orelse, getattr(n, 'finalbody', [])):
                    for x in self._toplevel(sub):
                        yield x

    def _mutables(self, m):
        """module globals that functions change (state, not constants)"""
        out = set()
        assigned = set()
        for n in self._toplevel(m.tree.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigned.add(t.id)
        fns = [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))]
        for f in fns:
            gl = global_names(f)
            loc = local_names(f)
            for n in walk_scope(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in gl:
                    out.add(n.id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, ast.Name) and n.value.id not in loc and n.value.id in assigned:
                    out.add(n.value.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id not in loc and n.func.value.id in assigned:
                    out.add(n.func.value.id)
        return out

    def link(self):
        for m in self.mods.values():
            self._link_mod(m)

    def _link_mod(self, m):
        imports = self.imports(m)
        for c in m.classes.values():
            c.bases = []
            for b in c.node.bases:
                r = self._resolve_class(m, imports, b)
                c.bases.append(r)

    def imports(self, m):
        return self._imports_of(m.tree, m.name.rpartition('.')[0])

    def _imports_of(self, tree, package):
        out = {}
        for n in self._toplevel(tree.body):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        out[a.asname] = a.name
                    else:
                        out[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                src = n.module or ''
                if n.level:
                    parts = package.split('.')
                    parts = parts[:len(parts) - n.level + 1]
                    src = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    out[a.asname or a.name] = src + '.' + a.name
        return out

    def _resolve_class(self, m, imports, node):
        if isinstance(node, ast.Name):
            if node.id in m.classes:
                return m.classes[node.id]
            if node.id in imports:
                return self.class_by_path(imports[node.id]) or imports[node.id]
            return node.id
        if isinstance(node, ast.Attribute):
            parts = []
            x = node
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                base = imports.get(x.id, x.id)
                path = '.'.join([base] + parts[::-1])
                return self.class_by_path(path) or path
        return '?'

    def class_by_path(self, path):
        mod, _, name = path.rpartition('.')
        if mod in self.mods:
            c = self.mods[mod].classes.get(name)
            if c:
                return c
            other = self.imports(self.mods[mod]).get(name)
            if other is not None and other != path and other.rpartition('.')[0] in self.mods:
                return self.class_by_path(other)
        return None

    EXPECTED = {}      # qualified name -> reference whose signature callers rely on

    def made_func(self, m, name, ref):
        """a function that a module makes by calling something, `f = maker(..)`"""
        have = self.__dict__.setdefault('_made', {})
        if (m.name, name, ref) in have:
            return have[(m.name, name, ref)]
        f = None
        if any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) for n in m.tree.body):
            sig = self.func('spec.' + ref).node.args
            if not (sig.vararg or sig.kwarg or sig.kwonlyargs):
                call = ast.Call(func=ast.Name(name, ast.Load()), args=[ast.Name(a.arg, ast.Load()) for a in sig.posonlyargs + sig.args], keywords=[])
                node = ast.FunctionDef(name=name, args=sig, body=[ast.Return(call)], decorator_list=[], returns=None, type_comment=None)
                node = ast.copy_location(node, m.tree.body[0])
                ast.fix_missing_locations(node)
                f = Func(m.name + '.' + name, node, m)
        have[(m.name, name, ref)] = f
        return f

    HOOKS = ('__setattr__', '__getattribute__', '__getattr__', '__delattr__', '__new__', '__init_subclass__', '__class_getitem__')

    def rebound(self):
        """qualified names that are given another meaning than their
        definition: name -> where"""
        r = self.__dict__.get('_rebound')
        if r is not None:
            return r
        r = self._rebound = {}
        trees = [(m.name, m.tree, m) for m in self.mods.values() if not m.name.startswith('spec.')]
        for base in ('sunspec', 'sunspec/core', 'sunspec/core/modbus'):
            path = os.path.join(self.root, base, '__init__.py')
            if os.path.exists(path):
                with open(path, encoding='utf-8') as f:
                    trees.append((base.replace('/', '.'), ast.parse(f.read(), path), None))
        methods = {k for m in self.mods.values() for c in m.classes.values() for k in c.methods}
        setters = {k for m in self.mods.values() for c in m.classes.values() for k in c.setters}

        def note(q, node):
            r.setdefault(q, getattr(node, 'lineno', 0))

        for name, tree, m in trees:
            imports = self.imports(m) if m is not None else self._imports_of(tree, name)

            def resolve(e):
                if isinstance(e, ast.Name):
                    if m is not None and e.id in m.classes:
                        return m.classes[e.id].qual
                    return imports.get(e.id)
                if isinstance(e, ast.Attribute):
                    b = resolve(e.value)
                    return None if b is None else b + '.' + e.attr
                return None

            def attr_store(e, attr, node, local):
                b = resolve(e) if not (isinstance(e, ast.Name) and e.id in local) else None
                c = b and self.class_by_path(b)
                if c is not None:
                    note(c.qual + '.' + attr, node)
                elif b is not None:
                    note(b + '.' + attr, node)
                elif attr in methods and attr not in setters:
                    note('*.' + attr, node)

            # a name bound after the function or class of that name
            if m is not None:
                defs = {n: f.node.lineno for n, f in m.funcs.items()}
                defs.update({n: c.node.lineno for n, c in m.classes.items()})
                self._later(tree.body, defs, lambda k, node: note(name + '.' + k, node))
                for c in m.classes.values():
                    have = {n: f.node.lineno for n, f in c.methods.items()}
                    self._later(c.node.body, have, lambda k, node, c=c: note(c.qual + '.' + k, node), c)
                    for h in self.HOOKS:
                        if h in c.methods:
                            note(name + '.*', c.methods[h].node)
                    if [k for k in c.node.keywords if k.arg == 'metaclass'] or [d for d in c.node.decorator_list if _deco(d) not in KEPT]:
                        note(c.qual + '.*', c.node)
            inside = {}
            for f in ast.walk(tree):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                    names = local_names(f) - global_names(f)
                    for x in ast.walk(f):
                        inside.setdefault(id(x), set()).update(names)
            for n in ast.walk(tree):
                local = inside.get(id(n), ())
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    attr_store(n.value, n.attr, n, local)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) >= 2:
                    if isinstance(n.args[1], ast.Constant):
                        attr_store(n.args[0], n.args[1].value, n, local)
                    elif resolve(n.args[0]) is not None and not (isinstance(n.args[0], ast.Name) and n.args[0].id in local):
                        note(resolve(n.args[0]) + '.*', n)
                elif id(n) in inside:
                    # (what a function does to names it makes up, the rules on generated classes see)
                    continue
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Call) and \
                        isinstance(n.value.func, ast.Name) and n.value.func.id in ('globals', 'vars') or \
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'eval', '__import__'):
                    note(name + '.*', n)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Call) and \
                        isinstance(n.func.value.func, ast.Name) and n.func.value.func.id in ('globals', 'vars') and \
                        (n.func.value.func.id == 'globals' or n.func.value.args and resolve(n.func.value.args[0]) is not None):
                    note(name + '.*', n)
        return r

    @staticmethod
    def _later(body, defs, note, cls=None):
        """bindings in a body that follow the definition of the same name"""
        todo = list(body)
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if cls is not None and n not in body and n.name in defs:
                    note(n.name, n)
                if cls is not None and n.name not in defs and n not in body:
                    # defined under a condition
                    if cls.find(n.name):
                        note(n.name, n)
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    k = a.asname or a.name.split('.')[0]
                    if k in defs and n.lineno > defs[k]:
                        note(k, n)
                continue
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.stmt, ast.excepthandler)):
                    todo.append(x)
                else:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                            if y.id in defs and n.lineno > defs[y.id]:
                                note(y.id, n)
                            elif cls is None and y.id in BUILTIN_NAMES:
                                note('*', n)

    def doubtful(self, qual):
        """where the name is given another meaning, or None"""
        r = self.rebound()
        if not r or qual.startswith('spec.'):
            return None
        parts = qual.split('.')
        for k in [qual, '*.' + parts[-1]] + ['.'.join(parts[:i]) + '.*' for i in range(1, len(parts))]:
            if k in r:
                return r[k]
        return None

    def func(self, qual, depth=0, ref=None):
        """Func by dotted name 'module.func' or 'module.Class.method'"""
        ref = ref or self.EXPECTED.get(qual)
        for name, m in self.mods.items():
            if qual.startswith(name + '.'):
                rest = qual[len(name) + 1:].split('.')
                if len(rest) == 1 and rest[0] in m.funcs:
                    return m.funcs[rest[0]]
                if len(rest) == 2 and rest[0] in m.classes:
                    f = m.classes[rest[0]]
                    f = f.accessor(*rest[1].split(':')) if ':' in rest[1] else f.find(rest[1])
                    if f:
                        return f
                    a = m.classes[rest[0]].find_attr(rest[1])
                    if a is not None and isinstance(a[1], ast.Name) and a[0].find(a[1].id):
                        return a[0].find(a[1].id)
                # defined elsewhere and imported here
                imp = self.imports(m)
                if rest[0] in imp and depth < 4:
                    return self.func('.'.join([imp[rest[0]]] + rest[1:]), depth + 1, ref)
                if len(rest) == 1 and ref:
                    f = self.made_func(m, rest[0], ref)
                    if f:
                        return f
        raise AnchorError('no function %s in the analysed tree' % qual)

    def moved(self, stubs):
        """assumptions by qualified name, also under the name of the module
        that defines what the named one imports"""
        out = dict(stubs)
        for q, v in stubs.items():
            c = self.class_by_path(q)
            if c is not None:
                out.setdefault(c.qual, v)
                continue
            try:
                f = self.func(q)
            except AnchorError:
                continue
            if f.qual.rpartition('.')[2] in PRIVATE or q.rpartition('.')[2] in PRIVATE:
                out.setdefault(f.qual, v)
            if f.qual.rpartition('.')[2] == q.rpartition('.')[2] and f.qual.count('.') == q.count('.') and \
                    not any(q.startswith(n + '.') and f.qual.startswith(n + '.') for n in self.mods):
                out.setdefault(f.qual, v)
        return out

    def cls(self, qual):
        c = self.class_by_path(qual)
        if c is None:
            raise AnchorError('no class %s in the analysed tree' % qual)
        return c

    def all_funcs(self):
        for m in self.mods.values():
            if m.name.startswith('spec.'):
                continue
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f
