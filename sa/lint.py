"""Structural rules over the whole tree: operations that can only fail.

Each rule looks at every site of one kind and reports a site only when no
input makes the operation succeed (an undefined name, a call no signature
accepts, an attribute no object has, a message whose placeholders and values
do not agree, a variable no path has set).  Sites that cannot be resolved from
the source are counted but not judged."""
import ast
import builtins
import importlib
import re

from .source import Program, walk_scope, local_names, global_names, nonlocal_names

STDLIB = {'os', 'os.path', 'sys', 'time', 'struct', 'socket', 'ssl', 'math', 'zipfile', 'contextlib', 'base64', 'functools', 'itertools',
          'collections', 'io', 're', 'threading', 'xml.etree.ElementTree', 'xml.dom.minidom', 'datetime', 'optparse', 'argparse',
          'logging', 'operator', 'array', 'string', 'types', 'copy', 'binascii', 'random', 'json', 'errno', 'select', 'abc',
          'calendar', 'locale', 'platform', 'traceback', 'warnings', 'textwrap', 'codecs', 'enum', 'weakref', 'tempfile', 'shutil'}


def load_std(name):
    """the names a standard library module has (its source is not analysed)"""
    if name not in STDLIB:
        return None
    try:
        return importlib.import_module(name)
    except ImportError:
        return None


def lib_attrs():
    """attribute names that objects of the used libraries have"""
    import socket
    import ssl
    import struct
    import zipfile
    import io
    import optparse
    import argparse
    import time
    import threading
    import datetime
    import collections
    import xml.etree.ElementTree as ET
    out = set()
    for t in (str, bytes, bytearray, list, dict, set, frozenset, tuple, int, float, bool, complex, object, type, property, range,
              memoryview, slice, BaseException, OSError, UnicodeError, UnicodeDecodeError, SyntaxError, KeyError, StopIteration, ImportError, SystemExit,
              type(lambda: 0), type(len), type((x for x in ())), type(ast), type(print), type('a'.join), classmethod, staticmethod,
              socket.socket, socket.timeout, ssl.SSLContext, ssl.SSLSocket, ssl.SSLError, struct.Struct, zipfile.ZipFile,
              zipfile.ZipInfo, zipfile.ZipExtFile, io.BytesIO, io.StringIO, io.BufferedReader, io.TextIOWrapper, io.FileIO, optparse.OptionParser,
              optparse.Option, argparse.ArgumentParser, ET.Element, ET.ElementTree, ET.QName, ET.ParseError, ET.XMLParser, ET.TreeBuilder,
              time.struct_time, datetime.datetime, datetime.timedelta, collections.OrderedDict, collections.deque, collections.defaultdict,
              threading.Thread, threading.Event, type(threading.Lock()), super):
        out.update(dir(t))
    for m in ('os', 'os.path', 'sys', 'time', 'struct', 'socket', 'ssl', 'math', 'zipfile', 'base64', 'contextlib', 'xml.etree.ElementTree'):
        lib = load_std(m)
        out.update(dir(lib))                # a module may be passed around
        for k in vars(lib).values():
            if isinstance(k, type):
                out.update(dir(k))
    out.update(('code', 'position', 'msg', 'lineno', 'filename', 'strerror', 'errno', 'args', '__traceback__', '__cause__', 'attrib', 'text', 'tail', 'tag',
                'cr_frame', '__func__', '__self__', 'reason', 'library', 'verify_code', 'verify_message', 'acquire', 'release',
                'cache_info', 'cache_clear', '__wrapped__', 'func', 'keywords', 'setter', 'getter', 'deleter', 'fget', 'fset',
                '__name__', '__qualname__', '__module__', '__doc__', '__dict__', '__class__', '__code__', '__globals__', '__closure__',
                '__defaults__', '__version__', '__file__', '__path__'))
    return out


class Site(object):
    def __init__(self, rule, fn, node, text):
        self.rule = rule
        self.fn = fn
        self.node = node
        self.text = text


class Lint(object):
    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.sites = {}
        self.found = []
        self.unjudged = {}
        self.funcs = []
        self.mods = [m for m in self.prog.mods.values() if not m.name.startswith('spec.')]
        self.tables()

    # -------------------------------------------------------------- tables
    def tables(self):
        self.globals = {}
        self.stores = set()        # attribute names stored anywhere
        self.selfstores = {}       # class -> names stored through self in it
        self.otherstores = set()   # names stored through something else than self
        self.methods = {}          # method name -> [Func]
        self.classnames = {}
        self.lib = lib_attrs()
        for m in self.mods:
            self.globals[m.name] = self.module_names(m)
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    self.classnames.setdefault(c.name, []).append((m, c))
        for m in self.mods:
            for c in m.classes.values():
                for n, f in list(c.methods.items()) + list(c.setters.items()):
                    self.methods.setdefault(n, []).append(f)
                self.stores.update(c.attrs)
                self.stores.update(c.methods)
                self.selfstores[c.qual] = self.self_stores(c)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stores.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        self.otherstores.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'getattr', 'hasattr') and \
                        len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.stores.add(n.args[1].value)
                    self.otherstores.add(n.args[1].value)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.stores.add(n.name)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    # module and class level names, named tuples fields and the like
                    pass
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    # a name that is used as data somewhere (__slots__, namedtuple, options, __dict__ keys)
                    for w in re.split(r'[\s,]+', n.value) if len(n.value) < 200 else ():
                        if w.isidentifier():
                            self.words = getattr(self, 'words', set())
                            self.words.add(w)
                        elif w.startswith('-') and w.lstrip('-').replace('-', '_').isidentifier():
                            self.words = getattr(self, 'words', set())
                            self.words.add(w.lstrip('-').replace('-', '_'))
        self.words = getattr(self, 'words', set())

    def attr_values(self):
        if not hasattr(self, 'attrvals'):
            self.attrvals = {}
            for m in self.mods:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                self.attrvals.setdefault(t.attr, []).append(n.value)
                            elif isinstance(t, (ast.Tuple, ast.List)):
                                # one of several values: not known
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Attribute):
                                        self.attrvals.setdefault(x.attr, []).append(ast.Tuple([], ast.Load()))
        return self.attrvals

    def self_stores(self, c):
        out = set()
        for f in list(c.methods.values()) + list(c.setters.values()):
            a = f.node.args.posonlyargs + f.node.args.args
            if not a:
                continue
            me = a[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
        return out

    def module_names(self, m):
        out = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__'}
        star = False

        def scan(body):
            nonlocal star
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                    continue
                for x in walk_stmt(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        out.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for al in x.names:
                            if al.name == '*':
                                star = True
                            out.add((al.asname or al.name).split('.')[0])
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        out.add(x.name)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        out.add(x.name)
        scan(m.tree.body)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                out.update(f.names)
        return None if star else out

    def site(self, rule):
        self.sites[rule] = self.sites.get(rule, 0) + 1

    def skip(self, rule):
        self.unjudged[rule] = self.unjudged.get(rule, 0) + 1

    def report(self, rule, fn, node, text, mod):
        self.found.append((rule, fn, getattr(node, 'lineno', 0), mod.path, text))

    # ---------------------------------------------------------------- scopes
    def run(self):
        for m in self.mods:
            imports = self.prog.imports(m)
            self.scope(m, imports, m.tree, None, [], m.name)
        return self

    def scope(self, m, imports, node, cls, chain, qual):
        """visit one scope: the names and sites in it, then the scopes inside"""
        self.funcs.append(qual)
        loc = {}
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            names = local_names(node)
            loc = names
            body = node.body if isinstance(node.body, list) else [node.body]
            # imports inside a function are local module names
            imports = dict(imports)
            for x in walk_scope(node):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(x, ast.ImportFrom) and x.module:
                    for a in x.names:
                        imports[a.asname or a.name] = x.module + '.' + a.name
            chain = chain + [names]
            for nm in names:
                if nm in imports and not any(isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name).split('.')[0] == nm for a in x.names)
                                             for x in walk_scope(node)):
                    imports.pop(nm, None)
        else:
            body = node.body
            if isinstance(node, ast.ClassDef):
                chain = chain + [{x.id for x in walk_body(body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} |
                                 {x.name for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}]
        S = Scope(self, m, imports, node, cls, chain, qual)
        for n in body:
            S.visit(n)
        if isinstance(node, (ast.FunctionDef, ast.Module)):
            Unbound(S).run()
        for n in S.inner:
            if isinstance(n, ast.ClassDef):
                c = m.classes.get(n.name) if isinstance(node, ast.Module) else None
                self.scope(m, imports, n, c, chain, qual + '.' + n.name)
            else:
                inner_chain = chain[:-1] if isinstance(node, ast.ClassDef) else chain
                self.scope(m, imports, n, cls, inner_chain, qual + '.' + getattr(n, 'name', '<lambda>'))


def walk_stmt(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def walk_body(body):
    for n in body:
        for x in walk_stmt(n):
            yield x


PH = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')
UNKNOWN = None
# methods of the builtin types that no library class used here has with other
# numbers of arguments
FIXED = {'append': (1, 1), 'extend': (1, 1), 'insert': (2, 2), 'startswith': (1, 3), 'endswith': (1, 3), 'join': (1, 1), 'setdefault': (1, 2),
         'items': (0, 0), 'keys': (0, 0), 'values': (0, 0), 'rstrip': (0, 1), 'lstrip': (0, 1), 'strip': (0, 1), 'upper': (0, 0), 'lower': (0, 0),
         'encode': (0, 2), 'decode': (0, 2), 'replace': (2, 3), 'sendall': (1, 2), 'settimeout': (1, 1), 'get': (1, 3), 'zfill': (1, 1)}


class Scope(object):
    def __init__(self, lint, m, imports, node, cls, chain, qual):
        self.L = lint
        self.m = m
        self.imports = imports
        self.node = node
        self.cls = cls
        self.chain = chain
        self.qual = qual
        self.inner = []
        self.comp = []
        a = node.args.posonlyargs + node.args.args if isinstance(node, (ast.FunctionDef, ast.Lambda)) else []
        static = any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in getattr(node, 'decorator_list', ()))
        self.me = a[0].arg if a and cls is not None and not static and isinstance(node, ast.FunctionDef) else None
        self.excvars = []
        self.guard = []

    def bad(self, rule, n, text):
        self.L.report(rule, self.qual, n, text, self.m)

    # ------------------------------------------------------------------ walk
    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.inner.append(n)
            for d in n.decorator_list:
                self.visit(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    self.visit(b)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    self.visit(d)
            return
        if isinstance(n, ast.Lambda):
            self.inner.append(n)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            self.comp.append(names)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.comprehension):
                    self.visit(c.iter)
                    for x in c.ifs:
                        self.visit(x)
                    continue
                self.visit(c)
            self.comp.pop()
            return
        if isinstance(n, ast.If):
            py = version_test(n.test)
            self.visit(n.test)
            if py is not True:
                for x in n.orelse:
                    self.visit(x)
            if py is not False:
                for x in n.body:
                    self.visit(x)
            return
        if isinstance(n, ast.IfExp):
            py = version_test(n.test)
            self.visit(n.test)
            if py is not True:
                self.visit(n.orelse)
            if py is not False:
                self.visit(n.body)
            return
        if isinstance(n, ast.Try):
            names = set()
            for h in n.handlers:
                names.update(x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)) if h.type is not None else names.add('*')
            self.guard.append(names)
            for x in n.body:
                self.visit(x)
            self.guard.pop()
            for h in n.handlers:
                self.visit(h)
            for x in n.orelse + n.finalbody:
                self.visit(x)
            return
        if isinstance(n, ast.ExceptHandler):
            if n.type is not None:
                self.visit(n.type)
            if n.name:
                self.excvars.append(n.name)
            for x in n.body:
                self.visit(x)
            if n.name:
                self.excvars.pop()
            return
        f = getattr(self, 'at_' + type(n).__name__, None)
        if f is not None:
            f(n)
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def guarded(self, *names, wide=False):
        """inside a try that expects this kind of error (wide: or any error)"""
        return any(g & (set(names) | ({'*', 'Exception', 'BaseException'} if wide else set())) for g in self.guard)

    # ----------------------------------------------------------------- names
    def bound(self, name):
        if any(name in c for c in self.comp) or any(name in c for c in self.chain):
            return True
        g = self.L.globals[self.m.name]
        return g is None or name in g or hasattr(builtins, name)

    def at_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            return
        self.L.site('names')
        if not self.bound(n.id) and not self.guarded('NameError', wide=n.id in ('unicode', 'long', 'basestring', 'xrange', 'raw_input', 'unichr')):
            self.bad('names', n, 'name %r is not defined anywhere it could be found' % n.id)

    def local(self, name):
        return any(name in c for c in self.comp) or any(name in c for c in self.chain)

    # ------------------------------------------------------------ resolution
    def module_of(self, e):
        """dotted module an expression denotes"""
        if isinstance(e, ast.Name):
            if self.local(e.id) and e.id not in self.imports:
                return None
            if any(e.id in c for c in self.comp):
                return None
            p = self.imports.get(e.id)
            if p is None:
                return None
            if p in self.L.prog.mods or p in STDLIB or p in ('serial', 'sunspec', 'sunspec.core', 'sunspec.core.modbus'):
                return p
            return None
        if isinstance(e, ast.Attribute):
            b = self.module_of(e.value)
            if b is not None:
                p = b + '.' + e.attr
                if p in self.L.prog.mods or p in STDLIB or p in ('sunspec.core', 'sunspec.core.modbus'):
                    return p
        return None

    def resolve(self, e):
        """Func, Cls or module an expression denotes, None when unknown"""
        mods = self.L.prog.mods
        if isinstance(e, ast.Name):
            if any(e.id in c for c in self.comp) or any(e.id in c for c in self.chain):
                return None
            path = self.imports.get(e.id)
            m = self.m
            name = e.id
            if path is not None:
                mod, _, name = path.rpartition('.')
                m = mods.get(mod)
                if m is None:
                    return None
            if self.single(m, name):
                return m.classes.get(name) or m.funcs.get(name)
            return None
        if isinstance(e, ast.Attribute):
            b = self.module_of(e.value)
            if b is not None and b in mods:
                m = mods[b]
                if self.single(m, e.attr):
                    return m.classes.get(e.attr) or m.funcs.get(e.attr)
                return None
            c = self.resolve(e.value)
            if c is not None and hasattr(c, 'methods'):
                return ('unbound', c, c.find(e.attr)) if c.find(e.attr) is not None else None
        return None

    def single(self, m, name):
        """defined exactly once at module level"""
        k = 0
        for n in walk_body([x for x in m.tree.body]):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name and n in m_toplevel(m):
                k += 1
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                k += 1
        return k == 1 and not any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(m.tree))

    # ----------------------------------------------------------------- calls
    def at_Call(self, n):
        self.L.site('calls')
        f = n.func
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        npos = len(n.args)
        kws = [k.arg for k in n.keywords]
        if self.guarded('TypeError'):
            return
        if isinstance(f, ast.Constant) or isinstance(f, (ast.List, ast.Tuple, ast.Dict, ast.JoinedStr)):
            self.bad('calls', n, 'a constant is called')
            return
        if self.module_of(f) is not None and self.module_of(f) not in ('datetime',):
            self.bad('calls', n, 'module %s is called' % self.module_of(f))
            return
        if isinstance(f, ast.Name) and f.id in ('str', 'int', 'len', 'isinstance', 'ord', 'chr', 'getattr', 'setattr', 'hasattr', 'float', 'repr',
                                                'issubclass', 'abs', 'round', 'divmod', 'hex', 'callable', 'id', 'iter') and not self.local(f.id) and \
                f.id not in self.L.globals[self.m.name] and not star and not kws:
            lo, hi = {'str': (0, 3), 'int': (0, 2), 'len': (1, 1), 'isinstance': (2, 2), 'ord': (1, 1), 'chr': (1, 1), 'getattr': (2, 3),
                      'setattr': (3, 3), 'hasattr': (2, 2), 'float': (0, 1), 'repr': (1, 1), 'issubclass': (2, 2), 'abs': (1, 1),
                      'round': (1, 2), 'divmod': (2, 2), 'hex': (1, 1), 'callable': (1, 1), 'id': (1, 1), 'iter': (1, 2)}[f.id]
            if not lo <= npos <= hi:
                self.bad('calls', n, '%s() given %d arguments' % (f.id, npos))
            return
        if isinstance(f, ast.Attribute) and f.attr in FIXED and f.attr not in self.L.otherstores and \
                not any(self.fits(x, npos + 1, kws, star) for x in self.L.methods.get(f.attr, ())) and not star and not kws and \
                self.module_of(f.value) is None:
            lo, hi = FIXED[f.attr]
            if not lo <= npos <= hi:
                self.bad('calls', n, '.%s() given %d arguments' % (f.attr, npos))
                return
        r = self.resolve(f)
        if r is None and isinstance(f, ast.Attribute) and self.me is not None and isinstance(f.value, ast.Name) and f.value.id == self.me and \
                self.cls is not None:
            self.method_call(n, self.cls, f.attr, npos, kws, star)
            self.struct(n, f)
            return
        if r is None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == 'super' and self.cls is not None:
            for c in self.cls.mro()[1:]:
                if f.attr in c.methods:
                    self.arity(n, c.methods[f.attr], npos + 1, kws, star, c.qual + '.' + f.attr)
                    break
            return
        if r is None:
            if isinstance(f, ast.Attribute):
                self.by_name(n, f, npos, kws, star)
            self.struct(n, f)
            self.L.skip('calls')
            return
        if isinstance(r, tuple):
            _, c, fn = r
            deco = [d.id for d in fn.node.decorator_list if isinstance(d, ast.Name)]
            self.arity(n, fn, npos + (1 if 'classmethod' in deco else 0), kws, star, fn.qual)
            return
        if hasattr(r, 'methods'):
            init = r.find('__init__')
            if r.node.decorator_list or r.node.keywords:
                return
            if init is not None:
                self.arity(n, init, npos + 1, kws, star, r.qual)
            elif (npos or kws) and all(not isinstance(b, str) or b == 'object' for c in r.mro() for b in c.bases) and \
                    not any('__new__' in c.methods for c in r.mro()):
                self.bad('calls', n, '%s takes no arguments' % r.qual)
            return
        self.arity(n, r, npos, kws, star, r.qual)

    def method_call(self, n, cls, name, npos, kws, star):
        f = cls.find(name)
        if f is None:
            return           # attributes are judged by their own rule
        cands = [f] + [c.methods[name] for c in self.subclasses(cls) if name in c.methods]
        if any(self.fits(x, npos + self.shift(x), kws, star) for x in cands):
            return
        if any(name in self.L.selfstores.get(c.qual, ()) for c in cls.mro()):
            return
        self.bad('calls', n, 'no definition of %s accepts this call (%d arguments%s)' % (f.qual, npos, ', ' + ', '.join(map(str, kws)) if kws else ''))

    def subclasses(self, cls):
        return [c for m in self.L.mods for c in m.classes.values() if c is not cls and c.isa(cls)]

    def shift(self, fn):
        deco = [d.id for d in fn.node.decorator_list if isinstance(d, ast.Name)]
        return 0 if 'staticmethod' in deco else 1

    def by_name(self, n, f, npos, kws, star):
        """a method of an object of unknown class: judged when the name can
        only be a method of this tree and none of its definitions fits"""
        name = f.attr
        if name in self.L.lib or name in self.L.otherstores or self.module_of(f.value) is not None:
            return
        if any(name in s for s in self.L.selfstores.values()):
            return
        cands = self.L.methods.get(name)
        if not cands or any(c.node.decorator_list for c in cands):
            return
        if name in self.L.words:
            return
        if self.resolve(f.value) is not None:
            return
        if not any(self.fits(x, npos + 1, kws, star) or self.fits(x, npos, kws, star) and isinstance(f.value, ast.Name) and
                   f.value.id in self.L.classnames for x in cands):
            self.bad('calls', n, 'no method %s in the tree accepts this call (%d arguments%s)' % (
                name, npos, ', ' + ', '.join(map(str, kws)) if kws else ''))

    def fits(self, fn, npos, kws, star):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        only = [x.arg for x in a.kwonlyargs]
        if fn.node.decorator_list and not all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.node.decorator_list):
            return True
        names = [k for k in kws if k is not None]
        if npos > len(pos) and not a.vararg and not star:
            return False
        if not a.kwarg and any(k not in pos + only for k in names):
            return False
        if any(k in pos[:npos] for k in names) and not star:
            return False
        if star:
            return True
        need = pos[npos:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        if any(p not in names for p in need):
            return False
        return all(d is not None or p in names for p, d in zip(only, a.kw_defaults))

    def arity(self, n, fn, npos, kws, star, what):
        if not self.fits(fn, npos, kws, star):
            self.bad('calls', n, '%s does not accept this call (%d positional%s)' % (
                what, npos, ', ' + ', '.join(str(k) for k in kws) if kws else ''))

    # ------------------------------------------------------------ attributes
    def at_Attribute(self, n):
        if not isinstance(n.ctx, ast.Load):
            return
        self.L.site('attributes')
        if self.guarded('AttributeError'):
            return
        name = n.attr
        b = self.module_of(n.value)
        if b is not None:
            mods = self.L.prog.mods
            if b in mods:
                g = self.L.globals[b]
                if g is not None and name not in g and b + '.' + name not in mods:
                    self.bad('attributes', n, 'module %s has no %r' % (b, name))
            elif b in STDLIB:
                lib = load_std(b)
                if lib is not None and not hasattr(lib, name) and not sub_module(b, name) and not self.py2_only(n):
                    self.bad('attributes', n, 'module %s has no %r' % (b, name))
            elif b == 'serial':
                self.L.skip('attributes')
            return
        if self.me is not None and isinstance(n.value, ast.Name) and n.value.id == self.me and self.cls is not None:
            fam = self.cls.mro() + self.subclasses(self.cls)
            if any(isinstance(x, str) and x not in ('object',) for c in fam for x in c.bases):
                self.L.skip('attributes')
                if not any(b in dir(builtins) for c in fam for b in c.bases if isinstance(b, str)):
                    return
            if any(f in c.methods for c in fam for f in ('__getattr__', '__getattribute__', '__setattr__')):
                return
            if any(name in c.methods or name in c.attrs or name in c.setters or name in self.L.selfstores.get(c.qual, ()) for c in fam):
                return
            if name in self.L.otherstores or name in dir(object) or name == '__dict__' or hasattr(BaseException, name) and any(
                    isinstance(x, str) and x not in ('object',) for c in fam for x in c.bases):
                return
            if name in self.L.words:
                return
            self.bad('attributes', n, 'no %s object has an attribute %r' % (self.cls.name, name))
            return
        if name not in self.L.stores and name not in self.L.lib and name not in self.L.words and not self.from_serial(n.value):
            self.bad('attributes', n, 'no object has an attribute %r' % name)

    def py2_only(self, n):
        return False

    def from_serial(self, e):
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            if isinstance(e, ast.Attribute) and e.attr in ('serial', 'port'):
                return True
            e = e.func if isinstance(e, ast.Call) else e.value
        return isinstance(e, ast.Name) and (self.imports.get(e.id) == 'serial' or e.id in ('options', 'args', 'opts', 'serial'))

    # -------------------------------------------------------------- messages
    def at_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes)):
            self.L.site('messages')
            self.percent(n)
        if isinstance(n.op, ast.Add):
            self.L.site('operands')
            self.plus(n)

    def percent(self, n):
        s = n.left.value
        if isinstance(s, bytes):
            s = s.decode('latin-1')
        rest = PH.sub('', s)
        if '%' in rest:
            self.bad('messages', n, 'malformed placeholder in %r' % n.left.value)
            return
        ph = [m for m in PH.finditer(s) if m.group(5) != '%']
        for m in ph:
            if m.group(5) not in 'diouxXeEfFgGcrsa':
                self.bad('messages', n, 'unsupported placeholder %%%s in %r' % (m.group(5), n.left.value))
                return
        if any(m.group(1) for m in ph):
            return
        need = len(ph) + sum((m.group(3) == '*') + (m.group(4) == '*') for m in ph)
        r = n.right
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            if len(r.elts) != need:
                self.bad('messages', n, '%d placeholders and %d values in %r' % (need, len(r.elts), n.left.value))
                return
            vals = r.elts
        elif isinstance(r, (ast.Constant, ast.Call, ast.Attribute, ast.BinOp, ast.JoinedStr)) or isinstance(r, ast.Name) and r.id in self.excvars:
            k = self.kind(r)
            if need != 1 and not (need == 0 and k is UNKNOWN) and not (k is UNKNOWN):
                self.bad('messages', n, '%d placeholders and one value in %r' % (need, n.left.value))
                return
            if need != 1:
                if k is UNKNOWN and self.one_value(r):
                    self.bad('messages', n, '%d placeholders and one value in %r' % (need, n.left.value))
                return
            vals = [r]
        elif need != 1 and isinstance(r, (ast.Name, ast.Subscript)):
            if self.one_value(r):
                self.bad('messages', n, '%d placeholders and one value in %r' % (need, n.left.value))
            return
        elif need == 1 and isinstance(r, ast.Name):
            vals = [r]
        else:
            return
        if any(m.group(3) == '*' or m.group(4) == '*' for m in ph):
            return
        for m, v in zip(ph, vals):
            k = self.kind(v)
            if m.group(5) in 'diouxXeEfFgG' and k in ('str', 'bytes', 'exc', 'none'):
                self.bad('messages', n, 'a %s value for %%%s in %r' % (k, m.group(5), n.left.value))

    def one_value(self, e):
        """the value is neither a tuple nor a mapping, as far as its uses say"""
        if self.kind(e) is not UNKNOWN:
            return True
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)) or self.one_value(e.left) or self.one_value(e.right)
        if isinstance(e, (ast.Compare, ast.JoinedStr)):
            return True
        if isinstance(e, ast.Attribute):
            # every assignment to an attribute of this name gives one value
            vals = self.L.attr_values().get(e.attr)
            return bool(vals) and not any(isinstance(x, (ast.Tuple, ast.Dict, ast.DictComp)) or isinstance(x, ast.Call) and
                                          isinstance(x.func, ast.Name) and x.func.id in ('tuple', 'dict', 'divmod') for x in vals)
        if not isinstance(e, ast.Name) or not isinstance(self.node, ast.FunctionDef):
            return False
        for x in walk_scope(self.node):
            # anything may come from a tuple assignment or a call
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets) and \
                    isinstance(x.value, (ast.Tuple, ast.Dict, ast.ListComp, ast.DictComp, ast.Name, ast.IfExp)):
                return False
        for x in walk_scope(self.node):
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.Div, ast.FloorDiv)) and any(
                    isinstance(y, ast.Name) and y.id == e.id for y in (x.left, x.right)):
                return True
            if isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Sub, ast.Div, ast.FloorDiv)) and isinstance(x.target, ast.Name) and x.target.id == e.id:
                return True
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, (ast.Sub, ast.Div, ast.FloorDiv)) and any(
                    isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('int', 'float', 'ord', 'chr', 'range') and any(
                    isinstance(y, ast.Name) and y.id == e.id for y in x.args):
                return True
        return False

    def local_kind(self, name):
        """the kind of a local variable that every assignment to it gives"""
        if not isinstance(self.node, ast.FunctionDef):
            return UNKNOWN
        cache = self.__dict__.setdefault('kinds', {})
        if name in cache:
            return cache[name]
        cache[name] = UNKNOWN
        a = self.node.args
        if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}:
            return UNKNOWN
        vals = []
        stores = 0
        for x in ast.walk(self.node):
            if isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names:
                return UNKNOWN
            if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                stores += 1
            if isinstance(x, ast.ExceptHandler) and x.name == name:
                return UNKNOWN
        for x in walk_scope(self.node):
            if isinstance(x, ast.Assign):
                vals.extend(x.value for t in x.targets if isinstance(t, ast.Name) and t.id == name)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                vals.append(x.value if isinstance(x.op, ast.Add) else x)
        if not vals or len(vals) != stores:
            return UNKNOWN
        ks = {self.kind(v) for v in vals}
        k = ks.pop() if len(ks) == 1 else UNKNOWN
        if k in ('int', 'float', 'none', 'exc'):
            # a sum of an int and a float, a fresh start: not followed
            k = k if len(vals) == 1 else UNKNOWN
        cache[name] = k
        return k

    def kind(self, e):
        """str, bytes, int, float, exc, none, or None when not known"""
        if isinstance(e, ast.Constant):
            v = e.value
            return {str: 'str', bytes: 'bytes', int: 'int', bool: 'int', float: 'float', type(None): 'none'}.get(type(v))
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, ast.Name):
            return 'exc' if e.id in self.excvars else self.local_kind(e.id)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not self.local(e.func.id) and e.func.id not in (self.L.globals[self.m.name] or ()):
            return {'str': 'str', 'repr': 'str', 'hex': 'str', 'chr': 'str', 'len': 'int', 'int': 'int', 'ord': 'int', 'float': 'float',
                    'bytes': 'bytes', 'bytearray': 'bytes'}.get(e.func.id)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Constant, ast.JoinedStr)) and \
                e.func.attr in ('format', 'join', 'rjust', 'ljust', 'strip', 'upper', 'lower'):
            return self.kind(e.func.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and self.module_of(e.func.value) == 'struct' and e.func.attr == 'pack':
            return 'bytes'
        if isinstance(e, ast.BinOp):
            a, b = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, ast.Mod) and a in ('str', 'bytes'):
                return a
            if isinstance(e.op, ast.Add):
                if a == b:
                    return a
                return a if a in ('str', 'bytes') and b is None else b if b in ('str', 'bytes') and a is None else None
        return None

    def plus(self, n):
        if self.guarded('TypeError'):
            return
        a, b = self.kind(n.left), self.kind(n.right)
        num = ('int', 'float')
        if a is None or b is None or a == b or (a in num and b in num):
            return
        self.bad('operands', n, 'a %s and a %s are added' % (a, b))

    def at_Compare(self, n):
        for op, l, r in zip(n.ops, [n.left] + n.comparators, n.comparators):
            if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                self.L.site('operands')
                a, b = self.kind(l), self.kind(r)
                num = ('int', 'float')
                if a and b and a != b and not (a in num and b in num):
                    self.bad('operands', n, 'a %s and a %s are ordered' % (a, b))

    def at_JoinedStr(self, n):
        self.L.site('messages')

    def struct(self, n, f):
        """struct formats against the number of values; str.format fields"""
        if not isinstance(f, ast.Attribute):
            return
        if f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            self.L.site('messages')
            self.fmt(n, f.value.value)
        if self.module_of(f.value) == 'struct' and f.attr in ('pack', 'unpack', 'calcsize', 'unpack_from') and n.args and \
                isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, (str, bytes)):
            import struct
            self.L.site('messages')
            try:
                size = struct.calcsize(n.args[0].value)
                k = len(struct.unpack(n.args[0].value, b'\0' * size))
            except struct.error as e:
                self.bad('messages', n, 'struct format %r: %s' % (n.args[0].value, e))
                return
            if f.attr == 'pack' and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) - 1 != k:
                self.bad('messages', n, 'struct format %r with %d values' % (n.args[0].value, len(n.args) - 1))

    def fmt(self, n, s):
        import string
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        kws = {k.arg for k in n.keywords}
        auto = 0
        try:
            parts = list(string.Formatter().parse(s))
        except ValueError as e:
            self.bad('messages', n, 'format %r: %s' % (s, e))
            return
        for _, field, spec, conv in parts:
            if field is None:
                continue
            head = re.split(r'[.\[]', field)[0]
            if head == '':
                i = auto
                auto += 1
            elif head.isdigit():
                i = int(head)
            else:
                if head not in kws:
                    self.bad('messages', n, 'format %r has no value for %r' % (s, head))
                continue
            if i >= len(n.args):
                self.bad('messages', n, 'format %r has no value number %d' % (s, i))
                return

    # ---------------------------------------------------------------- raises
    def at_Raise(self, n):
        self.L.site('raises')
        e = n.exc
        if e is None:
            return
        c = e.func if isinstance(e, ast.Call) else e
        if isinstance(c, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Tuple, ast.List, ast.Dict)):
            self.bad('raises', n, 'what is raised is not an exception')
            return
        r = self.resolve(c)
        if r is not None and hasattr(r, 'methods') and not is_exception(r):
            self.bad('raises', n, '%s is raised but is not an exception class' % r.qual)
        if r is not None and hasattr(r, 'is_gen') and not isinstance(e, ast.Call):
            self.bad('raises', n, 'function %s is raised' % r.qual)
        if isinstance(c, ast.Name) and not self.local(c.id) and hasattr(builtins, c.id) and c.id not in (self.L.globals[self.m.name] or (c.id,)):
            b = getattr(builtins, c.id)
            if not (isinstance(b, type) and issubclass(b, BaseException)):
                self.bad('raises', n, '%s is raised but is not an exception class' % c.id)

    # ------------------------------------------------------------- unpacking
    def at_Assign(self, n):
        if isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)):
            self.L.site('unpacking')
            t, v = n.targets[0].elts, n.value.elts
            if not any(isinstance(x, ast.Starred) for x in t + v) and len(t) != len(v):
                self.bad('unpacking', n, '%d values for %d targets' % (len(v), len(t)))
        if isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call):
            f = self.callee(n.value.func)
            if f is None or f.is_gen or f.node.decorator_list:
                return
            self.L.site('unpacking')
            sizes = set()
            for x in walk_scope(f.node):
                if isinstance(x, ast.Return):
                    sizes.add(len(x.value.elts) if isinstance(x.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in x.value.elts) else None)
            t = n.targets[0].elts
            if sizes and None not in sizes and len(t) not in sizes and not any(isinstance(x, ast.Starred) for x in t):
                self.bad('unpacking', n, '%s returns %s values for %d targets' % (f.qual, '/'.join(map(str, sorted(sizes))), len(t)))

    def callee(self, f):
        r = self.resolve(f)
        if r is not None and hasattr(r, 'is_gen'):
            return r
        if isinstance(f, ast.Attribute) and self.me is not None and isinstance(f.value, ast.Name) and f.value.id == self.me and self.cls is not None \
                and not self.subclasses(self.cls):
            return self.cls.find(f.attr)
        return None


_TOP = {}


def m_toplevel(m):
    r = _TOP.get(id(m))
    if r is None:
        out = []

        def scan(body):
            for n in body:
                out.append(n)
                for sub in ('body', 'orelse', 'finalbody'):
                    if isinstance(n, (ast.If, ast.Try)):
                        scan(getattr(n, sub, []))
                if isinstance(n, ast.Try):
                    for h in n.handlers:
                        scan(h.body)
        scan(m.tree.body)
        r = _TOP[id(m)] = out
    return r


def sub_module(b, name):
    try:
        return importlib.util.find_spec(b + '.' + name) is not None
    except Exception:
        return False


def is_exception(c):
    for k in c.mro():
        for b in k.bases:
            if isinstance(b, str):
                x = getattr(builtins, b, None)
                if x is None or isinstance(x, type) and issubclass(x, BaseException):
                    return True
    return False


def version_test(t):
    """True / False when a test only depends on the Python version (3 here)"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l = t.left
        text = ast.dump(l)
        if 'version_info' in text or "attr='PY2'" in text or 'hexversion' in text:
            r = t.comparators[0]
            try:
                rv = ast.literal_eval(r)
            except ValueError:
                return None
            if isinstance(rv, int) and not isinstance(l, ast.Attribute):
                rv = (rv,)
            if isinstance(rv, int):
                return None
            lv = (3, 12)
            if isinstance(l, ast.Subscript) or isinstance(l, ast.Attribute) and l.attr == 'major':
                lv = (3,)
            op = t.ops[0]
            table = {ast.Gt: lv > rv, ast.GtE: lv >= rv, ast.Lt: lv < rv, ast.LtE: lv <= rv, ast.Eq: lv == rv, ast.NotEq: lv != rv}
            return table.get(type(op))
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = version_test(t.operand)
        return None if v is None else not v
    return None


class Unbound(object):
    """variables read where no path has set them, and variables that a path
    without any loop has left unset, with the tests on it taken into account"""

    LIMIT = 48

    def __init__(self, scope):
        self.S = scope
        self.node = scope.node
        if isinstance(scope.node, ast.Module):
            self.loc = {x.id for x in walk_body(scope.node.body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            self.loc -= {y for x in ast.walk(scope.node) if isinstance(x, ast.Global) for y in x.names}
            self.loc -= set(dir(builtins))
            a = ast.arguments([], [], None, [], [], None, [])
        else:
            self.loc = local_names(scope.node)
            a = scope.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.reported = set()
        # variables used in nested scopes, or deleted, are left to the names rule
        self.free = set()
        for x in walk_scope(self.node):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.free.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name) and (isinstance(self.node, ast.FunctionDef) or
                                                                                          isinstance(x, ast.ClassDef)))
        # a state is (bound names, facts) ; facts: test text -> truth
        self.L = scope.L
        # variables that hold the outcome of something computed
        self.computed = set()
        for x in walk_scope(self.node):
            if isinstance(x, ast.Assign) and not isinstance(x.value, (ast.Constant, ast.Attribute, ast.Name, ast.List, ast.Dict, ast.Tuple)):
                self.computed.update(y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name))
            elif isinstance(x, (ast.NamedExpr, ast.AugAssign)) and isinstance(x.target, ast.Name):
                self.computed.add(x.target.id)

    def run(self):
        if any(isinstance(x, (ast.Match, ast.AsyncFor, ast.AsyncWith)) for x in walk_scope(self.node) if hasattr(ast, 'Match')):
            return
        st = {(frozenset(self.params), frozenset())}
        self.block(self.node.body, st, [], [])

    # each handler returns the states that fall through; loops collects break
    # states, tries collects states at which an exception may leave
    def block(self, body, st, loops, tries):
        for n in body:
            if not st:
                return st
            st = self.stmt(n, st, loops, tries)
            st = self.limit(st)
        return st

    def limit(self, st):
        if len(st) <= self.LIMIT:
            return st
        # too many: keep what every state of a binding agrees on
        by = {}
        for b, f in st:
            by.setdefault(b, []).append(f)
        out = {(b, frozenset.intersection(*fs)) for b, fs in by.items()}
        if len(out) <= self.LIMIT:
            return out
        u = frozenset.union(*[b for b, f in out])
        return {(u, frozenset())}

    def use(self, e, st):
        """reads in an expression, in every state"""
        if e is None:
            return st
        skip = set()
        for x in walk_expr(e):
            if isinstance(x, ast.NamedExpr):
                st = {(b | {x.target.id}, f) for b, f in st}
        for x in walk_expr(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.loc and x.id not in self.params and x.id not in self.free:
                self.L.site('unset')
                miss = [s for s in st if x.id not in s[0]]
                if len(miss) < len(st):
                    # tests that may be related in ways not seen here
                    miss = [s for s in miss if not (('?', True) in s[1] and ('#', 2) in s[1])]
                if miss and (x.id, x.lineno) not in self.reported and \
                        not self.S.guarded('NameError', 'UnboundLocalError', wide=len(miss) < len(st)):
                    self.reported.add((x.id, x.lineno))
                    self.S.bad('unset', x, 'variable %r is read where %s has set it' % (x.id, 'nothing' if len(miss) == len(st) else 'not every path'))
        return st

    def bind(self, st, names):
        names = frozenset(names)
        return {(b | names, frozenset((k, v) for k, v in f if not mentions(k, names))) for b, f in st}

    def targets(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

    def stmt(self, n, st, loops, tries):
        k = type(n)
        if k in (ast.FunctionDef, ast.ClassDef):
            return self.bind(st, [n.name])
        if k in (ast.Import, ast.ImportFrom):
            return self.bind(st, [(a.asname or a.name).split('.')[0] for a in n.names])
        if k in (ast.Global, ast.Nonlocal, ast.Pass):
            return st
        if k is ast.Return or k is ast.Raise:
            for c in ast.iter_child_nodes(n):
                st = self.use(c, st)
            self.leave(st, tries)
            return set()
        if k is ast.Break or k is ast.Continue:
            if loops:
                loops[-1][0 if k is ast.Break else 1].update(st)
            return set()
        if k is ast.If:
            v = version_test(n.test)
            st = self.use(n.test, st)
            self.leave(st, tries)
            a = self.assume(n.test, st, True) if v is not False else set()
            b = self.assume(n.test, st, False) if v is not True else set()
            return self.block(n.body, a, loops, tries) | self.block(n.orelse, b, loops, tries)
        if k in (ast.For, ast.While):
            return self.loop(n, st, loops, tries)
        if k is ast.Try:
            return self.tried(n, st, loops, tries)
        if k is ast.With:
            for it in n.items:
                st = self.use(it.context_expr, st)
                self.leave(st, tries)
                if it.optional_vars is not None:
                    st = self.bind(st, self.targets(it.optional_vars))
            # a manager may swallow what leaves its body
            return self.block(n.body, st, loops, tries)
        if k is ast.Delete:
            names = {t.id for t in n.targets if isinstance(t, ast.Name)}
            for t in n.targets:
                if not isinstance(t, ast.Name):
                    st = self.use(t, st)
            return {(b - names, frozenset((x, v) for x, v in f if not mentions(x, names))) for b, f in st}
        if k is ast.AugAssign:
            if isinstance(n.target, ast.Name):
                st = self.use(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), st)
            else:
                st = self.use(n.target, st)
            st = self.use(n.value, st)
            self.leave(st, tries)
            return self.changed(self.bind(st, self.targets(n.target)), n.target)
        if k is ast.Assign:
            st = self.use(n.value, st)
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        st = self.use(x, st)
            self.leave(st, tries)
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and isinstance(n.value, (ast.Constant, ast.Attribute, ast.Name, ast.List, ast.Dict, ast.Tuple, ast.BinOp, ast.JoinedStr)):
                t = text(n.targets[0])
                st = self.bind(st, self.targets(n.targets[0]))
                st = self.changed(st, n.targets[0])
                if isinstance(n.value, ast.Constant):
                    v = n.value.value
                    facts = {(t, bool(v)), (t + ' is None', v is None)}
                    if v is not None:
                        facts.add((t + ' == ' + repr(v), True))
                    return {(b, f | facts) for b, f in st}
                if isinstance(n.value, (ast.BinOp, ast.JoinedStr, ast.List, ast.Dict, ast.Tuple)):
                    return {(b, f | {(t + ' is None', False)}) for b, f in st}
                # a copy: what is known of the source is known of the copy
                s = text(n.value)
                out = set()
                for b, f in st:
                    g = set(f)
                    for key, val in f:
                        if key == s or key.startswith(s + ' '):
                            g.add((t + key[len(s):], val))
                    out.add((b, frozenset(g)))
                return out
            for t in n.targets:
                st = self.bind(st, self.targets(t))
                st = self.changed(st, t)
            return st
        for c in ast.iter_child_nodes(n):
            st = self.use(c, st)
        self.leave(st, tries)
        if k is ast.AnnAssign and n.value is not None:
            st = self.bind(st, self.targets(n.target))
        if k is ast.Expr and isinstance(n.value, ast.Call) and exits(n.value):
            return set()
        return st

    def changed(self, st, t):
        """facts about an attribute or item that is assigned are forgotten"""
        if isinstance(t, ast.Attribute):
            w = text(t)
            return {(b, frozenset((k, v) for k, v in f if not (k == w or k.startswith(w + ' ') or k.startswith(w + '.')))) for b, f in st}
        return st

    def leave(self, st, tries):
        if tries:
            tries[-1].update(st)

    def assume(self, test, st, truth):
        out = set()
        for b, f in st:
            r = self.add(test, f, truth)
            n = dict(f).get('#', 0)
            open_ = not isinstance(test, ast.Constant) and (not r or bool(self.add(test, f, not truth)))
            for g in r:
                if open_:
                    g = g - {('#', n)} | {('#', min(2, n + 1))}
                    if not self.sure(test):
                        g = g | {('?', True)}
                out.add((b, g))
        return out

    def sure(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.sure(t.operand)
        if isinstance(t, ast.BoolOp):
            return all(self.sure(v) for v in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                isinstance(t.comparators[0], ast.Constant):
            t = t.left
        while isinstance(t, ast.Attribute):
            t = t.value
        return isinstance(t, ast.Name) and t.id not in self.computed

    def add(self, t, f, truth):
        """the fact sets that a test with this outcome leaves"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.add(t.operand, f, not truth)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            if conj:
                fs = [f]
                for v in t.values:
                    fs = [h for g in fs for h in self.add(v, g, truth)]
                return fs
            out = []
            pre = [f]
            for v in t.values:
                for g in pre:
                    out.extend(self.add(v, g, truth))
                pre = [h for g in pre for h in self.add(v, g, not truth)]
            return list(dict.fromkeys(out))[:8]
        if isinstance(t, ast.Constant):
            return [f] if bool(t.value) == truth else []
        key, pol = fact(t)
        if key is None:
            return [f]
        v = truth == pol
        d = dict(f)
        if key in d:
            return [f] if d[key] == v else []
        new = {(key, v)}
        # x truthy means x is not None, x is None means x is not truthy
        if ' ' not in key:
            if v:
                if d.get(key + ' is None') is True:
                    return []
                new.add((key + ' is None', False))
        elif key.endswith(' is None') and v:
            x = key[:-8]
            if d.get(x) is True:
                return []
            new.add((x, False))
        m = re.match(r"^(.*) == (.*)$", key)
        if m and v:
            for k2, v2 in f:
                if k2.startswith(m.group(1) + ' == ') and v2 and k2 != key:
                    return []
            if d.get(m.group(1) + ' is None') is True:
                return []
        return [frozenset(f | new)]

    def loop(self, n, st, loops, tries):
        forever = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
        brk, cont = set(), set()
        if isinstance(n, ast.For):
            st = self.use(n.iter, st)
            self.leave(st, tries)
            enter = self.bind(st, self.targets(n.target))
        else:
            st = self.use(n.test, st)
            self.leave(st, tries)
            enter = self.assume(n.test, st, True)
        body_names = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        every = set(enter)
        last = set()
        todo = enter
        for _ in range(4):
            ends = self.block(n.body, todo, loops + [(brk, cont)], tries)
            last = self.limit(last | ends | cont)
            nxt = last
            if isinstance(n, ast.While):
                nxt = self.assume(n.test, self.use(n.test, nxt), True)
            else:
                nxt = self.bind(nxt, self.targets(n.target))
            todo = nxt - every
            if not todo:
                break
            every |= todo
        brk2 = set()
        if forever:
            done = set()
        elif isinstance(n, ast.While):
            done = self.assume(n.test, st, False) | self.assume(n.test, last, False)
        else:
            # whether a for loop runs at all is not judged: where it ran, its
            # names are set; where it did not, they are taken to be
            names = body_names | self.targets(n.target)
            names = frozenset(names)
            if n.target is not None and self.may_be_empty(n.iter):
                done = st | last
            else:
                done = {(b | names, f) for b, f in st} | last
        done = self.block(n.orelse, done, loops, tries)
        return self.limit(done | brk | brk2)

    def may_be_empty(self, e):
        """nothing in the function tests what the loop runs over"""
        if isinstance(e, (ast.Tuple, ast.List, ast.Constant)):
            return False
        names = {text(x) for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))} - set(dir(builtins)) - {'self'}
        if not names or isinstance(e, ast.Call) and not any(isinstance(x, (ast.Name, ast.Attribute)) for a in e.args for x in ast.walk(a)):
            return False
        for x in walk_scope(self.node):
            t = x.test if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)) else None
            if t is not None and any(isinstance(y, (ast.Name, ast.Attribute)) and text(y) in names for y in ast.walk(t)):
                return False
        return True

    def tried(self, n, st, loops, tries):
        inner = set(st)
        esc = tries + [inner]
        caught = set()
        for h in n.handlers:
            caught.update(x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)) if h.type is not None else caught.add('*')
        self.S.guard.append(caught)
        end = self.block(n.body, st, loops, esc)
        self.S.guard.pop()
        end = self.block(n.orelse, end, loops, tries)
        out = set(end)
        for h in n.handlers:
            hs = self.limit(set(inner))
            if h.name:
                hs = self.bind(hs, [h.name])
            if h.type is not None:
                self.use(h.type, hs)
            if h.name:
                self.S.excvars.append(h.name)
            r = self.block(h.body, hs, loops, tries)
            if h.name:
                self.S.excvars.pop()
                r = {(b - {h.name}, f) for b, f in r}
            out |= r
        if n.finalbody:
            # what left through an exception also runs the final part
            fin = self.limit(set(inner) | out)
            keep = self.reported
            r = self.block(n.finalbody, fin, loops, tries)
            self.reported = keep
            out = self.block(n.finalbody, out, loops, tries) if out else out
        for s in inner:
            self.leave({s}, tries)
        return out


def exits(c):
    f = c.func
    return isinstance(f, ast.Attribute) and f.attr in ('exit', '_exit') and isinstance(f.value, ast.Name) and f.value.id in ('sys', 'os')


def walk_expr(e):
    """sub-expressions evaluated in this scope"""
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Lambda, ast.FunctionDef)):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id not in names:
                    yield y
            continue
        yield x
        stack.extend(ast.iter_child_nodes(x))


def text(e):
    return ast.unparse(e)


def mentions(key, names):
    if key in ('#', '?'):
        return False
    return any(w in names for w in re.findall(r'[A-Za-z_]\w*', key))


def fact(t):
    """(test text, polarity) of a test that can be remembered"""
    if isinstance(t, (ast.Name, ast.Attribute)):
        return text(t), True
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value is None:
            return text(l) + ' is None', isinstance(op, (ast.Is, ast.Eq))
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
            return text(l) + ' == ' + repr(r.value), isinstance(op, ast.Eq)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return text(l) + ' == ' + text(r), isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.IsNot)):
            return text(l) + ' is ' + text(r), isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            return text(l) + ' in ' + text(r), isinstance(op, ast.In)
        if isinstance(op, ast.Lt):
            return text(l) + ' < ' + text(r), True
        if isinstance(op, ast.GtE):
            return text(l) + ' < ' + text(r), False
        if isinstance(op, ast.Gt):
            return text(r) + ' < ' + text(l), True
        if isinstance(op, ast.LtE):
            return text(r) + ' < ' + text(l), False
    if isinstance(t, ast.Call):
        return text(t), True
    return None, True


def faults(res, ctx):
    """rule: no site of the tree can only fail"""
    from .rules import Finding
    L = Lint()
    L.run()
    for r, k in sorted(L.sites.items()):
        bad = [f for f in L.found if f[0] == r]
        res.obligations += k
        res.discharged += k - len(bad)
        res.notes.append('%s: %d sites, %d not resolvable from the source' % (r, k, L.unjudged.get(r, 0)))
    for q in L.funcs:
        res.units.append({'entry': q, 'reference': None, 'status': 'ok' if not any(f[1] == q for f in L.found) else 'diff', 'obligations': None})
    for rule, fn, line, path, t in L.found:
        res.findings.append(Finding('fault/' + rule, fn, t, line, path))


faults.key = 'faults'


# ------------------------------------------------------------ shared state

DEFS = ('ModelType', 'BlockType', 'PointType', 'Symbol')
LOADING = ('mtype.', 'btype.', 'ptype.', 'symbol.', 'model_type_get', 'smdx.')
MUTATING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'sort', 'reverse',
            '__setitem__', '__delitem__'}


def roots(t):
    """the objects a stored-to location is part of"""
    from .interp import alts
    out = [t]
    while t.op in ('fld', 'idx', 'dget', 'eta', 'slice') and t.args and hasattr(t.args[0], 'op'):
        t = t.args[0]
        out.append(t)
    return out


def definition_writes(res, ctx):
    """rule: only the functions that load a definition change it"""
    from .entries import ENTRIES
    from .rules import Finding
    from .terms import T, ty
    from .interp import base_ty, alts
    from . import engine
    from .rules import watchdog, OutOfTime
    seen = set()
    for key, e in ENTRIES.items():
        if e.missing():
            res.undecided.append({'rule': 'definition-writes', 'why': 'no function %s' % e.missing()})
            continue
        fn = engine.program().func(e.qual)
        if key.startswith(LOADING) and not key.endswith(('not_equal', '.eq', '.ne', 'symbol_get')):
            continue
        try:
            with watchdog(20):
                A = e.summary()[0]
        except (Exception, OutOfTime) as x:
            res.undecided.append({'rule': 'definition-writes', 'why': '%s: %r' % (key, x)})
            continue
        n = 0
        for x in A.exits:
            for (b, f), v in x.stores.items():
                n += 1
                for r in [a for y in roots(b) for a in alts(y)]:
                    t = base_ty(r)
                    if t and t.startswith('obj:') and t[4:] in DEFS and (e.qual, f) not in seen:
                        if v is field(r, f) and r is b:
                            continue
                        seen.add((e.qual, f))
                        res.findings.append(Finding('state/definition-write', e.qual, 'field %r of a %s is changed outside the loading of definitions' % (f, t[4:]),
                                                    fn.node.lineno, fn.mod.path))
        res.obligations += max(1, n)
        res.discharged += max(1, n)
        res.units.append({'entry': e.qual, 'file': fn.mod.path, 'line': fn.node.lineno, 'status': 'ok', 'obligations': n})


def field(b, f):
    from .terms import mk
    return mk('fld', b, f) if isinstance(f, str) else None


definition_writes.key = 'definition-writes'


def is_container(e, S=None):
    """an expression that makes a new mutable object"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if name in ('list', 'dict', 'set', 'bytearray', 'deque', 'defaultdict', 'OrderedDict', 'Counter'):
            return True
        return bool(name) and name in (S or ())
    return False


def shared_state(res, ctx):
    """rule: no state is shared through defaults, class attributes or module
    variables, apart from the documented registries"""
    from .rules import Finding
    L = Lint()
    classes = {c for c in L.classnames if not any(hasattr(k, 'methods') and is_exception(k) for m in L.mods for k in [m.classes.get(c)] if k)}
    # how many module variables functions of the core may change: the definition
    # cache and search path, and the open serial ports
    allowed = {'sunspec.core.device': 2, 'sunspec.core.modbus.client': 1}
    sites = 0

    def bad(rule, qual, node, text, m):
        res.findings.append(Finding('state/' + rule, qual, text, getattr(node, 'lineno', 0), m.path))
    for m in L.mods:
        if m.name.startswith('scripts'):
            continue
        mutable = set(m.mutable)
        sites += 1 + len(mutable)
        if len(mutable) > allowed.get(m.name, 0):
            bad('module', m.name, None, 'functions change %d module variables (%s), %d are documented' % (
                len(mutable), ', '.join(sorted(mutable)), allowed.get(m.name, 0)), m)
        containers = {t.id for n in m_toplevel(m) if isinstance(n, ast.Assign) and is_container(n.value, classes) for t in n.targets
                      if isinstance(t, ast.Name)}
        fns = list(m.funcs.values()) + [f for c in m.classes.values() for f in list(c.methods.values()) + list(c.setters.values())]
        for f in fns:
            a = f.node.args
            pos = a.posonlyargs + a.args
            ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for p, d in ds:
                sites += 1
                if is_container(d, classes) or isinstance(d, ast.Name) and d.id in containers:
                    u = escapes(f.node, p.arg)
                    if u is not None:
                        bad('default', f.qual, u, 'the default of %r is one object shared by all calls, and it is kept or changed here' % p.arg, m)
            # a container of the module kept in an object
            loc = local_names(f.node)
            for n in walk_scope(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets):
                    sites += 1
                    v = n.value
                    if isinstance(v, ast.Name) and v.id in containers and v.id not in loc and v.id not in mutable:
                        bad('module', f.qual, n, 'the module variable %r itself is kept in an object' % v.id, m)
                # a class changed at run time
                tg = [t for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else ())
                      if isinstance(t, ast.Attribute)]
                for t in tg:
                    b = t.value
                    if isinstance(b, ast.Name) and b.id in m.classes and b.id not in loc or \
                            isinstance(b, ast.Attribute) and b.attr == '__class__' or \
                            isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type' and len(b.args) == 1:
                        bad('class', f.qual, n, 'attribute %r of a class is changed by an operation' % t.attr, m)
        for c in m.classes.values():
            for name, v in c.attrs.items():
                sites += 1
                if not is_container(v, classes):
                    continue
                inits = [k.methods['__init__'] for k in c.mro() if '__init__' in k.methods][:1]
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name for i in inits for x in ast.walk(i.node)):
                    continue
                u = mutated(L, name)
                if u is not None:
                    bad('class', c.qual, u[1], 'class attribute %r is one object shared by all instances, and %s changes it' % (name, u[0]), m)
    res.obligations += sites
    res.discharged += sites - len([1 for x in res.findings if x.rule.startswith('state/') and x.rule != 'state/definition-write'])
    res.notes.append('shared state: %d parameters, class attributes, module variables and stores examined' % sites)


shared_state.key = 'shared-state'


def escapes(fn, p):
    """where a parameter is kept or changed"""
    rebound = [n for n in walk_scope(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in n.targets)]
    for n in walk_scope(fn):
        if rebound and getattr(n, 'lineno', 0) >= min(r.lineno for r in rebound):
            # after a rebinding the name may be another object
            if not any(isinstance(r.value, (ast.IfExp, ast.BoolOp)) for r in rebound):
                continue
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) and name_in(n.value, p):
            return n
        if isinstance(n, ast.Return) and n.value is not None and name_in(n.value, p):
            return n
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p:
            return n
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == p:
                    return n
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING and isinstance(n.func.value, ast.Name) and n.func.value.id == p:
                return n
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING and any(name_in(x, p) for x in n.args) and n.func.attr != 'extend':
                return n
    return None


def name_in(e, p):
    """the value may be the object named p itself"""
    if isinstance(e, ast.Name):
        return e.id == p
    if isinstance(e, ast.IfExp):
        return name_in(e.body, p) or name_in(e.orelse, p)
    if isinstance(e, ast.BoolOp):
        return any(name_in(x, p) for x in e.values)
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(name_in(x, p) for x in e.elts)
    return False


def mutated(L, name):
    for m in L.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING and isinstance(n.func.value, ast.Attribute) and \
                    n.func.value.attr == name:
                return '%s line %d' % (m.name, n.lineno), n
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and n.value.attr == name:
                return '%s line %d' % (m.name, n.lineno), n
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                return '%s line %d' % (m.name, n.lineno), n
    return None


# the documented error classes, and what each must be a kind of
ERRORS = {
    'sunspec.core.modbus.client.ModbusClientError': ('Exception',),
    'sunspec.core.modbus.client.ModbusClientTimeout': ('sunspec.core.modbus.client.ModbusClientError', 'Exception'),
    'sunspec.core.modbus.client.ModbusClientException': ('sunspec.core.modbus.client.ModbusClientError', 'Exception'),
    'sunspec.core.client.SunSpecClientError': ('sunspec.core.util.SunSpecError', 'Exception'),
    'sunspec.core.util.SunSpecError': ('Exception',),
    'sunspec.core.modbus.mbmap.ModbusMapError': ('Exception',),
    'sunspec.core.data.SunSpecDataError': ('Exception',),
}
# kinds that a caller tells apart
APART = [('sunspec.core.modbus.client.ModbusClientTimeout', 'sunspec.core.modbus.client.ModbusClientException')]


def kinds(c):
    """qualified names of all that a class is a kind of"""
    import builtins
    out = set()
    for b in c.mro():
        out.add(b.qual)
        for x in b.bases:
            if isinstance(x, str):
                e = getattr(builtins, x.rpartition('.')[2], None)
                if isinstance(e, type):
                    out.update(k.__name__ for k in e.__mro__)
    return out


def error_kinds(*names):
    """rule: each documented error is an exception, of the documented kinds, and keeps its message"""
    def rule(res, ctx):
        from .rules import Finding
        from . import engine
        prog = engine.program()
        for q in names:
            c = prog.class_by_path(q)
            if c is None:
                res.undecided.append({'rule': 'error-kinds', 'why': 'no class %s' % q})
                continue
            have = kinds(c)
            bad = ['%s is no kind of %s' % (c.name, k.rpartition('.')[2]) for k in ERRORS[q] if k not in have and
                   not (prog.class_by_path(k) is not None and prog.class_by_path(k).qual in have)]
            for a, b in APART:
                for x, y in ((a, b), (b, a)):
                    if q == x and y in have:
                        bad.append('%s is a kind of %s' % (c.name, y.rpartition('.')[2]))
            for k in c.mro():
                f = k.methods.get('__str__')
                if f is not None and not any(isinstance(n, ast.Name) and n.id == 'super' or isinstance(n, ast.Attribute) and n.attr in ('args', '__str__')
                                             for n in ast.walk(f.node)):
                    bad.append('%s does not show its message' % c.name)
            for t in bad:
                res.findings.append(Finding('structure/error-kinds', c.qual, t, c.node.lineno, c.mod.path))
            res.obligations += len(ERRORS[q])
            res.discharged += len(ERRORS[q]) - min(len(bad), len(ERRORS[q]))
            res.units.append({'entry': c.qual, 'file': c.mod.path, 'line': c.node.lineno, 'status': 'finding' if bad else 'ok', 'obligations': len(ERRORS[q])})
    rule.key = 'error-kinds'
    return rule
