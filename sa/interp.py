"""Gated value-graph abstract interpreter for the Python subset of the analysed tree.

One pass over the source of a function builds a value graph: branches join in
phi nodes selected by their condition, loops are summarised by loop-carried
nodes (iteration counter `it`, accumulators `acc`, general `mu`), calls to
functions of the tree are expanded in place.  Nothing is executed, no path is
enumerated and no solver is involved.
"""
import ast
import time
from fractions import Fraction
import builtins

from .terms import *
from .terms import subst_lit, fixed_len
from .terms import _under, _is_lit
from .source import walk_scope
from . import terms as TM
from .source import Func, Cls, AnchorError


def builtin_model():
    from . import builtin_model as bm
    return bm


DEADLINE = [float('inf')]


class Dead(Exception):
    """the current flow ended inside an expression (it always raises)"""


class Budget(Exception):
    pass


class Ev(object):
    """an observable event, with its guard"""
    __slots__ = ('kind', 'args', 'pc', 'node', 'extra', 'snap', 'state')

    def __init__(self, kind, args, pc, node=None, extra=None, snap=()):
        self.snap = snap
        self.state = ()         # what the callee may see of its own object
        self.kind = kind
        self.args = args
        self.pc = pc
        self.node = node
        self.extra = extra

    def __repr__(self):
        return '%s(%s) if %s' % (self.kind, ', '.join(show(a) for a in self.args), show(self.pc))


def alts(t):
    if t.op == 'phi':
        return alts(t.args[1]) + alts(t.args[2])
    return [t]


class StoreList(list):
    """stores of one way through an iteration, with how often what each field
    holds became unknown on it"""
    ver = {}


class StoreDict(dict):
    ver = {}


class Loop(object):
    __slots__ = ('luid', 'depth', 'pc', 'body', 'back', 'exits', 'node', 'X', 'header', 'Xw', 'facts')

    def __repr__(self):
        return 'loop#%d X=%s if %s\n  %s\n  back %s\n  exits %s' % (
            self.luid, show(self.X), show(self.pc),
            '\n  '.join(repr(e).replace('\n', '\n  ') for e in self.body),
            [(show(b), f, show(v)) for b, f, v in self.back], [(k, show(g), show(p) if isinstance(p, T) else p) for k, g, p, s in self.exits])


def v_missing(v):
    return v is UNDEF or v.op == 'noname'


class State(object):
    __slots__ = ('store', 'pc', 'cnt', 'ver', 'facts')

    def __init__(self):
        self.store = {}
        self.pc = TRUE
        self.cnt = {}
        self.ver = {}
        self.facts = ()

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.pc = self.pc
        s.cnt = dict(self.cnt)
        s.ver = dict(self.ver)
        s.facts = self.facts
        return s

    def become(self, o):
        self.store = o.store
        self.pc = o.pc
        self.cnt = o.cnt
        self.ver = o.ver

    def lits(self):
        ls = list(self.facts)
        if self.pc.op == 'and':
            ls.extend(x for x in self.pc.args)
        elif self.pc is not TRUE:
            ls.append(self.pc)
        return ls

    def choose(self, t):
        """the alternative of a selection that this flow has decided"""
        while t.op == 'phi':
            c = self.decide(t.args[0])
            if c is TRUE:
                t = t.args[1]
            elif c is FALSE:
                t = t.args[2]
            else:
                break
        return t

    def decide(self, c):
        """simplify a condition with what is known on this flow"""
        if is_const(c):
            return c
        ls = [x for x in self.lits() if _is_lit(x)]
        if not ls:
            return c
        v = _under(c, ls)
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if c.op in ('and', 'or'):
            keep = []
            for x in c.args:
                u = _under(x, ls)
                if u is None:
                    keep.append(x)
                elif u is True and c.op == 'or':
                    return TRUE
                elif u is False and c.op == 'and':
                    return FALSE
            if len(keep) != len(c.args):
                return (band if c.op == 'and' else bor)(*keep)
        return c


# values of library constants that may be written either way
LIBCONST = {'serial.PARITY_NONE': 'N', 'serial.PARITY_EVEN': 'E', 'serial.PARITY_ODD': 'O', 'serial.PARITY_MARK': 'M',
            'serial.PARITY_SPACE': 'S', 'serial.FIVEBITS': 5, 'serial.SIXBITS': 6, 'serial.SEVENBITS': 7, 'serial.EIGHTBITS': 8,
            'serial.STOPBITS_ONE': 1, 'serial.STOPBITS_TWO': 2}


def extname(dotted):
    if dotted in ('os.sep', 'os.path.sep'):
        return mk('sym', 'os.sep', 'str')
    if dotted in LIBCONST:
        return const(LIBCONST[dotted])
    return mk('extname', dotted)


MU_TYPES = {}
LUID = [0]
NOBJ = [0]
_ONLY = {}      # (function, local): whether nothing else holds its value
EXT_TYPES = {}
CALL_TYPES = {
    'int': 'int', 'float': 'num', 'str': 'str', 'abs': 'num', 'round': 'int', 'struct.unpack': 'tuple',
    'os.path.join': 'str', 'os.path.exists': 'bool', 'os.path.dirname': 'str', 'os.path.abspath': 'str', 'os.getcwd': 'str',
    'open': 'obj:file', 'zipfile.ZipFile': 'obj:zipfile', 'time.time': 'num', 'time.strftime': 'str',
    'xml.etree.ElementTree.fromstring': 'obj:Element', 'xml.etree.ElementTree.tostring': 'bytes',
    'base64.b16decode': 'bytes', 'replace': None, 'math.pow': 'num', 'power': 'num', 'strip': None, 'split': 'list:str',
    'float': 'num', 'hex': 'str', 'crc16': 'int', 'bytes': 'bytes', 'repr': 'str', 'format': 'str', 'os.fspath': 'str',
    'lower': 'str', 'upper': 'str', 'count': 'int', 'find': 'int', 'msg': 'str', 'sum': 'num', 'sorted': None,
    'startswith': 'bool', 'endswith': 'bool', 'in': 'bool', 'time.gmtime': 'obj:struct_time', 'isnan': 'bool',
    'math.isnan': 'bool', 'keys': 'list:', 'values': 'list:', 'os.path.isabs': 'bool', 'os.path.isfile': 'bool',
}
FIELD_TYPES = {}
CLASSES_BY_NAME = {}


def _oracle(t):
    op = t.op
    if op == 'sym':
        return t.args[1]
    if op == 'fld':
        if t.args[1] == '__dict__':
            return 'dict:'
        c = base_ty(t.args[0])
        if c and c.startswith('obj:'):
            return field_type(c[4:], t.args[1])
        if t.args[0].op == 'mod':
            return FIELD_TYPES.get((t.args[0].args[0], t.args[1]))
        return None
    if op in ('mu', 'acc'):
        return MU_TYPES.get(t)
    if op == 'ext':
        return EXT_TYPES.get(t) or EXT_TYPES.get((t.args[0],))
    if op == 'call':
        n = t.args[0]
        if n in CALL_TYPES:
            return CALL_TYPES[n]
        return EXT_TYPES.get(t)
    if op == 'apply':
        return EXT_TYPES.get(t)
    if op == 'obj':
        return 'obj:' + t.args[1] if t.args[1] not in ('list', 'dict', 'set') else \
            (t.args[1] + ':' if t.args[1] != 'set' else 'list:')
    if op == 'inst':
        return 'obj:' + t.args[0]
    if op in ('post',):
        return EXT_TYPES.get(t)
    if op in ('chr',):
        return 'str'
    if op in ('ord', 'crc'):
        return 'int'
    if op in ('MU', 'ACC', 'IT', 'ETA', 'OBJ'):
        return MU_TYPES.get(t)
    return None


TM.TYPE_ORACLE[0] = _oracle


def field_type(cname, f):
    seen = 0
    c = CLASSES_BY_NAME.get(cname)
    names = [cname]
    if c is not None:
        names = [x.name for x in c.mro()]
    for n in names:
        if (n, f) in FIELD_TYPES:
            return FIELD_TYPES[(n, f)]
    return None


ALIASES = {'elementtree.ElementTree': 'xml.etree.ElementTree', 'ET': 'xml.etree.ElementTree'}

BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
EXC_PARENT = {'socket.timeout': 'TimeoutError', 'socket.error': 'OSError', 'struct.error': 'Exception',
              'serial.SerialException': 'OSError', 'ssl.SSLError': 'OSError', 'socket.gaierror': 'OSError',
              'xml.etree.ElementTree.ParseError': 'SyntaxError', 'zipfile.BadZipfile': 'Exception',
              'zipfile.BadZipFile': 'Exception', 'IOError': 'OSError', 'EnvironmentError': 'OSError',
              'AnyError': 'Exception'}


METHODS = {'list': frozenset(n for c in (list, set) for n in dir(c)), 'dict': frozenset(dir(dict)), 'str': frozenset(dir(str)),
           'bytes': frozenset(n for c in (bytes, bytearray) for n in dir(c)),
           'obj:Element': frozenset(('find', 'findall', 'findtext', 'get', 'set', 'iter', 'iterfind', 'append', 'extend', 'items', 'keys'))}


class LoopInfo(object):
    def __init__(self, luid, depth):
        self.luid = luid
        self.depth = depth
        self.X = None
        self.mus = {}      # locid -> (init, update)
        self.accs = {}     # gid -> delta (in terms of the loop's own nodes)
        self.acckind = {}
        self.quiet = False  # no effect but the values it carries
        self.trips = None   # number of iterations, when the header alone ends the loop


def lits_of_pc(c):
    return c.args if c.op == 'and' else (c,)


class Closures(dict):
    """closure -> (function, frame it was made in); those made when a module is imported come from its run"""
    def __init__(self, run):
        dict.__init__(self)
        self.run = run

    def __missing__(self, t):
        made, frames = self.run.prog._modclosures[t]
        self[t] = made
        for k, v in frames.items():
            self.run.frames.setdefault(k, v)
        return made


class Run(object):
    """one analysis of one entry point"""

    MAXDEPTH = 24
    BUDGET = 400000

    def __init__(self, prog, stubs=None, ext=None, opts=None):
        self.prog = prog
        self.stubs = prog.moved(stubs or {})
        self.ext = ext or {}
        self.opts = opts or {}
        self.nobj = NOBJ[0]
        NOBJ[0] += 1000000
        self.nframe = 0
        self.nloc = 0
        self.frames = {}
        self.unset = set()      # carried values that no assignment has reached at first
        self.funcs = prog.__dict__.setdefault('func_table', {})
        self.closures = Closures(self)
        self.classes = prog.__dict__.setdefault('class_table', {})
        self.trace = []
        self.loops = {}
        self.lstack = []
        self.opaques = []
        self.depth = 0
        self.trystack = []
        self.steps = 0
        self.inlined = set()
        self.modenv = {}
        self.stack = []
        self.boundtab = {}
        self.gens = []          # generators made and not yet consumed
        self.single = set()     # loops without a second iteration
        self.nfused = 0
        self.lazy = {}
        self.consumers = {}     # generator frame -> what runs at a yield
        self.locids = {}
        self.objloop = {}
        self.elems = {}
        for m in prog.mods.values():
            for c in m.classes.values():
                if not m.name.startswith('spec.'):
                    CLASSES_BY_NAME[c.name] = c

    # ---------------------------------------------------------- utilities
    def tick(self):
        self.steps += 1
        if self.steps > self.BUDGET:
            raise Budget('analysis budget exceeded')
        if time.time() > DEADLINE[0]:
            raise Budget('time limit of the analysis')

    def opaque(self, why, node=None):
        line = getattr(node, 'lineno', 0)
        self.opaques.append('%s (line %s)' % (why, line))
        self.nobj += 1
        return mk('opaque', why, self.nobj)

    def alloc(self, st, cname):
        self.nobj += 1
        o = mk('obj', self.nobj, cname)
        self.objloop[o] = tuple(self.lstack)
        return o

    def newlist(self, st, content):
        o = self.alloc(st, 'list')
        st.store[(o, '$')] = content
        return o

    def newdict(self, st, content=None):
        o = self.alloc(st, 'dict')
        st.store[(o, '$')] = content if content is not None else mkdict(EMPTYSEQ, {})
        return o

    def newframe(self, func, parent, mod):
        self.nframe += 1
        fid = self.nframe
        self.frames[fid] = (func, parent, mod)
        return fid

    def content(self, st, t):
        """the sequence / mapping value of t"""
        if t.op == 'phi':
            return phi(t.args[0], self.content(st, t.args[1]), self.content(st, t.args[2]))
        v = st.store.get((t, '$'))
        if v is not None:
            return v
        if t.op == 'obj':
            return mk('fld', t, '$')
        ver = st.ver.get('$', 0)
        return t

    def setcontent(self, st, t, v):
        if t.op == 'phi':
            c = t.args[0]
            a, b = t.args[1], t.args[2]
            if a.op not in ('const', 'undef'):
                self.setcontent(st, a, phi(c, v, self.content(st, a)))
            if b.op not in ('const', 'undef'):
                self.setcontent(st, b, phi(c, self.content(st, b), v))
            return
        st.store[(t, '$')] = v

    def lvariant(self, t, luid):
        for x in walk(t):
            if x.op in ('it', 'mu', 'acc') and x.args[0] == luid:
                return True
        return False

    # ------------------------------------------------------ state merging
    def initial(self, st, loc):
        base, f = loc
        if isinstance(base, int):
            return UNDEF
        if f == '$':
            return base
        if base.op == 'obj':
            return UNDEF
        v = st.ver.get(f, 0)
        return mk('fld', base, f) if v == 0 else mk('fld', base, f, v)

    def merge(self, cond, a, b):
        """state that is a when cond holds, else b"""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.facts = a.facts
        sa, sb = a.store, b.store
        out = {}
        for loc, v in sa.items():
            w = sb.get(loc)
            if w is v:
                out[loc] = v
            else:
                if w is None:
                    if not isinstance(loc[0], int) and loc[0].op == 'obj':
                        out[loc] = v
                        continue
                    w = self.initial(b, loc)
                out[loc] = phi(cond, v, w)
        for loc, w in sb.items():
            if loc not in sa:
                if not isinstance(loc[0], int) and loc[0].op == 'obj':
                    out[loc] = w
                    continue
                out[loc] = phi(cond, self.initial(a, loc), w)
        s.store = out
        s.pc = bor(a.pc, b.pc)
        s.cnt = dict(a.cnt)
        for k, n in b.cnt.items():
            if n > s.cnt.get(k, 0):
                s.cnt[k] = n
        s.ver = dict(a.ver)
        for k, n in b.ver.items():
            if n > s.ver.get(k, 0):
                s.ver[k] = n
        return s

    def relpc(self, pc, others):
        """pc without the conjuncts it shares with every other pc"""
        s = set(pc.args) if pc.op == 'and' else {pc}
        com = set(s)
        for o in others:
            com &= set(o.args) if o.op == 'and' else {o}
        rest = s - com
        return band(*rest) if rest else TRUE

    def merge_all(self, items):
        """items: [(state, value)] -> (state, value)"""
        items = [(s, v) for s, v in items if s is not None and s.pc is not FALSE]
        if not items:
            return None, None
        st, val = items[-1]
        for s, v in reversed(items[:-1]):
            c = self.relpc(s.pc, [st.pc])
            d = self.relpc(st.pc, [s.pc])
            if c is TRUE or (_is_lit(d) and not _is_lit(c)):
                # the other one decides as well
                c = neg_b(d)
            n = self.merge(c, s, st)
            if val is v:
                val = v
            elif isinstance(val, T) and isinstance(v, T):
                val = phi(c, v, val)
            else:
                val = v
            st = n
        return st, val

    # ----------------------------------------------------------- events
    def ev(self, st, kind, args, node=None, extra=None):
        snap = ()
        if any(a.op == 'obj' or a.op == 'phi' for a in args if isinstance(a, T)):
            from .builtin_model import reify
            # what the passed objects hold at the time of the call
            objs = []
            for a in args:
                for o in alts(a):
                    if o.op == 'obj' and o not in objs:
                        objs.append(o)
            snap = tuple((o, reify(self, st, o)) for o in objs)
        self.trace.append(Ev(kind, tuple(args), st.pc, node, extra, snap))

    def itmark(self):
        return mk('it', self.lstack[-1]) if self.lstack else NONE

    def ext_call(self, st, out, kind, args, spec, node=None, havoc=None):
        """an effect on the outside world; result is a fresh opaque value"""
        key = (kind, tuple(self.lstack))
        n = st.cnt.get(key, 0) + 1
        st.cnt[key] = n
        args = [self.rv(st, a) for a in args]
        res = mk('ext', kind, n, self.itmark(), *args)
        if spec.get('ret'):
            EXT_TYPES[res] = spec['ret']
        self.ev(st, kind, args, node, extra=res)
        for exc in spec.get('raises', ()):
            atom = mk('exc', res, exc)
            s2 = st.copy()
            s2.pc = band(st.pc, atom)
            if havoc is not None:
                havoc(s2, res)
            out.append(('raise', s2, mk('excval', exc, res)))
            st.pc = band(st.pc, neg_b(atom))
        if havoc is not None:
            havoc(st, res)
        for f in spec.get('bump', ()):
            st.ver[f] = st.ver.get(f, 0) + 1
        return res

    def rv(self, st, t):
        """argument value with local containers replaced by their content"""
        if t.op == 'obj' and t.args[1] in ('list', 'dict', 'set'):
            return self.rv(st, self.content(st, t))
        if t.op in ('lst', 'tup', 'cat', 'phi', 'dict'):
            ch = children(t)
            nk = [self.rv(st, c) for c in ch]
            if any(a is not b for a, b in zip(ch, nk)):
                return rebuild(t, nk)
            return t
        v = st.store.get((t, '$')) if t.op not in ('const',) else None
        if v is not None and t.op != 'obj':
            return v
        return t

    def implicit(self, st, out, exc, atom):
        """a builtin operation may raise exc when atom holds (only modelled
        where an enclosing handler would swallow it)"""
        atom = st.decide(atom)
        if atom is FALSE:
            return
        for handlers in reversed(self.trystack):
            for names, swallow in handlers:
                if any(self.exc_isa(exc, n) for n in names):
                    if swallow:
                        s2 = st.copy()
                        s2.pc = band(st.pc, atom)
                        out.append(('raise', s2, mk('excval', exc, NONE)))
                        st.pc = band(st.pc, neg_b(atom))
                        if st.pc is FALSE:
                            raise Dead()
                    return

    # ------------------------------------------------- exception classes
    def exc_isa(self, name, target):
        if name == target or target in ('BaseException', '*'):
            return True
        seen = set()
        while name and name not in seen:
            seen.add(name)
            if name == target:
                return True
            if name in BUILTIN_EXC:
                if target in BUILTIN_EXC:
                    return issubclass(BUILTIN_EXC[name], BUILTIN_EXC[target])
                if target in EXC_PARENT and EXC_PARENT[target] == name:
                    return False
                p = target
                while p in EXC_PARENT and p in ('IOError', 'EnvironmentError', 'socket.error'):
                    p = EXC_PARENT[p]
                if p in BUILTIN_EXC:
                    return issubclass(BUILTIN_EXC[name], BUILTIN_EXC[p])
                return False
            c = CLASSES_BY_NAME.get(name)
            if c is not None:
                nxt = None
                for b in c.bases:
                    bn = b.name if isinstance(b, Cls) else b
                    if self.exc_isa(bn, target):
                        return True
                return False
            name = EXC_PARENT.get(name)
        return False

    def exc_names(self, t):
        """exception class names denoted by an except clause value"""
        if t is None:
            return ['*']
        if t.op == 'tup':
            return [n for x in t.args for n in self.exc_names(x)]
        if t.op == 'class':
            return [self.classes[t].name]
        if t.op == 'builtin':
            n = t.args[0]
            return [{'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(n, n)]
        if t.op == 'extname':
            n = t.args[0]
            return [{'socket.error': 'OSError', 'zipfile.BadZipfile': 'zipfile.BadZipFile'}.get(n, n)]
        return ['?']

    # -------------------------------------------------------------- scope
    def classterm(self, c):
        t = mk('class', c.qual)
        self.classes[t] = c
        return t

    def functerm(self, f):
        t = mk('func', f.qual)
        self.funcs[t] = f
        return t

    def module_global(self, st, mod, name):
        m = self.prog.mods.get(mod)
        if m is None:
            return None
        mt = mk('mod', mod)
        v = st.store.get((mt, name))
        if v is not None:
            return v
        line = self.prog.doubtful(mod + '.' + name) if self.prog.rebound() else None
        if line is not None and name not in m.funcs:
            return self.opaque('%s.%s is given another meaning on line %s' % (mod, name, line))
        if name in m.mutable:
            ver = st.ver.get(name, 0)
            return mk('fld', mt, name) if not ver else mk('fld', mt, name, ver)
        if name in m.funcs:
            return self.functerm(m.funcs[name])
        if name in m.classes:
            return self.classterm(m.classes[name])
        imps = self.prog.imports(m)
        if name in imps:
            return self.import_value(st, imps[name])
        env = self.module_env(m)
        return env.get(name)

    def import_value(self, st, dotted):
        dotted = ALIASES.get(dotted, dotted)
        if dotted in self.prog.mods:
            return mk('mod', dotted)
        mod, _, nm = dotted.rpartition('.')
        if mod in self.prog.mods:
            v = self.module_global(st, mod, nm)
            if v is not None:
                return v
        if any(k.startswith(dotted + '.') for k in self.prog.mods):
            return mk('mod', dotted)
        return extname(dotted)

    def module_env(self, m):
        cache = getattr(self.prog, '_modenv', None)
        if cache is None:
            cache = self.prog._modenv = {}
        if m.name in cache:
            return cache[m.name]
        env = cache[m.name] = {}
        sub = Run(self.prog, opts={'module': True})
        sub.BUDGET = 3000000
        sub.nframe = 1000000 * len(cache)
        st = State()
        fid = sub.newframe(None, None, m.name)
        try:
            sub.exec_module(m, st, fid, env)
        except (Dead, Budget):
            pass
        self.prog.__dict__.setdefault('_modopaque', {})[m.name] = sub.opaques
        made = self.prog.__dict__.setdefault('_modclosures', {})
        for t, v in sub.closures.items():
            made.setdefault(t, (v, sub.frames))
        held = self.prog.__dict__.setdefault('_modframes', {})
        for (b, name), v in st.store.items():
            if isinstance(b, int) and b != fid:
                held.setdefault(b, {})[name] = sub.freeze(st, v)
        return env

    def exec_module(self, m, st, fid, env):
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(n, ast.Try) and all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in n.body):
                continue
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and \
                    n.test.left.id == '__name__':
                continue
            out = []
            self.stack.append(fid)
            try:
                r = self.exec_stmt(n, st, out)
            finally:
                self.stack.pop()
            if r is None:
                break
            if r is not st:
                st.become(r)
            for (b, name), v in list(st.store.items()):
                if b == fid:
                    env[name] = self.freeze(st, v)
        return

    def freeze(self, st, t, depth=0):
        if depth > 12:
            return t
        if t.op == 'obj' and t.args[1] in ('list', 'dict', 'set'):
            return self.freeze(st, self.content(st, t), depth + 1)
        if t.op in ('lst', 'tup', 'cat', 'phi', 'dict'):
            ch = children(t)
            nk = [self.freeze(st, c, depth + 1) for c in ch]
            return rebuild(t, nk) if any(a is not b for a, b in zip(ch, nk)) else t
        return t

    def lookup(self, st, fid, name, node=None):
        f = fid
        while f is not None:
            func, parent, mod = self.frames[f]
            if func is None or not isinstance(func, Func):
                v = st.store.get((f, name))
                if v is not None:
                    return v
            elif name in func.locals:
                v = st.store.get((f, name))
                if v is None and f >= 1000000:
                    v = self.prog.__dict__.get('_modframes', {}).get(f, {}).get(name)
                return v if v is not None else UNDEF
            last = mod
            f = parent
        v = self.module_global(st, last, name)
        if v is not None:
            return v
        if hasattr(builtins, name):
            return mk('builtin', name)
        if name in ('unicode', 'long', 'basestring'):
            return mk('builtin', {'unicode': 'str', 'long': 'int', 'basestring': 'str'}[name])
        if name == '__name__':
            return const('module')
        if name == '__file__':
            return mk('extname', '__file__')
        return mk('noname', name)

    def scope_owner(self, fid, name):
        """frame that owns an assignment to name from frame fid"""
        f = fid
        func, parent, mod = self.frames[f]
        if func is None:
            if parent is None:
                return f
            # comprehension frame: only its own targets live here
            return f
        if isinstance(func, Func):
            if name in func.globals:
                return mk('mod', mod)
            if name not in func.locals:
                # nonlocal
                p = parent
                while p is not None:
                    fn, pp, _ = self.frames[p]
                    if fn is not None and name in fn.locals:
                        return p
                    p = pp
        return f

    def setvar(self, st, name, v):
        fid = self.stack[-1]
        st.store[(self.scope_owner(fid, name), name)] = v

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, st, out):
        for n in stmts:
            if st is None or st.pc is FALSE:
                return None
            st = self.exec_stmt(n, st, out)
        if st is not None and st.pc is FALSE:
            return None
        return st

    def exec_stmt(self, n, st, out):
        self.tick()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            self.opaque('statement ' + type(n).__name__, n)
            return st
        try:
            return m(n, st, out)
        except Dead:
            return None

    def st_Expr(self, n, st, out):
        if isinstance(n.value, ast.Constant):
            return st
        if self.grow_bytes(n.value, st, out):
            return st
        self.eval(n.value, st, out)
        return st

    def grow_bytes(self, n, st, out):
        """x.extend(y) and x.append(y) on a byte buffer only this function
        holds: the buffer is the same as a growing byte string"""
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extend', 'append') and
                isinstance(n.func.value, ast.Name) and len(n.args) == 1 and not n.keywords):
            return False
        x = n.func.value.id
        loc = (self.stack[-1], x)
        cur = st.store.get(loc)
        if cur is None or base_ty(cur) != 'bytes' or cur.op == 'obj' or (cur, '$') in st.store or not self.only_name(x):
            return False
        v = self.eval(n.args[0], st, out)
        from . import builtin_model as B
        if n.func.attr == 'append':
            v = const(bytes([v.args[0]])) if is_const(v) else mk('enc', 'B', v)
        else:
            v = B.call_builtin_values(self, st, 'bytes', [v], {}, out, n)
            if v is None:
                return False
        self.setvar(st, x, cat(cur, v))
        return True

    def only_name(self, x):
        """no other name, field or container may hold what the local x holds"""
        fn = self.frames[self.stack[-1]][0]
        if fn is None:
            return False
        fn = fn.node
        key = (fn, x)
        r = _ONLY.get(key)
        if r is None:
            par = {}
            for p in ast.walk(fn):
                for c in ast.iter_child_nodes(p):
                    par[c] = p
            r = True
            for m in ast.walk(fn):
                if isinstance(m, ast.Name) and m.id == x and isinstance(m.ctx, ast.Load):
                    p = par.get(m)
                    if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.IfExp, ast.BoolOp,
                                      ast.Yield, ast.keyword)) and not (isinstance(p, ast.Assign) and m in p.targets):
                        r = False
                    if isinstance(p, ast.Call) and m in p.args and not (isinstance(p.func, ast.Name) and p.func.id in
                                                                        ('bytes', 'len', 'bytearray', 'list')):
                        r = False
                if isinstance(m, (ast.Nonlocal, ast.Global)) and x in m.names:
                    r = False
            if x in [a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)]:
                r = False
            _ONLY[key] = r
        return r

    def st_Pass(self, n, st, out):
        return st

    def st_Import(self, n, st, out):
        for a in n.names:
            if a.asname:
                self.setvar(st, a.asname, self.import_value(st, a.name))
            else:
                self.setvar(st, a.name.split('.')[0], self.import_value(st, a.name.split('.')[0]))
        return st

    def st_ImportFrom(self, n, st, out):
        for a in n.names:
            self.setvar(st, a.asname or a.name, self.import_value(st, (n.module or '') + '.' + a.name))
        return st

    def st_Global(self, n, st, out):
        return st

    st_Nonlocal = st_Global

    def st_Assert(self, n, st, out):
        return st

    def st_FunctionDef(self, n, st, out):
        self.setvar(st, n.name, self.make_closure(n, st, out))
        return st

    def st_ClassDef(self, n, st, out):
        self.setvar(st, n.name, self.opaque('nested class', n))
        return st

    def make_closure(self, n, st, out):
        fid = self.stack[-1]
        func, parent, mod = self.frames[fid]
        m = self.prog.mods[mod]
        f = Func('%s.<%s>' % (mod, getattr(n, 'name', 'lambda')), n, m, getattr(func, 'cls', None))
        a = n.args
        pos = a.posonlyargs + a.args
        f.cdefs = {x.arg: self.eval(d, st, out) for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) +
                   [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]}
        self.nobj += 1
        t = mk('closure', self.nobj)
        self.closures[t] = (f, fid)
        return t

    def st_Assign(self, n, st, out):
        v = self.lazily(n.value, st, out)
        for t in n.targets:
            self.assign(t, v, st, out)
        return st

    def st_AnnAssign(self, n, st, out):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st, out), st, out)
        return st

    def st_AugAssign(self, n, st, out):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, self.stack[-1], t.id, t)
            if v_missing(cur):
                self.fault(st, out, 'NameError')
            r = self.eval(n.value, st, out)
            if isinstance(n.op, ast.Add) and self.is_listobj(st, cur):
                self.setcontent(st, cur, cat(self.content(st, cur), self.as_seq(st, r)))
                return st
            self.setvar(st, t.id, self.binop(n.op, cur, r, st, n))
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, out)
            cur = self.getattr(st, b, t.attr, out, t)
            r = self.eval(n.value, st, out)
            if isinstance(n.op, ast.Add) and self.is_listobj(st, cur):
                self.setcontent(st, cur, cat(self.content(st, cur), self.as_seq(st, r)))
                return st
            self.setattr(st, b, t.attr, self.binop(n.op, cur, r, st, n), out)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, out)
            k = self.eval(t.slice, st, out)
            cur = self.subscript(st, b, k, out, t)
            r = self.eval(n.value, st, out)
            if isinstance(n.op, ast.Add) and self.is_listobj(st, cur):
                self.setcontent(st, cur, cat(self.content(st, cur), self.as_seq(st, r)))
                return st
            self.setitem(st, b, k, self.binop(n.op, cur, r, st, n), out)
        else:
            self.opaque('augassign', n)
        return st

    def is_listobj(self, st, t):
        if t.op == 'obj' and t.args[1] == 'list':
            return True
        b = base_ty(t)
        return bool(b and b.startswith('list') and t.op in ('fld', 'sym', 'dget', 'idx'))

    def assign(self, t, v, st, out):
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, out)
            self.setattr(st, b, t.attr, v, out)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, out)
            k = self.eval(t.slice, st, out)
            self.setitem(st, b, k, v, out)
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.as_seq(st, v) if v.op == 'iter' else self.content(st, v)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    rest = len(t.elts) - 1 - i
                    if rest:
                        for j in range(rest):
                            self.assign(t.elts[i + 1 + j], idx(c, sub(mklen(c), const(rest - j))), st, out)
                        self.assign(x.value, slc(c, const(i), sub(mklen(c), const(rest))), st, out)
                        return
                    self.assign(x.value, slc(c, const(i), NONE), st, out)
                    return
                if c.op == 'phi' or c.op in ('tup', 'lst'):
                    self.assign(x, idx(c, const(i)), st, out)
                else:
                    self.assign(x, self.elem(c, const(i)), st, out)
        else:
            self.opaque('assign target', t)

    def st_Delete(self, n, st, out):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, out)
                k = self.eval(t.slice, st, out)
                c = self.content(st, b)
                self.implicit(st, out, 'KeyError', eq(dget(c, k), NONE))
                self.setcontent(st, b, dset(c, k, ABSENT))
            elif isinstance(t, ast.Name):
                self.setvar(st, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, out)
                self.setattr(st, b, t.attr, ABSENT, out)
        return st

    def st_Return(self, n, st, out):
        v = self.lazily(n.value, st, out) if n.value is not None else NONE
        out.append(('return', st, v))
        return None

    def st_Break(self, n, st, out):
        out.append(('break', st, None))
        return None

    def st_Continue(self, n, st, out):
        out.append(('continue', st, None))
        return None

    def st_Raise(self, n, st, out):
        if n.exc is None:
            cur = self.lookup_exc(st)
            if cur is None:
                out.append(('raise', st, mk('excval', 'RuntimeError', NONE)))
                return None
            for s, v in self.split_phi(st, cur):
                out.append(('raise', s, v))
            return None
        e = n.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func, st, out)
            if c.op == 'closure' or c.op == 'func' or c.op == 'bound':
                c = self.eval(e, st, out)
            elif self.opts.get('msgs'):
                for a in e.args:
                    self.eval(a, st, out)
        else:
            c = self.eval(e, st, out)
        for s, v in self.split_phi(st, c):
            out.append(('raise', s, self.excvalue(v)))
        return None

    def split_phi(self, st, t):
        if t.op == 'phi':
            c = st.decide(t.args[0])
            r = []
            if c is not FALSE:
                s1 = st.copy()
                s1.pc = band(st.pc, c)
                r += self.split_phi(s1, t.args[1])
            if c is not TRUE:
                s2 = st.copy()
                s2.pc = band(st.pc, neg_b(c))
                r += self.split_phi(s2, t.args[2])
            return r
        return [(st, t)]

    def excvalue(self, c):
        if c.op == 'excval':
            return c
        if c.op == 'class':
            return mk('excval', self.classes[c].name, NONE)
        if c.op in ('builtin', 'extname'):
            return mk('excval', self.exc_names(c)[0], NONE)
        if c.op == 'obj':
            return mk('excval', c.args[1], NONE)
        return mk('excval', 'Exception', NONE)

    def lookup_exc(self, st):
        f = self.stack[-1]
        while f is not None:
            v = st.store.get((f, '%exc'))
            if v is not None:
                return v
            f = self.frames[f][1]
        for f in reversed(self.stack):
            v = st.store.get((f, '%exc'))
            if v is not None and v is not UNDEF:
                return v
        return None

    def st_If(self, n, st, out):
        c = self.cond(n.test, st, out)
        c = st.decide(c)
        if c is TRUE:
            return self.exec_block(n.body, st, out)
        if c is FALSE:
            return self.exec_block(n.orelse, st, out)
        s1 = st.copy()
        s1.pc = band(st.pc, c)
        s2 = st
        s2.pc = band(st.pc, neg_b(c))
        r1 = self.exec_block(n.body, s1, out) if s1.pc is not FALSE else None
        r2 = self.exec_block(n.orelse, s2, out) if s2.pc is not FALSE else None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return self.merge(c, r1, r2)

    def st_Match(self, n, st, out):
        subj = self.eval(n.subject, st, out)
        ends = []
        cur = st
        for case in n.cases:
            if cur is None or cur.pc is FALSE:
                break
            c = self.pattern(case.pattern, subj, cur, out)
            if c is None:
                self.opaque('match pattern', n)
                return st
            if case.guard is not None:
                c = band(c, self.cond(case.guard, cur, out))
            c = cur.decide(c)
            s1 = cur.copy()
            s1.pc = band(cur.pc, c)
            if s1.pc is not FALSE:
                r = self.exec_block(case.body, s1, out)
                if r is not None:
                    ends.append((r, NONE))
            cur.pc = band(cur.pc, neg_b(c))
        if cur is not None and cur.pc is not FALSE:
            ends.append((cur, NONE))
        return self.merge_all(ends)[0]

    def pattern(self, p, subj, st, out):
        if isinstance(p, ast.MatchValue):
            return eq(subj, self.eval(p.value, st, out))
        if isinstance(p, ast.MatchSingleton):
            return eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, subj, st, out) for x in p.patterns]
            return None if any(c is None for c in cs) else bor(*cs)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.setvar(st, p.name, subj)
            return TRUE
        return None

    # ---------------------------------------------------------------- try
    def st_Try(self, n, st, out):
        handlers = []
        for h in n.handlers:
            names = self.exc_names(self.eval(h.type, st, out)) if h.type is not None else ['*']
            handlers.append((names, not self.always_raises(h.body)))
        fin_out = out if not n.finalbody else []
        body_out = []
        self.trystack.append(handlers)
        try:
            r = self.exec_block(n.body, st, body_out)
        finally:
            self.trystack.pop()
        if r is not None and n.orelse:
            r = self.exec_block(n.orelse, r, fin_out)
        ends = [(r, NONE)] if r is not None else []
        raised = [(s, p) for k, s, p in body_out if k == 'raise']
        for k, s, p in body_out:
            if k != 'raise':
                fin_out.append((k, s, p))
        groups = [[] for _ in n.handlers]
        for s, p in raised:
            name = p.args[0] if p.op == 'excval' else 'Exception'
            hit = None
            for i, (names, sw) in enumerate(handlers):
                if any(self.exc_isa(name, x) for x in names):
                    hit = i
                    break
            if hit is None:
                fin_out.append(('raise', s, p))
            else:
                groups[hit].append((s, p))
        for h, g in zip(n.handlers, groups):
            if not g:
                continue
            s, p = self.merge_all(g)
            if s is None:
                continue
            fid = self.stack[-1]
            saved = s.store.get((fid, '%exc'))
            s.store[(fid, '%exc')] = p
            if h.name:
                self.setvar(s, h.name, p)
            e = self.exec_block(h.body, s, fin_out)
            if e is not None:
                if saved is None:
                    e.store.pop((fid, '%exc'), None)
                else:
                    e.store[(fid, '%exc')] = saved
                if h.name:
                    e.store.pop((self.scope_owner(fid, h.name), h.name), None)
                ends.append((e, NONE))
        r, _ = self.merge_all(ends)
        if not n.finalbody:
            return r
        # finally: run on every kind of exit
        kinds = {}
        order = []
        for k, s, p in fin_out:
            key = (k, p if k == 'raise' else None)
            if key not in kinds:
                kinds[key] = []
                order.append(key)
            kinds[key].append((s, p if p is not None else NONE))
        for key in order:
            s, v = self.merge_all(kinds[key])
            if s is None:
                continue
            e = self.exec_block(n.finalbody, s, out)
            if e is not None:
                out.append((key[0], e, v if key[0] in ('return', 'raise') else None))
        if r is not None:
            r = self.exec_block(n.finalbody, r, out)
        return r

    st_TryStar = st_Try

    def always_raises(self, body):
        if not body:
            return False
        l = body[-1]
        if isinstance(l, ast.Raise):
            return True
        if isinstance(l, ast.If) and l.orelse:
            return self.always_raises(l.body) and self.always_raises(l.orelse)
        if isinstance(l, ast.Try):
            return self.always_raises(l.finalbody) or (self.always_raises(l.body) and not l.handlers)
        return False

    def st_With(self, n, st, out):
        return self.with_items(n, list(n.items), st, out)

    def with_items(self, n, items, st, out):
        if not items:
            return self.exec_block(n.body, st, out)
        it, rest = items[0], items[1:]

        def body(s, o):
            return self.with_items(n, rest, s, o)
        v = self.eval(it.context_expr, st, out)
        if v.op == 'ctxmgr':
            return self.with_generator(v.args[0].args[0], it, body, st, out, n)
        t = base_ty(v) or ''
        cls = CLASSES_BY_NAME.get(t[4:]) if t.startswith('obj:') else None
        if cls is not None and cls.find('__enter__') is not None and cls.find('__exit__') is not None:
            return self.with_object(v, it, body, st, out, n)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, out)
        inner = []
        r = body(st, inner)
        if t not in ('obj:file', 'obj:zipfile'):
            self.opaque('with statement', n)
        else:
            for s in [r] + [o[1] for o in inner]:
                if s is not None:
                    self.closed(s, v, n)
        out.extend(inner)
        return r

    def resumed(self, r, outs, slot):
        """the ends of a with body that are not exceptions, as one state that
        remembers which of them it was; -> (state, [(number, kind)])"""
        ends, kinds = [], []
        for k, s, p in ([(None, r, None)] if r is not None else []) + outs:
            if k not in kinds:
                kinds.append(k)
            s = s.copy()
            s.store[(slot, '%how')] = const(kinds.index(k))
            s.store[(slot, '%val')] = p if p is not None else NONE
            ends.append((s, NONE))
        return self.merge_all(ends)[0], kinds

    def left(self, st, kinds, slot, out):
        """leave a with statement the way its body was left"""
        how, val = st.store.pop((slot, '%how'), None), st.store.pop((slot, '%val'), NONE)
        if how is None:
            return st
        nxts = []
        for i, k in [(-1, None)] + list(enumerate(kinds)):
            c = st.decide(eq(how, const(i)))
            if c is FALSE:
                continue
            s = st.copy()
            s.pc = band(st.pc, c)
            if s.pc is FALSE:
                continue
            if k is None:
                nxts.append((s, NONE))
            else:
                out.append((k, s, val if k == 'return' else None))
        return self.merge_all(nxts)[0]

    def with_object(self, v, it, body, st, out, n):
        """a manager that is an object of the code: __enter__ and __exit__ run around the body"""
        fid = self.stack[-1]
        slot = self.newframe(None, None, self.frames[fid][2])
        x = self.call(st, self.getattr(st, v, '__enter__', out, n), [], {}, out, n)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, x, st, out)
        inner, ends = [], []
        self.trystack.append([(['*'], True)])
        try:
            r = body(st, inner)
        finally:
            self.trystack.pop()
        others = [o for o in inner if o[0] != 'raise']
        cur, kinds = self.resumed(r, others, slot)
        if cur is not None:
            try:
                self.call(cur, self.getattr(cur, v, '__exit__', out, n), [NONE, NONE, NONE], {}, out, n)
                cur = self.left(cur, kinds, slot, out)
                if cur is not None:
                    ends.append((cur, NONE))
            except Dead:
                pass
        raised = {}
        for k, s, p in inner:
            if k == 'raise':
                raised.setdefault(p, []).append((s, NONE))
        for p, g in raised.items():
            s = self.merge_all(g)[0]
            if s is None:
                continue
            saved = s.store.get((fid, '%exc'))
            s.store[(fid, '%exc')] = p
            try:
                res = self.call(s, self.getattr(s, v, '__exit__', out, n),
                                [mk('call', 'type', p), p, mk('fld', p, '__traceback__')], {}, out, n)
            except Dead:
                continue
            if saved is None:
                s.store.pop((fid, '%exc'), None)
            else:
                s.store[(fid, '%exc')] = saved
            c = s.decide(self.truthof(s, res))
            a, b = s.copy(), s
            a.pc, b.pc = band(s.pc, c), band(s.pc, neg_b(c))
            if a.pc is not FALSE:
                ends.append((a, NONE))
            if b.pc is not FALSE:
                out.append(('raise', b, p))
        return self.merge_all(ends)[0]

    def with_generator(self, g, it, body, st, out, n):
        """a manager written as a generator: the body runs at its yield"""
        if self.gens[g] is None:
            self.opaque('generator consumed twice', n)
            return st
        fn, closure_fid, vals = self.gens[g]
        self.gens[g] = None
        top = self.stack[-1]
        if any(self.frames[f][0] is fn for f in self.stack):
            self.opaque('recursive generator', n)
            return st
        fid = self.newframe(fn, closure_fid, fn.mod.name)
        st = st.copy()
        for p, v in vals.items():
            st.store[(fid, p)] = v
        slot = self.newframe(None, None, fn.mod.name)
        st.store[(slot, '%how')] = const(-1)       # the body was left by an exception the manager swallowed
        st.store[(slot, '%val')] = NONE
        seen = []

        def consume(s, o, v):
            o2 = []
            self.stack.append(top)
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, s, o2)
                r = body(s, o2)
            except Dead:
                r = None
            finally:
                self.stack.pop()
            o.extend(x for x in o2 if x[0] == 'raise')
            if seen:
                self.opaque('context manager with several yields', n)
            cur, kinds = self.resumed(r, [x for x in o2 if x[0] != 'raise'], slot)
            seen.append(kinds)
            return cur
        self.consumers[fid] = consume
        self.stack.append(fid)
        self.depth += 1
        sub_out = []
        try:
            r = self.exec_block(fn.node.body, st, sub_out)
        except Dead:
            r = None
        finally:
            self.stack.pop()
            self.depth -= 1
            del self.consumers[fid]
        done = [(r, NONE)] if r is not None else []
        for k, s, p in sub_out:
            self.drop_frame(s, fid)
            if k == 'return':
                done.append((s, NONE))
            else:
                s.store.pop((slot, '%how'), None)
                s.store.pop((slot, '%val'), None)
                out.append((k, s, p))
        cur = self.merge_all(done)[0]
        if not seen:
            self.opaque('context manager without a yield', n)
            return cur
        if cur is not None:
            self.drop_frame(cur, fid)
            cur = self.left(cur, seen[0], slot, out)
        return cur

    def closed(self, st, v, node):
        """the file v is closed; closing it again does nothing"""
        if st.store.get((v, '@closed')) is not TRUE:
            st.store[(v, '@closed')] = TRUE
            self.ev(st, (base_ty(v) or '')[4:] + '.close', [v], node)

    # -------------------------------------------------------------- loops
    def st_For(self, n, st, out):
        itv = self.lazily(n.iter, st, out)
        return self.for_loop(itv, lambda s, o, v: self.assign(n.target, v, s, o), n.body, n.orelse, st, out, n)

    def iter_value(self, st, itv):
        """(length term, element fn) or ('unroll', [items])"""
        if itv.op == 'iter':
            k = itv.args[0]
            if k == 'gen':
                return self.iter_value(st, self.as_seq(st, itv))
            if k == 'range':
                a, b, step = itv.args[1:]
                if all(is_num_const(x) for x in (a, b, step)):
                    r = list(range(a.args[0], b.args[0], step.args[0]))
                    if len(r) <= (3000 if self.opts.get('module') else 24):
                        return 'unroll', [const(i) for i in r]
                if is_num_const(step) and step.args[0] != 0:
                    kk = step.args[0]
                    if kk == 1:
                        return sub(b, a), (lambda i: add(a, i)), None
                    return None, (lambda i: add(a, scale(i, kk))), (lambda i: lt(add(a, scale(i, kk)), b) if kk > 0
                                                                  else lt(b, add(a, scale(i, kk))))
                return None, (lambda i: add(a, mul(i, step))), (lambda i: lt(add(a, mul(i, step)), b))
            if k == 'enumerate':
                inner = self.iter_value(st, itv.args[1])
                start = itv.args[2]
                if inner[0] == 'unroll':
                    return 'unroll', [tup([add(const(i), start), v]) for i, v in enumerate(inner[1])]
                N, fn, cf = inner
                return N, (lambda i: tup([add(i, start), fn(i)])), cf
            if k == 'zip':
                inners = [self.iter_value(st, x) for x in itv.args[1:]]
                if any(x[0] == 'unroll' for x in inners):
                    m = min(len(x[1]) for x in inners if x[0] == 'unroll')
                    return 'unroll', [tup([x[1][j] if x[0] == 'unroll' else x[1](const(j)) for x in inners])
                                      for j in range(m)]
                N = inners[0][0]
                conds = [(lambda i, x=x: lt(i, x[0]) if x[0] is not None else x[2](i)) for x in inners]
                return None, (lambda i: tup([x[1](i) for x in inners])), (lambda i: band(*[c(i) for c in conds]))
            if k in ('items', 'keys', 'values'):
                d = itv.args[1]
                d = self.content(st, d)
                if d.op == 'dict' and d.args[0] is EMPTYSEQ and not any(TM._may_absent(v) for _, v in d.args[1]):
                    kv = list(d.args[1])
                    if k == 'items':
                        return 'unroll', [tup([a, b]) for a, b in kv]
                    return 'unroll', [a if k == 'keys' else b for a, b in kv]
                keys = mk('keys', d)
                N = mklen(d)

                def key(i):
                    t = mk('idx', keys, i)
                    EXT_TYPES[t] = None
                    return t
                if k == 'keys':
                    return N, key, None
                vals = d
                if d.op == 'fld' and d.args[1] == '__dict__':
                    vals = st.store.get((d.args[0], '@'))
                    if vals is None:
                        vals = self.initial(st, (d.args[0], '@'))
                if k == 'values':
                    return N, (lambda i: dget_nn(vals, key(i))), None
                return N, (lambda i: tup([key(i), dget_nn(vals, key(i))])), None
            if k == 'rev':
                inner = self.iter_value(st, itv.args[1])
                if inner[0] == 'unroll':
                    return 'unroll', inner[1][::-1]
                N, fn, cf = inner
                if N is None:
                    return None, None, None
                return N, (lambda i: fn(sub(sub(N, const(1)), i))), None
        if itv.op == 'phi':
            pass
        seq = self.content(st, itv)
        b = base_ty(itv)
        if (b and b.startswith('dict')) or seq.op == 'dict':
            return self.iter_value(st, mk('iter', 'keys', itv))
        if seq.op in ('lst', 'tup') and len(seq.args) <= 64:
            return 'unroll', list(seq.args)
        m = self.as_map(seq)
        if m is not None:
            return m[0], m[1], None
        if is_const(seq) and isinstance(seq.args[0], (str, bytes)) and len(seq.args[0]) <= 64:
            return 'unroll', [const(x) for x in seq.args[0]]
        if seq.op == 'const':
            return None, None, None
        if base_ty(seq) == 'obj:Element':
            seq = builtin_model().elem_children(self, st, seq)
        if seq.op == 'slice' and seq.args[2] is not NONE and base_ty(seq) in ('bytes', 'str'):
            items = self.known_items(st, seq, 8)
            if items is not None:
                return 'unroll', items
        if seq.op == 'slice' and seq.args[2] is NONE and is_num_const(seq.args[1]) and seq.args[1].args[0] >= 0:
            N = sub(mklen(seq.args[0]), seq.args[1])
        else:
            N = mklen(seq)
        return N, (lambda i: self.elem(seq, i)), None

    def as_map(self, seq):
        """a list built by one unconditional append per iteration of a
        counted loop: (length, element function)"""
        if seq.op != 'eta' or seq.args[1].op != 'acc' or seq.args[1].args[0] != seq.args[0]:
            return None
        lu = seq.args[0]
        info = self.loops.get(lu)
        if info is None or info.trips is None:
            return None
        d = info.accs.get(seq.args[1].args[1])
        if d is None or d.op != 'lst' or len(d.args) != 1:
            return None
        e = d.args[0]
        for x in walk(e):
            if x.op in ('mu', 'acc') and x.args[0] == lu or x.op in ('obj', 'ext'):
                return None
        it = mk('it', lu)
        return info.trips, (lambda i: subst(e, lambda x: i if x is it else None))

    def const_under(self, st, t):
        """the integer t is known to be on this path, or None"""
        known = {}
        for l in lits_of_pc(st.pc):
            if l.op == 'eq' and is_num_const(l.args[1]):
                known[l.args[0]] = l.args[1]

        def f(x):
            if x in known:
                return known[x]
            if x.op == 'len' and x.args[0].op == 'slice':
                b, lo, hi = x.args[0].args
                n = subst(TM.mklen(b), f, {})
                lo, hi = subst(lo, f, {}), subst(hi, f, {})
                if is_num_const(n) and is_num_const(lo) and (hi is NONE or is_num_const(hi)):
                    return const(len(range(int(n.args[0]))[lo.args[0]:None if hi is NONE else hi.args[0]]))
            return None
        r = subst(t, f, {})
        return r.args[0] if is_num_const(r) and isinstance(r.args[0], int) else None

    def known_items(self, st, s, limit=40):
        """the elements of a sequence whose length is known, or None"""
        if s.op in ('lst', 'tup'):
            return list(s.args)
        m = self.as_map(s)
        if m is not None:
            n = self.const_under(st, m[0])
            if n is not None and n <= limit:
                return [m[1](const(i)) for i in range(n)]
            return None
        if base_ty(s) not in ('bytes', 'str'):
            return None
        n = self.const_under(st, TM.mklen(s))
        if n is not None and n <= limit:
            return [idx(s, const(i)) for i in range(n)]
        return None

    def elem(self, seq, i):
        t = idx(seq, i)
        return t

    def for_loop(self, itv, bind, body, orelse, st, out, node):
        f = self.own(itv, '__iter__')
        if f is not None:
            itv = self.call(st, f, [], {}, out, node)
        if itv.op == 'iter' and itv.args[0] == 'gen':
            return self.gen_loop(itv.args[1].args[0], bind, body, orelse, st, out, node)
        if itv.op != 'iter':
            seq = st.choose(self.content(st, itv))
            if seq.op == 'phi' and any(x.op in ('lst', 'tup') or x.op == 'slice' and x.args[1] is const(0) and x.args[2] is const(1) or
                                       x.op == 'eta' and self.built(x) for x in alts(seq)):
                s2 = st.copy()
                s2.pc = band(st.pc, neg_b(seq.args[0]))
                s1 = st.copy()
                s1.pc = band(st.pc, seq.args[0])
                r = [self.for_loop(x, bind, body, orelse, s, out, node) for s, x in ((s1, seq.args[1]), (s2, seq.args[2]))
                     if s.pc is not FALSE]
                return self.merge_all([(x, NONE) for x in r if x is not None])[0]
            if seq.op == 'cat' and 1 <= sum(x.op == 'phi' for x in seq.args) <= 4 and \
                    all(y.op in ('lst', 'tup') or y is EMPTYSEQ for x in seq.args for y in alts(x)):
                # a list some of whose entries are there on a condition
                i = [x.op == 'phi' for x in seq.args].index(True)
                ph = seq.args[i]
                r = []
                for c, x in ((ph.args[0], ph.args[1]), (neg_b(ph.args[0]), ph.args[2])):
                    s = st.copy()
                    s.pc = band(st.pc, c)
                    if s.pc is not FALSE:
                        r.append(self.for_loop(TM.cat(*(seq.args[:i] + (x,) + seq.args[i + 1:])), bind, body, orelse, s, out, node))
                return self.merge_all([(x, NONE) for x in r if x is not None])[0]
            b = self.built(seq)
            if b is not None:
                return self.fused(b[0], b[1], b[2], bind, body, orelse, st, out, node)
            b = self.rebuilt(seq)
            if b is not None:
                return self.fused(b[0], None, b[1], bind, body, orelse, st, out, node, b[2])
        once = False
        if itv.op != 'iter' and not orelse:
            seq = self.content(st, itv)
            if seq.op == 'slice' and seq.args[1] is const(0) and seq.args[2] is const(1):
                # no more than the first one
                itv, once = seq.args[0], True
        r = self.iter_value(st, itv)
        if r[0] == 'unroll':
            return self.unroll(r[1][:1] if once else r[1], bind, body, orelse, st, out)
        N, fn, cf = r
        if fn is None:
            self.opaque('iteration over %s' % show(itv), node)
            return st

        def header(s, luid, o):
            i = self.itof(luid)
            return cf(i) if cf is not None else lt(i, N)

        def doBody(s, luid, o):
            try:
                bind(s, o, fn(self.itof(luid)))
            except Dead:
                return None
            r = self.exec_block(body, s, o) if isinstance(body, list) else body(s, o)
            if once and r is not None:
                o.append(('break', r, NONE))
            if once:
                o[:] = [('break' if k == 'continue' else k, s2, p) for k, s2, p in o]
                return None
            return r
        return self.run_loop(header, doBody, orelse, st, out, node)

    def itof(self, luid):
        return const(0) if luid in self.single else mk('it', luid)

    def built(self, seq):
        """a list built by a counted loop without other effect on it:
        (loop, trips, what an iteration appends)"""
        if seq.op != 'eta' or seq.args[1].op != 'acc' or seq.args[1].args[0] != seq.args[0]:
            return None
        lu = seq.args[0]
        info = self.loops.get(lu)
        if info is None or info.trips is None:
            return None
        d = info.accs.get(seq.args[1].args[1])
        if d is None or not self.plain_delta(d, {lu}):
            return None
        return lu, info.trips, d

    def rebuilt(self, seq):
        """a list built by a loop that does nothing else, whose entries come
        from what it carries from one iteration to the next"""
        if seq.op != 'eta' or seq.args[1].op != 'acc' or seq.args[1].args[0] != seq.args[0]:
            return None
        lu = seq.args[0]
        info = self.loops.get(lu)
        if info is None or not info.quiet or info.X is None:
            return None
        d = info.accs.get(seq.args[1].args[1])
        todo = [d, info.X]
        seen = {}
        while todo:
            t = todo.pop()
            if t is None:
                return None
            for x in walk(t):
                if x.op == 'obj' or x.op == 'eta' and x.args[0] == lu or x.op == 'ext' and self.made_in(x, {lu}) or \
                        x.op in ('mu', 'acc') and x.args[0] != lu and any(y.op == 'it' and y.args[0] == x.args[0] for y in walk(t)):
                    return None
                if x.op in ('mu', 'acc') and x.args[0] == lu and x not in seen:
                    if x.op == 'acc':
                        u = info.accs.get(x.args[1])
                        seen[x] = (info.acckind.get(x.args[1]), u)
                        if seen[x][0] not in ('num', 'seq'):
                            return None
                    else:
                        i, u = info.mus.get(x.args[1], (None, None))
                        if i is None or i is UNDEF or i.op == 'obj':
                            return None
                        seen[x] = (i, u)
                    todo.append(u)
        shape = lambda d: d.op == 'lst' or d is EMPTYSEQ or d.op == 'cat' and all(map(shape, d.args)) or d.op == 'phi' and all(map(shape, d.args[1:]))
        return (lu, d, seen) if shape(d) and seq.args[1] not in seen else None

    def made_in(self, x, lus):
        """a call made by an iteration of these loops"""
        return x.args[2] is not NONE and (not isinstance(x.args[2], T) or any(y.op == 'it' and y.args[0] in lus for y in walk(x.args[2])))

    def plain_delta(self, d, lus, top=True):
        if d.op == 'lst':
            return not any(x.op in ('mu', 'acc') and x.args[0] in lus or x.op in ('obj', 'mu') or x.op == 'ext' and self.made_in(x, lus)
                           for y in d.args for x in walk(y))
        if d.op == 'phi':
            return not any(x.op in ('mu', 'acc') and x.args[0] in lus or x.op in ('obj', 'mu') for x in walk(d.args[0])) and \
                all(self.plain_delta(x, lus) for x in d.args[1:])
        if d.op == 'cat':
            return all(self.plain_delta(x, lus) for x in d.args)
        if d.op == 'eta' and d.args[1].op == 'acc' and d.args[1].args[0] == d.args[0]:
            lu = d.args[0]
            info = self.loops.get(lu)
            if info is None or info.trips is None:
                return False
            dd = info.accs.get(d.args[1].args[1])
            return dd is not None and not any(x.op in ('mu', 'acc') and x.args[0] in lus for x in walk(info.trips)) and \
                self.plain_delta(dd, lus | {lu})
        return d is EMPTYSEQ

    def fused(self, lu, N, d, bind, body, orelse, st, out, node, nodes=None):
        """a loop over a list that a loop has built: the body runs where the
        element was appended"""
        self.nfused += 1
        tag = '@f%d' % self.nfused

        def consume(s, o, v):
            o2 = []
            try:
                bind(s, o2, v)
                r = self.exec_block(body, s, o2) if isinstance(body, list) else body(s, o2)
            except Dead:
                r = None
            nxt = [(r, NONE)] if r is not None else []
            for k, s2, p in o2:
                if k == 'continue':
                    nxt.append((s2, NONE))
                else:
                    o.append((k + tag, s2, p))
            return self.merge_all(nxt)[0]

        def level(lu, N, d, s, o, env):
            N = subst(N, lambda x: env.get(x), {})

            def hd(s2, luid, o2):
                return lt(self.itof(luid), N)

            def bd(s2, luid, o2):
                e2 = dict(env)
                e2[mk('it', lu)] = self.itof(luid)
                return piece(d, s2, o2, e2)
            return self.run_loop(hd, bd, [], s, o, node)

        def again(lu, d, s, o, nodes):
            # the loop that built the list, run a second time
            X = self.loops[lu].X
            loc = {x: (self.stack[-1], '%s.%s%d' % (tag, x.op, x.args[1])) for x in nodes}
            for x, (i, u) in nodes.items():
                s.store[loc[x]] = i if x.op == 'mu' else const(0) if i == 'num' else EMPTYSEQ

            def carried(s2, luid):
                e2 = {x: s2.store[loc[x]] for x in nodes}
                e2[mk('it', lu)] = self.itof(luid)
                return e2

            def hd(s2, luid, o2):
                e2 = carried(s2, luid)
                return neg_b(subst(X, lambda y: e2.get(y), {}))

            def bd(s2, luid, o2):
                e2 = carried(s2, luid)
                s2 = piece(d, s2, o2, e2)
                if s2 is not None:
                    for x, (i, u) in nodes.items():
                        v = subst(u, lambda y: e2.get(y), {})
                        s2.store[loc[x]] = v if x.op == 'mu' else add(e2[x], v) if i == 'num' else cat(e2[x], v)
                return s2
            r = self.run_loop(hd, bd, [], s, o, node)
            for q in ([r] if r is not None else []) + [y[1] for y in o]:
                for k in loc.values():
                    q.store.pop(k, None)
            return r

        def piece(d, s, o, env):
            if s is None or s.pc is FALSE:
                return None
            if d.op == 'lst':
                for x in d.args:
                    if s is None:
                        return None
                    s = consume(s, o, subst(x, lambda y: env.get(y), {}))
                return s
            if d.op == 'cat':
                for x in d.args:
                    s = piece(x, s, o, env)
                return s
            if d.op == 'phi':
                c = s.decide(subst(d.args[0], lambda y: env.get(y), {}))
                if c is TRUE:
                    return piece(d.args[1], s, o, env)
                if c is FALSE:
                    return piece(d.args[2], s, o, env)
                s2 = s.copy()
                s2.pc = band(s.pc, neg_b(c))
                s.pc = band(s.pc, c)
                r = [piece(d.args[1], s, o, env), piece(d.args[2], s2, o, env)]
                return self.merge_all([(x, NONE) for x in r if x is not None])[0]
            if d.op == 'eta':
                info = self.loops[d.args[0]]
                return level(d.args[0], info.trips, info.accs[d.args[1].args[1]], s, o, env)
            return s
        sub_out = []
        cur = level(lu, N, d, st, sub_out, {}) if N is not None else again(lu, d, st, sub_out, nodes)
        ends = []
        for k, s, p in sub_out:
            if k == 'break' + tag:
                ends.append((s, NONE))
            elif k.endswith(tag):
                out.append((k[:-len(tag)], s, p))
            else:
                out.append((k, s, p))
        if cur is not None and orelse:
            cur = self.exec_block(orelse, cur, out)
        if cur is not None:
            ends.append((cur, NONE))
        return self.merge_all(ends)[0]

    def unroll(self, items, bind, body, orelse, st, out):
        breaks = []
        cur = st
        for it in items:
            if cur is None or cur.pc is FALSE:
                break
            o = []
            try:
                bind(cur, o, it)
                r = self.exec_block(body, cur, o) if isinstance(body, list) else body(cur, o)
            except Dead:
                r = None
            nxt = [(r, NONE)] if r is not None else []
            for k, s, p in o:
                if k == 'break':
                    breaks.append((s, NONE))
                elif k == 'continue':
                    nxt.append((s, NONE))
                else:
                    out.append((k, s, p))
            cur, _ = self.merge_all(nxt)
        if cur is not None and orelse:
            cur = self.exec_block(orelse, cur, out)
        ends = breaks + ([(cur, NONE)] if cur is not None else [])
        return self.merge_all(ends)[0]

    def st_While(self, n, st, out):
        def header(s, luid, o):
            return self.cond(n.test, s, o)

        def body(s, luid, o):
            return self.exec_block(n.body, s, o)
        k = self.trips(n, st, out)
        if k is not None:
            return self.unroll([NONE] * k, lambda s, o, v: None, n.body, n.orelse, st, out)
        flags, test = self.flag_test(n, st)
        if flags:
            # a flag that lets the first iteration run is looked at where an
            # iteration ends
            stop = ast.copy_location(ast.If(test=ast.UnaryOp(ast.Not(), flags[0] if len(flags) == 1 else ast.BoolOp(ast.And(), flags)),
                                            body=[ast.Break()], orelse=[]), n)
            ast.fix_missing_locations(stop)

            def header(s, luid, o):
                return self.cond(test, s, o) if test is not None else TRUE

            def body(s, luid, o):
                o2 = []
                r = self.exec_block(n.body, s, o2)
                ends = [(r, NONE)] if r is not None else []
                for k, s2, p in o2:
                    if k == 'continue':
                        ends.append((s2, NONE))
                    else:
                        o.append((k, s2, p))
                r = self.merge_all(ends)[0]
                r = self.exec_stmt(stop, r, o) if r is not None else None
                if r is not None:
                    # what the flag decided about the other variables
                    for key, v in list(r.store.items()):
                        while isinstance(v, T) and v.op == 'phi':
                            c = r.decide(v.args[0])
                            if c is not TRUE and c is not FALSE:
                                break
                            v = r.store[key] = v.args[1 if c is TRUE else 2]
                return r
        return self.run_loop(header, body, n.orelse, st, out, n)

    def flag_test(self, n, st):
        """(tests of flags set in the loop that hold on entry, the rest of the test)"""
        if n.orelse:
            return [], None
        parts = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
        flags, rest = [], []
        for x in parts:
            v = x.operand if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) else x
            on = False
            if isinstance(v, ast.Name) and any(isinstance(y, ast.Assign) and any(isinstance(z, ast.Name) and z.id == v.id for z in y.targets) and
                                               isinstance(y.value, ast.Constant) and isinstance(y.value.value, bool)
                                               for b in n.body for y in ast.walk(b)):
                try:
                    on = st.decide(self.cond(x, st.copy(), [])) is TRUE
                except Dead:
                    on = False
            (flags if on else rest).append(x)
        if not flags or any(isinstance(y, (ast.Call, ast.NamedExpr, ast.Subscript, ast.Attribute)) for x in rest for y in ast.walk(x)):
            return [], None
        return flags, (None if not rest else rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest))

    def trips(self, n, st, out):
        """iterations of a counting loop with constant bounds"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq))):
            return None
        stores = {}
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    stores[x.id] = stores.get(x.id, 0) + 1
                elif isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda)):
                    return None
        step = None
        for x in n.body:
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub)) and \
                    isinstance(x.value, ast.Constant) and type(x.value.value) is int:
                v, d = x.target.id, x.value.value if isinstance(x.op, ast.Add) else -x.value.value
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) and \
                    isinstance(x.value.op, (ast.Add, ast.Sub)) and isinstance(x.value.left, ast.Name) and x.value.left.id == x.targets[0].id and \
                    isinstance(x.value.right, ast.Constant) and type(x.value.right.value) is int:
                v, d = x.targets[0].id, x.value.right.value if isinstance(x.value.op, ast.Add) else -x.value.right.value
            else:
                continue
            if stores.get(v) == 1 and any(isinstance(y, ast.Name) and y.id == v for y in (t.left, t.comparators[0])):
                step = (v, d)
                break
        if step is None:
            return None
        sides = []
        for y in (t.left, t.comparators[0]):
            if not isinstance(y, (ast.Name, ast.Constant)) or (isinstance(y, ast.Name) and y.id != step[0] and y.id in stores):
                return None
            x = self.eval(y, st.copy(), [])
            if not (x.op == 'const' and type(x.args[0]) is int):
                return None
            sides.append((x.args[0], isinstance(y, ast.Name) and y.id == step[0]))
        a, b = sides[0][0], sides[1][0]
        test = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                ast.NotEq: lambda: a != b}[type(t.ops[0])]
        k = 0
        while test():
            k += 1
            if k > 600:
                return None
            if sides[0][1]:
                a += step[1]
            else:
                b += step[1]
        return k

    def one_iter(self, seed, header, body, luid):
        st = seed
        exits = []
        try:
            c = header(st, luid, exits)
            c = st.decide(c)
        except Dead:
            return None, None, exits, [], FALSE
        hexit = st.copy()
        hexit.pc = band(st.pc, neg_b(c))
        if hexit.pc is FALSE:
            hexit = None
        st.pc = band(st.pc, c)
        back = None
        if st.pc is not FALSE:
            try:
                back = body(st, luid, exits)
            except Dead:
                back = None
        items = [(back, NONE)] if back is not None else []
        breaks = []
        others = []
        for k, s, p in exits:
            if k == 'continue':
                items.append((s, NONE))
            elif k == 'break':
                breaks.append(s)
            else:
                others.append((k, s, p))
        back, _ = self.merge_all(items)
        return hexit, back, others, breaks, c

    def run_loop(self, header, body, orelse, st, out, node):
        self.tick()
        if len(self.lstack) > 6:
            self.opaque('loop nest too deep', node)
            return st
        LUID[0] += 1
        luid = LUID[0]
        depth = len(self.lstack) + 1
        info = LoopInfo(luid, depth)
        P = st.pc
        facts = tuple(st.facts) + tuple(x for x in ((P.args if P.op == 'and' else (P,)) if P is not TRUE else ()))
        self.lstack.append(luid)
        saved_trace = self.trace
        nop = len(self.opaques)
        mods = {}
        byval = {}      # local names of lists rebound by the body: carried as the value of the list

        def initv(loc):
            v = st.store.get(loc)
            if v is None:
                v = self.initial(st, loc)
            return self.content(st, v) if loc in byval else v

        def backv(s, loc):
            v = s.store.get(loc)
            if v is None:
                v = self.initial(s, loc)
            if loc not in byval and isinstance(loc[0], int) and v.op not in ('const', 'mu'):
                # the iteration goes on only with what there was before
                i = st.store.get(loc)
                if i is not None and i.op == 'const' and (i is NONE or isinstance(i.args[0], (bool, int, str))) and \
                        s.decide(eq(v, i)) is TRUE and (i is NONE or base_ty(v) == ty(i) and not (ty(v) or '?').endswith('?')):
                    return i
            return self.content(s, v) if loc in byval else v

        def leaves(v):
            return leaves(v.args[1]) | leaves(v.args[2]) if v.op == 'phi' else {v}

        def rebound_list(loc, v, s, n0):
            i = st.store.get(loc)
            if not isinstance(loc[0], int) or i is None or i.op != 'obj' or i.args[1] != 'list' or loc in byval:
                return False
            ls = leaves(v)
            if not all(x.op == 'obj' and x.args[1] == 'list' for x in ls) or not any(x.args[0] > n0 for x in ls):
                return False
            mine = ls | {i}
            for s2 in (st, s):
                for l2, v2 in s2.store.items():
                    if l2 == loc or isinstance(l2[0], int) and l2[0] not in self.live_frames():
                        continue
                    if v2.op in ('obj', 'phi', 'lst', 'cat', 'dict', 'tup') and any(x in mine for x in walk(v2)):
                        return False
            return True
        try:
            # pass A: find the loop-carried locations
            def seed(values, bump=()):
                s = st.copy()
                s.pc = TRUE
                s.facts = facts
                for loc, v in values.items():
                    if loc in byval:
                        s.store[loc] = byval[loc]
                        s.store[(byval[loc], '$')] = v
                    else:
                        s.store[loc] = v
                for f in bump:
                    s.ver[f] = s.ver.get(f, 0) + 1
                return s

            def locname(loc):
                lid = self.locids.get((luid, loc))
                if lid is None:
                    self.nloc += 1
                    lid = self.locids[(luid, loc)] = self.nloc
                return lid

            def retype(loc, t):
                # terms remember the type of what they contain: a carried
                # value whose type turns out different gets a new name
                m = mu(loc)
                if MU_TYPES.get(m) == t:
                    return False
                self.nloc += 1
                self.locids[(luid, loc)] = self.nloc
                m = mk('mu', luid, self.nloc)
                MU_TYPES[m] = t
                m._ty = None
                return True

            def mu(loc):
                t = mk('mu', luid, locname(loc))
                if t not in MU_TYPES:
                    init = initv(loc)
                    MU_TYPES[t] = ty(init) if init is not UNDEF and ty(init) != 'none' else None
                    t._ty = None
                return t
            bump = set()
            for _ in range(8):
                self.trace = []
                n0 = self.nobj
                del self.opaques[nop:]
                s0 = seed({loc: mu(loc) for loc in mods}, bump)
                base = dict(s0.store)
                hexit, back, others, breaks, c = self.one_iter(s0, header, body, luid)
                if back is None and not mods and not bump:
                    self.single.add(luid)
                    break
                new = {}
                newbump = set()
                turned = []
                if back is not None:
                    for loc, v in back.store.items():
                        b0 = base.get(loc)
                        if v is b0:
                            continue
                        bs = loc[0]
                        if isinstance(bs, T):
                            if bs.op == 'obj' and (bs.args[0] > n0 or any(bs is x for x in byval.values())):
                                continue
                            if self.lvariant(bs, luid) or self.freshext(bs):
                                if loc[1] != '$' and bs.op != 'obj':
                                    newbump.add(loc[1])
                                continue
                            if b0 is None and v is self.initial(st, loc):
                                continue
                        elif isinstance(bs, int) and bs not in self.live_frames():
                            continue
                        if rebound_list(loc, v, back, n0):
                            turned.append(loc)
                            continue
                        if loc in byval:
                            v = backv(back, loc)
                            if v is base[(byval[loc], '$')]:
                                continue
                        new[loc] = v
                if turned:
                    for loc in turned:
                        old = st.store[loc]
                        byval[loc] = self.alloc(st, 'list')
                        mods.pop((old, '$'), None)
                        mods.pop(loc, None)
                        mods[loc] = None
                        self.nloc += 1
                        self.locids[(luid, loc)] = self.nloc
                    continue
                for s in [x for x in breaks] + [x[1] for x in others]:
                    for loc, v in s.store.items():
                        bs = loc[0]
                        if isinstance(bs, T) and loc not in base and bs.op != 'obj' and loc[1] != '$' and \
                                (self.lvariant(bs, luid)):
                            newbump.add(loc[1])
                grew = [l for l in new if l not in mods]
                if not grew and newbump <= bump:
                    break
                for l in grew:
                    mods[l] = None
                    m = mu(l)
                    # type refinement
                    v = new[l]
                    if MU_TYPES.get(m) is None and ty(v) and ty(v) != 'none':
                        retype(l, ty(v))
                bump |= newbump
            if luid in self.single:
                # no iteration follows the first
                del self.opaques[nop:]
                self.trace = saved_trace
                self.lstack.pop()
                try:
                    hexit, back, others, breaks, c = self.one_iter(st.copy(), header, body, luid)
                finally:
                    self.lstack.append(luid)
                out.extend(others)
                ends = [(s, NONE) for s in breaks]
                if hexit is not None:
                    if orelse:
                        hexit = self.exec_block(orelse, hexit, out)
                    if hexit is not None:
                        ends.append((hexit, NONE))
                return self.merge_all(ends)[0]
            # type repair for mus whose init and update disagree (None then int, int then num)
            if back is not None:
                for l in mods:
                    m = mu(l)
                    if back.store.get(l) is None:
                        continue
                    v = backv(back, l)
                    init = initv(l)
                    t = phi(mk('truth', mk('sym', '%tychoice', None)), init, v)
                    a, b = ty(init), ty(v)
                    if a == 'none' and b and b != 'none':
                        retype(l, b.rstrip('?') + '?')
                    elif a == 'int' and b == 'num':
                        retype(l, 'num')
                    elif a in ('list:',) and b and b.startswith('list'):
                        retype(l, b)
                    elif a is None and init is not UNDEF:
                        retype(l, None)
            # pass B: derive induction variables and accumulators
            self.trace = []
            del self.opaques[nop:]
            s0 = seed({loc: mu(loc) for loc in mods}, bump)
            hexit, back, others, breaks, c = self.one_iter(s0, header, body, luid)
            final = {}
            it = mk('it', luid)
            groups = {}
            if back is not None:
                for loc in mods:
                    m = mu(loc)
                    u = backv(back, loc)
                    init = initv(loc)
                    if u is m or u is init and is_const(u):
                        final[loc] = init
                        continue
                    v = self.derive(luid, loc, m, u, init, it, groups)
                    final[loc] = v if v is not None else m
                    if v is None and is_num_const(init) and isinstance(init.args[0], int) and init.args[0] >= 0:
                        for k in (8, 16, 32, 64):
                            if k >= init.args[0].bit_length():
                                TM.BITS[m] = k
                                n = TM.bits(u)
                                if n is not None and n <= k:
                                    break
                                del TM.BITS[m]
            # pass C: final run
            rounds = nmerge = 0
            inv = {}
            while rounds < 3:
                self.trace = []
                del self.opaques[nop:]
                ninv = len(inv)
                s0 = seed(final, bump)
                if inv:
                    s0.facts = s0.facts + tuple(inv.values())
                hexit, back, others, breaks, c = self.one_iter(s0, header, body, luid)
                bad = []
                newdeltas = {}
                if back is not None:
                    for loc in mods:
                        u = backv(back, loc)
                        v = final[loc]
                        init = initv(loc)
                        if v.op == 'mu' and v.args[0] == luid:
                            info.mus[v.args[1]] = (init, u)
                            if v not in inv:
                                # always false, or always true, when an iteration starts
                                t0 = st.decide(truth(init))
                                if t0 in (TRUE, FALSE) and back.decide(truth(u)) is t0 and not is_const(truth(v)):
                                    inv[v] = neg_b(truth(v)) if t0 is FALSE else truth(v)
                            continue
                        if v is init and u is init:
                            continue
                        if not self.consistent(luid, v, u, it, groups, newdeltas):
                            bad.append(loc)
                if not bad and len(inv) > ninv:
                    continue
                if not bad:
                    dep = self.dependent(luid, newdeltas, groups, it)
                    if not dep or nmerge > 4:
                        break
                    # sums that are combinations of other sums of the loop
                    nmerge += 1
                    for loc in list(final):
                        final[loc] = subst(final[loc], lambda x: dep.get(x), {})
                    for a in dep:
                        groups.pop(a.args[1], None)
                    continue
                rounds += 1
                for loc in bad:
                    final[loc] = mu(loc)
            # objects made in the loop body: what they hold at the end of the
            # iteration
            from .builtin_model import reify
            here = lambda o: luid in self.objloop.get(o, ())
            for gid, d in newdeltas.items():
                info.accs[gid] = reify(self, back, d, only=here)
                k = fixed_len(d) if groups[gid][1] == 'seq' else None
                if k:
                    TM.ACC_LEN[(luid, gid)] = (k, None)
            for k2, (i2, u2) in list(info.mus.items()):
                info.mus[k2] = (i2, reify(self, back, u2, only=here))
            body_trace = self.trace
        finally:
            self.trace = saved_trace
            self.lstack.pop()
        self.loops[luid] = info
        info.acckind = {g: groups[g][1] for g in info.accs if g in groups}
        # exits
        order = []
        if hexit is not None:
            order.append(('normal', hexit, NONE, True))
        for s in breaks:
            order.append(('normal', s, NONE, False))
        for k, s, p in others:
            order.append((k, s, p, False))
        guards = [o[1].pc for o in order]
        X = bor(*guards) if guards else FALSE
        info.X = X
        node_l = Loop()
        node_l.luid = luid
        node_l.depth = depth
        node_l.pc = P
        node_l.body = body_trace
        node_l.node = node
        node_l.X = X
        node_l.back = self.variant_stores(back, luid, st) if back is not None else []
        node_l.exits = [('normal' if k.startswith('break@') else k.split('@')[0], s.pc, p, self.variant_stores(s, luid, st))
                        for k, s, p, h in order if not h]
        node_l.header = c
        info.quiet = not body_trace and not bump and not node_l.back and not any(x[3] for x in node_l.exits)
        node_l.Xw = TRUE
        node_l.facts = []
        self.trace.append(node_l)
        if not order:
            return None
        # wrap the exits; earlier exits are known not to be taken by later ones
        multi = len(order) > 1
        wx = self.wrapper(luid, it, None, {}, info)
        node_l.Xw = wx(X) if multi else TRUE
        # loops of the last iteration ended by one of their exits
        for x in body_trace:
            if isinstance(x, Loop):
                for f in [x.Xw] + x.facts:
                    if f is not TRUE:
                        node_l.facts.append(wx(bor(neg_b(x.pc), f)))
        res = []
        prev = TRUE
        for j, (k, s, p, ish) in enumerate(order):
            g = s.pc
            if j == len(order) - 1:
                gg = prev
            else:
                gg = g
                # drop conjuncts implied by "no earlier exit"
                if prev is not TRUE:
                    pl = [x for x in (prev.args if prev.op == 'and' else (prev,))]
                    cj = [x for x in (g.args if g.op == 'and' else (g,)) if x not in pl]
                    gg = band(prev, band(*cj)) if cj else prev
                prev = band(prev, neg_b(g))
            solve = None
            if ish:
                solve = self.solve_it(it, g)
                info.trips = solve if all(o[0] == 'raise' for o in order if not o[3]) else None
                for gid in info.accs:
                    if (luid, gid) in TM.ACC_LEN:
                        TM.ACC_LEN[(luid, gid)] = (TM.ACC_LEN[(luid, gid)][0], info.trips)
            memo = {}
            w = self.wrapper(luid, it, solve if ish else None, memo, info)
            wg = self.wrapper(luid, it, None, {}, info)
            ns = State()
            ns.facts = st.facts
            if inv:
                ns.facts = ns.facts + tuple(w0 for w0 in (self.wrapper(luid, it, None, {}, info)(x) for x in inv.values()) if _is_lit(w0))
            ns.cnt = {k2: v2 for k2, v2 in s.cnt.items() if luid not in k2[1]}
            ns.ver = dict(s.ver)
            store = {}
            dropped = set()
            for loc, v in s.store.items():
                b = loc[0]
                if isinstance(b, T):
                    if self.lvariant(b, luid) or self.freshext_in(b, luid):
                        if ish or True:
                            if loc[1] != '$':
                                dropped.add(loc[1])
                            if not ish:
                                nb = w(b)
                                store[(nb, loc[1])] = w(v)
                            continue
                elif isinstance(b, int) and b not in self.live_frames():
                    continue
                store[loc] = w(v)
            ns.store = store
            for f in (dropped | bump) if True else ():
                ns.ver[f] = ns.ver.get(f, 0) + (1 if f in bump else 0)
            ns.pc = band(P, wg(gg)) if multi else P
            payload = w(p) if isinstance(p, T) else p
            res.append((k, ns, payload, ish))
        normals = []
        for k, s, p, ish in res:
            if k == 'normal':
                if ish and orelse:
                    s = self.exec_block(orelse, s, out)
                    if s is None:
                        continue
                normals.append((s, NONE))
            else:
                out.append((k, s, p))
        return self.merge_all(normals)[0]

    def live_frames(self):
        # frames on the stack or captured by closures
        live = set()
        for f in self.stack:
            while f is not None:
                live.add(f)
                f = self.frames[f][1]
        for cl, (fn, fid) in self.closures.items():
            f = fid
            while f is not None:
                live.add(f)
                f = self.frames[f][1]
        return live

    def freshext(self, t):
        return False

    def freshext_in(self, t, luid):
        return False

    def variant_stores(self, st, luid, st0):
        out = StoreList()
        out.ver = dict(st.ver)
        for (b, f), v in st.store.items():
            if isinstance(b, T) and b.op != 'obj' and self.lvariant(b, luid):
                # local containers of this iteration stay local
                out.append((b, f, self.rv(st, v)))
        return out

    def derive(self, luid, loc, m, u, init, it, groups):
        """closed form of a loop-carried value, or None"""
        if init is UNDEF or init in self.unset:
            self.unset.add(m)
            if init is UNDEF:
                return self.last_element(u, init, it)
            if ty(m) in ('int', 'num'):
                return None
        # numeric
        if ty(m) in ('int', 'num') or (ty(m) is None and is_numeric(u)):
            u2 = self.push_minus(u, m)
            if u2 is not None:
                d = u2
                if not self.lvariant(d, luid):
                    return add(init, mul(d, it))
                nd, k = self.norm_delta(d)
                gid = None
                for g, (dd, kind) in groups.items():
                    if kind == 'num' and dd is nd:
                        gid = g
                if gid is None:
                    gid = max(groups, default=-1) + 1
                    groups[gid] = (nd, 'num')
                a = mk('acc', luid, gid)
                MU_TYPES[a] = 'int' if (is_int(m) or is_int(init)) else 'num'
                a._ty = None
                return add(init, scale(a, k))
            return None
        # sequences
        late = False
        lit = eq(m, NONE)
        if lit is not FALSE and init is not UNDEF:
            # nothing until the first piece is added
            u0, u1 = self.assume(u, lit, TRUE, m), self.assume(u, lit, FALSE)
            if u0 is not u1:
                late = True
                u = u1
        d = self.seq_delta(u, m)
        if d is not None:
            if late and (u0 is not self.first_piece(d) or base_ty(d) not in ('bytes', 'str')):
                return None
            lift = False
            dd = d
            if self.all_b2s(d):
                lift = True
                dd = s2b_deep(d)
            gid = None
            for g, (x, kind) in groups.items():
                if kind == 'seq' and x is dd:
                    gid = g
            if gid is None:
                gid = max(groups, default=-1) + 1
                groups[gid] = (dd, 'seq')
            a = mk('acc', luid, gid)
            MU_TYPES[a] = ('bytes' if lift else (base_ty(dd) if late else (base_ty(m) or base_ty(dd))))
            a._ty = None
            r = b2s(a) if lift else a
            if late:
                unset = eq(init, NONE)
                empty = le(it, const(0)) if (fixed_len(d) or 0) > 0 else le(mklen(r), const(0))
                return phi(band(unset, empty), NONE, cat(phi(unset, EMPTYSEQ, init), r))
            return cat(init, r)

        return self.last_element(u, init, it)

    def last_element(self, u, init, it):
        """the element the iteration before was about (that something was set at all is the `unset` rule's business)"""
        if u.op == 'idx' and all(x is it or x.op in ('sym', 'const', 'idx', 'len', 'lin', 'call', 'slice', 'lst', 'tup') or
                                 x.op == 'fld' and len(x.args) == 2 for x in walk(u)):
            r = subst(u, lambda x: sub(it, const(1)) if x is it else None, {})
            return r if init is UNDEF else phi(le(it, const(0)), init, r)
        return None

    def assume(self, u, lit, val, m=None):
        return subst(u, lambda x: val if x is lit else NONE if x is m else None, {})

    def first_piece(self, d):
        """what a value that starts as None becomes when d is added"""
        if d is EMPTYSEQ:
            return NONE
        if d.op == 'phi':
            a, b = self.first_piece(d.args[1]), self.first_piece(d.args[2])
            return None if a is None or b is None else phi(d.args[0], a, b)
        return d if (fixed_len(d) or 0) > 0 else phi(le(mklen(d), const(0)), NONE, d)

    def all_b2s(self, d):
        if d.op == 'b2s':
            return True
        if d.op == 'phi':
            return all(self.all_b2s(x) or x is EMPTYSEQ for x in d.args[1:])
        return False

    def push_minus(self, u, m):
        """u - m as a term without plain m when u = m + d (through phis)"""
        if u.op == 'phi':
            a = self.push_minus(u.args[1], m)
            b = self.push_minus(u.args[2], m)
            if a is None and b is None:
                return None
            if a is None or b is None:
                # moved by a step on one branch, set on the other
                x = u.args[1] if a is None else u.args[2]
                if not is_numeric(x) or ty(x) not in ('int', 'num'):
                    return None
                if a is None:
                    a = sub(x, m)
                else:
                    b = sub(x, m)
            return phi(u.args[0], a, b)
        if u is m:
            return const(0)
        if u.op == 'lin':
            c, d = linparts(u)
            if d.get(m) == 1:
                return sub(u, m)
            # m inside phi part of lin is a delta dependency, not m itself
            return None
        return None

    def norm_delta(self, d):
        """(delta without its common factor, the factor)"""
        c, p = linparts(d)
        if not p:
            return d, 1
        if d.op == 'phi':
            g = self.content_of(d)
            if g and g != 1:
                return self.push_scale(d, Fraction(1, 1) / g), TM._norm(g)
        first = min(p, key=lambda t: t.id)
        k = p[first]
        if len(p) == 1 and c == 0 and first.op == 'phi':
            g = self.content_of(first)
            if g and g != 1:
                return self.push_scale(first, Fraction(1, 1) / g), TM._norm(k * g)
        return scale(d, Fraction(1, 1) / k), TM._norm(k)

    def content_of(self, d):
        """greatest common factor of the coefficients in the alternatives"""
        if d.op == 'phi':
            a, b = self.content_of(d.args[1]), self.content_of(d.args[2])
            if a is None or b is None:
                return None
            if a == 0 or b == 0:
                return a + b
            from math import gcd
            den = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
            return Fraction(gcd(int(a * den), int(b * den)), den)
        if not is_numeric(d):
            return None
        c, p = linparts(d)
        g = abs(Fraction(c))
        from math import gcd
        for k in p.values():
            k = abs(Fraction(k))
            if g == 0:
                g = k
            else:
                den = g.denominator * k.denominator // gcd(g.denominator, k.denominator)
                g = Fraction(gcd(int(g * den), int(k * den)), den)
        return g

    def push_scale(self, d, k):
        if d.op == 'lin':
            c, p = linparts(d)
            if len(p) == 1 and c == 0:
                (t, q), = p.items()
                if t.op == 'phi':
                    return self.push_scale(t, TM._norm(Fraction(k) * q) if not isinstance(q, float) else k * q)
        if d.op == 'phi':
            return phi(d.args[0], self.push_scale(d.args[1], k), self.push_scale(d.args[2], k))
        return scale(d, k)

    def seq_delta(self, u, m):
        if u.op == 'cat' and u.args[0] is m:
            rest = u.args[1:]
            if any(m in set(walk(x)) and x is m for x in rest):
                return None
            return cat(*rest)
        if u.op == 'phi':
            a = EMPTYSEQ if u.args[1] is m else self.seq_delta(u.args[1], m)
            b = EMPTYSEQ if u.args[2] is m else self.seq_delta(u.args[2], m)
            if a is None or b is None:
                return None
            return phi(u.args[0], a, b)
        if u is m:
            return EMPTYSEQ
        if u.op == 'b2s' and u.args[0].op == 'cat' and u.args[0].args[0].op == 's2b' and u.args[0].args[0].args[0] is m:
            return b2s(cat(*u.args[0].args[1:]))
        return None

    def consistent(self, luid, v, u, it, groups, newdeltas):
        """is u the value of v one iteration later?"""
        if not self.lvariant(v, luid):
            return u is v
        used = [x for x in walk(v) if x.op == 'acc' and x.args[0] == luid]
        if not used:
            nxt = subst(v, lambda x: add(it, const(1)) if x is it else None)
            return nxt is u
        a = used[0]
        gid = a.args[1]
        kind = groups[gid][1]
        if kind == 'seq' and v.op == 'phi' and v.args[1] is NONE:
            ls = v.args[0].args if v.args[0].op == 'and' else (v.args[0],)
            ng = [neg_b(x) for x in ls]
            u0 = subst(u, lambda x: TRUE if x in ls else EMPTYSEQ if x is a else const(0) if x is it else None, {})
            d0 = lambda d: subst(d, lambda x: const(0) if x is it else None, {})

            def off(x):
                if x in ls and len(ls) == 1:
                    return FALSE
                if x.op == 'and' and all(l in x.args for l in ls):
                    return FALSE
                if x.op == 'or' and all(l in x.args for l in ng):
                    return TRUE
                return None
            u = subst(u, off, {})
            v = v.args[2]
            d = self.seq_delta(u, v)
            if d is None:
                d = self.seq_delta_cat(u, v)
            if d is None or d0(self.first_piece(d)) is not u0:
                return False
        if kind == 'num':
            c, d = linparts(v)
            k = d.get(a)
            if k is None:
                return False
            delta = self.push_minus_term(u, v)
            if delta is None:
                return False
            delta = self.push_scale(delta, Fraction(1, 1) / k)
        else:
            d = self.seq_delta(u, v)
            if d is None:
                # v = cat(init, acc)
                d = self.seq_delta_cat(u, v)
            if d is None:
                return False
            delta = s2b_deep(d) if self.all_b2s(d) and v.op in ('b2s',) or (self.all_b2s(d) and self.lifted(v, a)) else d
        if gid in newdeltas and newdeltas[gid] is not delta:
            return False
        newdeltas[gid] = delta
        return True

    def dependent(self, luid, deltas, groups, it):
        """numeric sums whose steps are a linear combination of the steps of
        earlier ones (or constant): acc -> that combination"""
        gids = sorted(g for g in deltas if groups[g][1] == 'num')
        if not gids:
            return {}
        rows = {g: {} for g in gids}
        ones = {}
        leaves = [0]

        def top(d):
            if d.op == 'phi':
                return d.args[0]
            if d.op == 'lin':
                for t in linparts(d)[1]:
                    if t.op == 'phi':
                        return t.args[0]
            return None

        def cof(d, c, i):
            if d.op == 'phi':
                return d.args[i] if d.args[0] is c else d
            if d.op == 'lin':
                k, p = linparts(d)
                r = const(k)
                for t, q in p.items():
                    r = add(r, scale(t.args[i] if t.op == 'phi' and t.args[0] is c else t, q))
                return r
            return d

        def walk_(ds):
            c = None
            for d in ds:
                c = top(d)
                if c is not None:
                    break
            if c is None:
                n = leaves[0]
                leaves[0] += 1
                ones[(n, None)] = Fraction(1)
                for g, d in zip(gids, ds):
                    k, p = linparts(d)
                    if isinstance(k, float) or any(isinstance(q, float) for q in p.values()):
                        return False
                    if k:
                        rows[g][(n, None)] = Fraction(k)
                    for t, q in p.items():
                        rows[g][(n, t)] = Fraction(q)
                return True
            if leaves[0] > 40:
                return False
            return walk_([cof(d, c, 1) for d in ds]) and walk_([cof(d, c, 2) for d in ds])
        if not all(d.op == 'phi' or is_numeric(d) for d in (deltas[g] for g in gids)):
            return {}
        if not walk_([deltas[g] for g in gids]):
            return {}
        basis = [(ones, {None: Fraction(1)})]      # (reduced vector, combination)
        for g in gids:
            v, comb = dict(rows[g]), {}
            for bv, bc in basis:
                lead = next(iter(bv))
                q = v.get(lead)
                if q:
                    q = q / bv[lead]
                    for k2, x in bv.items():
                        y = v.get(k2, 0) - q * x
                        if y:
                            v[k2] = y
                        else:
                            v.pop(k2, None)
                    for k2, x in bc.items():
                        comb[k2] = comb.get(k2, 0) + q * x
            if not v:
                r = const(0)
                for k2, x in comb.items():
                    r = add(r, scale(it if k2 is None else mk('acc', luid, k2), TM._norm(x)))
                return {mk('acc', luid, g): r}
            bc = {k2: -x for k2, x in comb.items()}
            bc[g] = bc.get(g, 0) + 1
            basis.append((v, bc))
        return {}

    def lifted(self, v, a):
        for x in walk(v):
            if x.op == 'b2s' and a in set(walk(x)):
                return True
        return False

    def push_minus_term(self, u, v):
        if u.op == 'phi':
            a = self.push_minus_term(u.args[1], v)
            b = self.push_minus_term(u.args[2], v)
            return None if a is None or b is None else phi(u.args[0], a, b)
        return sub(u, v)

    def seq_delta_cat(self, u, v):
        if v.op == 'b2s':
            if u.op == 'b2s':
                d = self.seq_delta_cat(u.args[0], v.args[0])
                if d is None and u.args[0] is not v.args[0]:
                    d = self.seq_delta(u.args[0], v.args[0])
                return None if d is None else b2s_deep(d)
            if u.op == 'phi':
                a = EMPTYSEQ if u.args[1] is v else self.seq_delta_cat(u.args[1], v)
                b = EMPTYSEQ if u.args[2] is v else self.seq_delta_cat(u.args[2], v)
                return None if a is None or b is None else phi(u.args[0], a, b)
            return None
        if u is v:
            return EMPTYSEQ
        if u.op == 'phi':
            a = self.seq_delta_cat(u.args[1], v)
            b = self.seq_delta_cat(u.args[2], v)
            return None if a is None or b is None else phi(u.args[0], a, b)
        pv = v.args if v.op == 'cat' else (v,)
        pu = u.args if u.op == 'cat' else (u,)
        n = len(pv)
        if len(pu) >= n and tuple(pu[:n]) == tuple(pv):
            return cat(*pu[n:]) if pu[n:] else EMPTYSEQ
        return None

    def solve_it(self, it, g):
        """value of the counter when the header exit is taken (loops that
        count up to a bound by one)"""
        def steps(c, d, k):
            # smallest it with k * it >= c + d
            return neg(floor(scale(neg(mklin(c, d)), Fraction(1, k))))
        if g.op == 'not' and g.args[0].op == 'le':
            L, b = g.args[0].args
            # L > b  first time
            c, d = linparts(L)
            k = d.get(it)
            if k is not None and k > 1 and k == int(k) and not any(it in set(walk(x)) for x in d if x is not it):
                d2 = {x: -v for x, v in d.items() if x is not it}
                return steps(b + 1, d2, int(k))
            if d.get(it) == 1 and not any(it in set(walk(x)) for x in d if x is not it):
                d2 = dict(d)
                del d2[it]
                # it > b - rest  => it == b + 1 - rest
                return sub(const(b + 1), mklin(c, d2))
        if g.op == 'le':
            L, b = g.args
            c, d = linparts(L)
            k = d.get(it)
            if k is not None and k < -1 and k == int(k) and not any(it in set(walk(x)) for x in d if x is not it):
                d2 = {x: v for x, v in d.items() if x is not it}
                return steps(c - b, d2, -int(k))
            if d.get(it) == -1 and not any(it in set(walk(x)) for x in d if x is not it):
                d2 = dict(d)
                del d2[it]
                # rest - it <= b  =>  it == rest - b
                return sub(mklin(c, d2), const(b))
        return None

    def wrapper(self, luid, it, solve, memo, info):
        def leaf(x):
            if x is it:
                return solve if solve is not None else mk('eta', luid, it)
            if x.op in ('mu', 'acc') and x.args[0] == luid:
                if solve is not None and x.op == 'acc':
                    r = self.closed_acc(luid, x, it, solve, info)
                    if r is not None:
                        return r
                return mk('eta', luid, x)
            if x.op == 'eta' and x.args[0] == luid:
                return x
            return None

        def w(t):
            return subst(t, leaf, memo)
        return w

    def closed_acc(self, luid, a, it, n, info):
        """closed form of a full accumulation over a sequence"""
        d = info.accs.get(a.args[1])
        if d is None:
            return None
        if d.op == 'lst' and len(d.args) == 1:
            e = d.args[0]
            if e.op == 'idx' and e.args[1] is it and mklen(e.args[0]) is n:
                return e.args[0]
            if e.op == 'dec' and e.args[0] == 'B' and e.args[2] is it and mklen(e.args[1]) is n:
                return e.args[1]
        if d.op == 'idx' and d.args[1] is it and mklen(d.args[0]) is n and base_ty(d.args[0]) == 'str':
            return d.args[0]
        if d.op == 'chr' and d.args[0].op == 'dec' and d.args[0].args[0] == 'B' and d.args[0].args[2] is it and \
                mklen(d.args[0].args[1]) is n:
            return b2s(d.args[0].args[1])
        if d.op == 'fmt' and d.args[0] in ('02x', '02X') and d.args[1].op == 'dec' and d.args[1].args[0] == 'B' and d.args[1].args[2] is it and \
                mklen(d.args[1].args[1]) is n:
            r = mk('call', 'hexstr', d.args[1].args[1], const(d.args[0]))
            EXT_TYPES[r] = 'str'
            return r
        return None

    # ---------------------------------------------------------- conditions
    def cond(self, n, st, out):
        if isinstance(n, ast.BoolOp):
            return truth(self.eval_boolop(n, st, out, True))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return neg_b(self.cond(n.operand, st, out))
        v = self.eval(n, st, out)
        return self.truthof(st, v)

    def truthof(self, st, v):
        if v.op == 'phi':
            return TM._phi_b(v.args[0], self.truthof(st, v.args[1]), self.truthof(st, v.args[2]))
        if v.op == 'obj' and v.args[1] in ('list', 'dict', 'set') or (v, '$') in st.store:
            c = self.content(st, v)
            n = mklen(c)
            return neg_b(le(n, const(0)))
        c = base_ty(v)
        if c and c.startswith('obj:'):
            cls = CLASSES_BY_NAME.get(c[4:])
            if cls is not None and not self.in_reference() and (cls.find('__bool__') or cls.find('__len__')):
                # nothing the reference knows about its objects
                return mk('truth', mk('call', 'own truth', v))
        return truth(v)

    def in_reference(self):
        return bool(self.stack) and self.frames[self.stack[-1]][2].startswith('spec')

    def pure_expr(self, n):
        return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.Subscript)) for x in ast.walk(n))

    def eval_boolop(self, n, st, out, want_bool=False):
        isand = isinstance(n.op, ast.And)

        def go(vals, st):
            if len(vals) == 1:
                if want_bool:
                    return self.cond(vals[0], st, out)
                return self.eval(vals[0], st, out)
            v = self.cond(vals[0], st, out) if want_bool else self.eval(vals[0], st, out)
            c = st.decide(v if want_bool else self.truthof(st, v))
            if c is TRUE:
                return go(vals[1:], st) if isand else v
            if c is FALSE:
                return v if isand else go(vals[1:], st)
            s2 = st.copy()
            s2.pc = band(st.pc, c if isand else neg_b(c))
            try:
                r = go(vals[1:], s2)
            except Dead:
                st.pc = band(st.pc, neg_b(c) if isand else c)
                return v
            s1 = st.copy()
            s1.pc = band(st.pc, neg_b(c) if isand else c)
            st.become(self.merge(c if isand else neg_b(c), s2, s1))
            if want_bool:
                return band(c, r) if isand else bor(c, r)
            return phi(c, r, v) if isand else phi(c, v, r)
        return go(n.values, st)

    # --------------------------------------------------------- expressions
    def eval(self, n, st, out):
        self.tick()
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            return self.opaque('expression ' + type(n).__name__, n)
        return m(n, st, out)

    def ex_Constant(self, n, st, out):
        if n.value is Ellipsis:
            return mk('ellipsis')
        return const(n.value)

    def ex_Name(self, n, st, out):
        v = self.lookup(st, self.stack[-1], n.id, n)
        if v is UNDEF:
            self.fault(st, out, 'UnboundLocalError')
        if v.op == 'noname':
            self.fault(st, out, 'NameError')
        return st.choose(v) if v.op == 'phi' else v

    def fault(self, st, out, exc):
        """an operation that can only fail"""
        out.append(('raise', st.copy(), mk('excval', exc, NONE)))
        raise Dead()

    def ex_Attribute(self, n, st, out):
        b = self.eval(n.value, st, out)
        return self.getattr(st, b, n.attr, out, n)

    def ex_NamedExpr(self, n, st, out):
        v = self.eval(n.value, st, out)
        self.assign(n.target, v, st, out)
        return v

    def ex_Lambda(self, n, st, out):
        return self.make_closure(n, st, out)

    def ex_IfExp(self, n, st, out):
        c = st.decide(self.cond(n.test, st, out))
        if c is TRUE:
            return self.eval(n.body, st, out)
        if c is FALSE:
            return self.eval(n.orelse, st, out)
        s1 = st.copy()
        s1.pc = band(st.pc, c)
        s2 = st.copy()
        s2.pc = band(st.pc, neg_b(c))
        a = b = None
        try:
            a = self.eval(n.body, s1, out)
        except Dead:
            s1 = None
        try:
            b = self.eval(n.orelse, s2, out)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            st.become(s2)
            return b
        if s2 is None:
            st.become(s1)
            return a
        st.become(self.merge(c, s1, s2))
        return phi(c, a, b)

    def ex_BoolOp(self, n, st, out):
        return self.eval_boolop(n, st, out)

    def ex_UnaryOp(self, n, st, out):
        if isinstance(n.op, ast.Not):
            return neg_b(self.cond(n.operand, st, out))
        v = self.eval(n.operand, st, out)
        if isinstance(n.op, ast.USub):
            return neg(v) if not (is_const(v) and isinstance(v.args[0], float)) else const(-v.args[0])
        if isinstance(n.op, ast.UAdd):
            return v
        if is_num_const(v):
            return const(~v.args[0])
        return mk('inv', v)

    def ex_Compare(self, n, st, out):
        left = self.eval(n.left, st, out)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, out)
            own = self.own_eq(op, left, right, st, out, n) if isinstance(op, (ast.Eq, ast.NotEq)) else self.own_order(op, left, right, st, out, n)
            res.append(self.compare(op, left, right, st, n) if own is None else own)
            left = right
        return band(*res)

    def own(self, x, name):
        """method name of the class of x, when it defines one"""
        t = ty(x)
        if x.op == 'phi' or not t or not t.startswith('obj:') or t.endswith('?') or self.in_reference():
            return None
        cls = CLASSES_BY_NAME.get(t[4:])
        f = cls.find(name) if cls is not None else None
        return mk_bound(self, f, x) if f is not None else None

    ORDER = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'), 'GtE': ('__ge__', '__le__')}

    def own_order(self, op, a, b, st, out, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.own(b, '__contains__')
            if f is None:
                return None
            r = self.truthof(st, self.call(st, f, [a], {}, out, node))
            return r if isinstance(op, ast.In) else neg_b(r)
        names = self.ORDER.get(type(op).__name__)
        if names is None:
            return None
        for f, y in ((self.own(a, names[0]), b), (self.own(b, names[1]), a)):
            if f is not None:
                return self.truthof(st, self.call(st, f, [y], {}, out, node))
        return None

    def own_eq(self, op, a, b, st, out, node):
        """the answer of the class of a, when it defines one"""
        t = ty(a)
        if t is None and a.op != 'phi' and (ty(b) or '').startswith('obj:') and not ty(b).endswith('?'):
            # the other operand's answer: that of a has nothing to say, or is of the same class
            a, b, t = b, a, ty(b)
        if b is NONE or not t or not t.startswith('obj:') or t.endswith('?') or self.in_reference():
            return None
        cls = CLASSES_BY_NAME.get(t[4:])
        if cls is None:
            return None
        neg = isinstance(op, ast.NotEq)
        f = cls.find('__ne__') if neg else None
        if f is not None:
            neg = False
        else:
            f = cls.find('__eq__')
        if f is None:
            return None
        r = self.truthof(st, self.call(st, mk_bound(self, f, a), [b], {}, out, node))
        return neg_b(r) if neg else r

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equals(st, a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return neg_b(self.equals(st, a, b))
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            va = self.version_cmp(a, b, op)
            if va is not None:
                return va
        if isinstance(op, ast.Lt):
            return self.numc(a, b, True)
        if isinstance(op, ast.LtE):
            return self.numc(a, b, False)
        if isinstance(op, ast.Gt):
            return self.numc(b, a, True)
        if isinstance(op, ast.GtE):
            return self.numc(b, a, False)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return r if isinstance(op, ast.In) else neg_b(r)
        return self.opaque('compare', node)

    def numc(self, a, b, strict):
        if a.op == 'phi' and (is_const(a.args[1]) and is_const(a.args[2])):
            return TM._phi_b(a.args[0], self.numc(a.args[1], b, strict), self.numc(a.args[2], b, strict))
        if b.op == 'phi' and (is_const(b.args[1]) and is_const(b.args[2])):
            return TM._phi_b(b.args[0], self.numc(a, b.args[1], strict), self.numc(a, b.args[2], strict))
        return lt(a, b) if strict else le(a, b)

    def version_cmp(self, a, b, op):
        sv = 'sys.version_info'
        if (b.op == 'extname' and b.args[0] == sv) or (b.op == 'idx' and b.args[0].op == 'extname' and b.args[0].args[0] == sv):
            a, b = b, a
            op = {'Lt': ast.Gt, 'LtE': ast.GtE, 'Gt': ast.Lt, 'GtE': ast.LtE}[type(op).__name__]()
        if a.op == 'extname' and a.args[0] == 'sys.version_info' and b.op == 'tup':
            v = tuple(x.args[0] for x in b.args)
            cur = (3, 12, 0)
            r = {'Lt': cur < v, 'LtE': cur <= v, 'Gt': cur > v, 'GtE': cur >= v}[type(op).__name__]
            return const(r)
        if a.op == 'idx' and a.args[0].op == 'extname' and a.args[0].args[0] == 'sys.version_info' and is_num_const(b):
            r = {'Lt': 3 < b.args[0], 'LtE': 3 <= b.args[0], 'Gt': 3 > b.args[0], 'GtE': 3 >= b.args[0]}
            return const(r[type(op).__name__])
        return None

    def equals(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'type':
                return self.type_is(x.args[0], y, exact=True)
            if x.op == 'idx' and x.args[0].op == 'extname' and x.args[0].args[0] == 'sys.version_info' and is_num_const(y):
                return const(y.args[0] == 3)
        ca, cb = a, b
        if a.op == 'phi' and (a.args[1].op == 'type' or a.args[2].op == 'type'):
            return TM._phi_b(a.args[0], self.equals(st, a.args[1], b), self.equals(st, a.args[2], b))
        if (a.op == 'obj' and a.args[1] in ('list', 'dict')) or (b.op == 'obj' and b.args[1] in ('list', 'dict')):
            if b is NONE or a is NONE:
                return const(a is b)
            ca, cb = self.content(st, a), self.content(st, b)
            if (ca.op == 'lst' and not ca.args):
                return le(mklen(cb), const(0))
            if (cb.op == 'lst' and not cb.args):
                return le(mklen(ca), const(0))
        if ca.op in ('class', 'func', 'builtin', 'obj') and cb.op in ('class', 'func', 'builtin', 'obj') and ca.op == cb.op:
            return const(ca is cb)
        if ca.op == 'tup' and cb.op == 'tup':
            if len(ca.args) != len(cb.args):
                return FALSE
            return band(*[self.equals(st, x, y) for x, y in zip(ca.args, cb.args)])
        # repo classes with __eq__
        return eq(ca, cb)

    TYNAMES = {'str': 'str', 'bytes': 'bytes', 'int': 'int', 'float': 'num', 'list': 'list', 'dict': 'dict', 'tuple': 'tuple',
               'bool': 'bool'}

    def type_is(self, x, c, exact):
        if c.op == 'tup':
            return bor(*[self.type_is(x, y, exact) for y in c.args])
        if x.op == 'phi':
            return TM._phi_b(x.args[0], self.type_is(x.args[1], c, exact), self.type_is(x.args[2], c, exact))
        t = ty(x)
        if x is NONE:
            return FALSE
        if c.op == 'builtin':
            if c.args[0] not in ('int', 'object', 'Exception', 'BaseException'):
                exact = False
            want = self.TYNAMES.get(c.args[0])
            if want and t and not t.endswith('?'):
                if t.startswith(want):
                    return TRUE if not (want == 'num') else mk('isinst', x, c, exact)
                if t in ('int', 'num') and want in ('int', 'num'):
                    return mk('isinst', x, c, exact)
                if t == 'bool' and want == 'int':
                    return const(not exact)
                return FALSE
            if t in ('str', 'int', 'bool') and c.args[0] in ('bytearray', 'set', 'frozenset', 'memoryview', 'complex'):
                return FALSE
            return mk('isinst', x, c, exact)
        if c.op == 'class':
            cls = self.classes[c]
            if exact and not any(k is not cls and k.isa(cls) for m in self.prog.mods.values() for k in m.classes.values()):
                # no class of the program extends it
                exact = False
            if x.op in ('obj', 'inst') and t and t.startswith('obj:'):
                k = CLASSES_BY_NAME.get(t[4:])
                if k is not None:
                    return const(k is cls if exact else k.isa(cls))
            if x.op == 'sym' and len(x.args) > 2 and x.args[2] == 'exact' and t.startswith('obj:'):
                k = CLASSES_BY_NAME.get(t[4:])
                if k is not None:
                    return const(k is cls if exact else k.isa(cls))
            if x.op == 'sym' and not exact and t and t.startswith('obj:') and not t.endswith('?'):
                k = CLASSES_BY_NAME.get(t[4:])
                if k is not None and k.isa(cls):
                    return TRUE
            return mk('isinst', x, c, exact)
        return mk('isinst', x, c, exact)

    def contains(self, st, a, b):
        if b.op == 'fld' and b.args[1] == '__dict__' and not is_str_const(a):
            return neg_b(eq(self.getattr_dyn(st, b.args[0], a, [], None), NONE))
        c = self.content(st, b)
        if c.op in ('lst', 'tup'):
            return bor(*[self.equals(st, a, x) for x in c.args])
        if c.op == 'iter' and c.args[0] == 'keys':
            return self.contains(st, a, c.args[1])
        t = base_ty(b) or base_ty(c)
        if c.op == 'dict' or (t and t.startswith('dict')):
            return neg_b(eq(dget(c, a), NONE))
        if c.op == 'phi':
            return TM._phi_b(c.args[0], self.contains(st, a, c.args[1]), self.contains(st, a, c.args[2]))
        if is_const(a) and is_const(c):
            try:
                return const(a.args[0] in c.args[0])
            except TypeError:
                pass
        return mk('call', 'in', a, c) if t else self.contains_unknown(a, c)

    def contains_unknown(self, a, c):
        return neg_b(eq(dget(c, a), NONE))

    def ex_BinOp(self, n, st, out):
        a = self.eval(n.left, st, out)
        b = self.eval(n.right, st, out)
        return self.binop(n.op, a, b, st, n)

    def seqish(self, t):
        b = base_ty(t)
        return t is EMPTYSEQ or (b is not None and (b in ('str', 'bytes', 'tuple') or b.startswith('list'))) or \
            t.op in ('lst', 'tup')

    def binop(self, op, a, b, st, node):
        k = type(op).__name__
        if k == 'Add':
            if a is UNDEF or b is UNDEF:
                return UNDEF
            sa, sb = self.seqish(a), self.seqish(b)
            if sa or sb:
                if a.op == 'tup' and b.op == 'tup':
                    return tup(a.args + b.args)
                if (a.op == 'obj' and a.args[1] == 'list') or (b.op == 'obj' and b.args[1] == 'list') or \
                        (base_ty(a) or '').startswith('list') or (base_ty(b) or '').startswith('list'):
                    return self.newlist(st, cat(self.content(st, a), self.content(st, b)))
                return cat(self.content(st, a), self.content(st, b))
            if a.op == 'phi' and (self.seqish(a.args[1]) or self.seqish(a.args[2])):
                return phi(a.args[0], self.binop(op, a.args[1], b, st, node), self.binop(op, a.args[2], b, st, node))
            return TM.norm_lin_dec(add(a, b))
        if k == 'Sub':
            return sub(a, b)
        if k == 'Mult':
            for x, y in ((a, b), (b, a)):
                if self.seqish(x):
                    c = self.content(st, x)
                    if is_const(c) and is_num_const(y) and isinstance(y.args[0], int):
                        return const(c.args[0] * y.args[0])
                    if c.op == 'lst' and is_num_const(y) and y.args[0] * len(c.args) < 1000:
                        return self.newlist(st, lst(list(c.args) * y.args[0]))
                    if is_bytes_const(c) and c.args[0] in (b'\x00', b'\0'):
                        return TM.padto(y, const(b''))
                    return mk('rep', c, y)
            return mul(a, b)
        if k == 'Div':
            return div(a, b)
        if k == 'FloorDiv':
            return floor(div(a, b)) if is_num_const(b) else mk('floor', mk('div', a, b))
        if k == 'Mod':
            if base_ty(a) == 'str':
                return self.percent(st, a, b)
            if base_ty(a) == 'bytes':
                return mk('call', 'bytesfmt', a, b)
            return TM.modulo(a, b)
        if k == 'Pow':
            if is_num_const(a) and is_num_const(b):
                try:
                    return const(a.args[0] ** b.args[0])
                except Exception:
                    pass
            return mk('call', 'power', a, b)
        if k == 'LShift':
            return shl(a, b)
        if k == 'RShift':
            return shr(a, b)
        if k == 'BitOr':
            if base_ty(a) and base_ty(a).startswith('dict'):
                return self.opaque('dict union', node)
            return bitor(a, b)
        if k == 'BitAnd':
            return bitand(a, b)
        if k == 'BitXor':
            return bitxor(a, b)
        return self.opaque('operator ' + k, node)

    # ---------------------------------------------------- text formatting
    def tostr(self, st, v):
        if v.op == 'phi':
            return phi(v.args[0], self.tostr(st, v.args[1]), self.tostr(st, v.args[2]))
        if base_ty(v) == 'str' and not is_optional(v):
            return v
        if is_const(v) and not isinstance(v.args[0], (bytes,)):
            if v.args[1] == 'float':
                return const(str(v.args[0]) if v.args[0] != 'nan' else 'nan')
            return const(str(v.args[0]))
        if v.op == 'excval':
            return mk('call', 'msg', v)
        c = base_ty(v)
        if c and c.startswith('obj:') and CLASSES_BY_NAME.get(c[4:]) is not None and \
                CLASSES_BY_NAME[c[4:]].find('__str__') is not None:
            return mk('str', v)
        return mk('str', self.rv(st, v))

    def fmt(self, st, spec, v):
        if spec in ('', 's'):
            return self.tostr(st, v)
        if spec == 'd':
            if is_int(v):
                return self.tostr(st, v)
            return mk('fmt', 'd', v)
        if is_const(v):
            try:
                return const(format(v.args[0], spec))
            except Exception:
                pass
        if is_int(v) and spec.isdigit():
            spec += 'd'
        return mk('fmt', spec, v)

    def percent(self, st, a, b):
        a = st.choose(a)
        if a.op == 'phi' and all(is_str_const(x) for x in alts(a)):
            return phi(a.args[0], *[self.percent(st, x, b) for x in a.args[1:]])
        if not is_str_const(a):
            return mk('call', 'percent', a, self.rv(st, b))
        vals = list(b.args) if b.op == 'tup' else [b]
        s = a.args[0]
        out = []
        i = 0
        vi = 0
        import re
        for m in re.finditer(r'%(\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\d*)(\.(?P<p>\d+))?(?P<c>[a-zA-Z%])', s):
            if m.start() > i:
                out.append(const(s[i:m.start()]))
            i = m.end()
            if m.group('c') == '%':
                out.append(const('%'))
                continue
            if m.group('key') is not None or vi >= len(vals):
                return mk('call', 'percent', a, self.rv(st, b))
            v = vals[vi]
            vi += 1
            c = m.group('c')
            fl = m.group('flags')
            w = m.group('w')
            if c in 'sr' and not w:
                out.append(self.tostr(st, v))
            elif c in 's':
                out.append(mk('fmt', ('<' if '-' in fl else '>') + w, self.tostr(st, v)))
            elif c in 'diu':
                out.append(self.fmt(st, (fl.replace('-', '<') if fl else '') + w + 'd', v))
            else:
                spec = fl + w + ('.' + m.group('p') if m.group('p') else '') + c
                out.append(self.fmt(st, spec, v))
        if i < len(s):
            out.append(const(s[i:]))
        if vi != len(vals):
            return mk('call', 'percent', a, self.rv(st, b))
        return cat(*out) if out else const('')

    def format_method(self, st, a, args, kw, node):
        a = st.choose(a)
        if a.op == 'phi' and all(is_str_const(x) for x in alts(a)):
            return phi(a.args[0], *[self.format_method(st, x, args, kw, node) for x in a.args[1:]])
        if not is_str_const(a):
            return mk('call', 'format', a, *[self.rv(st, x) for x in args])
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(a.args[0]):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if '{' in (spec or '') or '.' in field or '[' in field:
                    return mk('call', 'format', a, *[self.rv(st, x) for x in args])
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                out.append(self.fmt(st, spec or '', v))
        except (IndexError, KeyError, ValueError):
            return mk('call', 'badformat', a)
        return cat(*out) if out else const('')

    def ex_JoinedStr(self, n, st, out):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st, out)
                spec = ''
                if v.format_spec is not None:
                    s = self.eval(v.format_spec, st, out)
                    if is_str_const(s):
                        spec = s.args[0]
                    else:
                        parts.append(mk('call', 'format', x, s))
                        continue
                parts.append(self.fmt(st, spec, x))
        return cat(*parts) if parts else const('')

    # ---------------------------------------------------------- containers
    def ex_List(self, n, st, out):
        return self.newlist(st, self.seq_items(n.elts, st, out))

    def ex_Set(self, n, st, out):
        return self.newlist(st, self.seq_items(n.elts, st, out))

    def seq_items(self, elts, st, out):
        parts = []
        cur = []
        for e in elts:
            if isinstance(e, ast.Starred):
                if cur:
                    parts.append(lst(cur))
                    cur = []
                parts.append(self.as_seq(st, self.eval(e.value, st, out)))
            else:
                cur.append(self.eval(e, st, out))
        if cur or not parts:
            parts.append(lst(cur))
        return cat(*parts)

    def ex_Tuple(self, n, st, out):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.seq_items(n.elts, st, out)
        return tup([self.eval(e, st, out) for e in n.elts])

    def overlay(self, d, e):
        """the dictionary d with the entries of e put in"""
        if e.op == 'phi':
            x, y = self.overlay(d, e.args[1]), self.overlay(d, e.args[2])
            return None if x is None or y is None else phi(e.args[0], x, y)
        if e.op != 'dict' or e.args[0] is not EMPTYSEQ:
            return e if d.op == 'dict' and d.args[0] is EMPTYSEQ and not d.args[1] and (base_ty(e) or '').startswith('dict') else None
        for k, v in e.args[1]:
            if TM._may_absent(v):
                if d.op != 'dict':
                    return None
                old = dict(d.args[1]).get(k)
                if old is None:
                    if d.args[0] is not EMPTYSEQ:
                        return None
                    old = TM.ABSENT
                f = lambda x: phi(x.args[0], f(x.args[1]), f(x.args[2])) if x.op == 'phi' and TM._may_absent(x) else old if x is TM.ABSENT else x
                v = f(v)
            d = dset(d, k, v)
        return d

    def ex_Dict(self, n, st, out):
        d = mkdict(EMPTYSEQ, {})
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.content(st, self.eval(v, st, out))
                e = self.overlay(d, src)
                if e is None:
                    return self.opaque('dict unpacking', n)
                d = e
                continue
            kk = self.eval(k, st, out)
            vv = self.eval(v, st, out)
            d = dset(d, kk, vv)
        return self.newdict(st, d)

    def ex_Subscript(self, n, st, out):
        b = self.eval(n.value, st, out)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower, st, out) if n.slice.lower else NONE
            hi = self.eval(n.slice.upper, st, out) if n.slice.upper else NONE
            step = self.eval(n.slice.step, st, out) if n.slice.step is not None else NONE
            return self.part(st, b, lo, hi, step)
        k = self.eval(n.slice, st, out)
        return self.subscript(st, b, k, out, n)

    def part(self, st, b, lo, hi, step):
        c = self.content(st, b)
        if step is const(-1) and lo is NONE and hi is NONE:
            return mk('rev', c)
        if step is not NONE and step is not const(1):
            return mk('call', 'stride', c, lo, hi, step)
        r = slc(c, lo, hi)
        if self.is_listy(b, c):
            return self.newlist(st, r)
        return r

    def is_listy(self, b, c):
        return (b.op == 'obj' and b.args[1] == 'list')

    def subscript(self, st, b, k, out, node):
        if b.op == 'phi':
            return phi(b.args[0], self.subscript(st, b.args[1], k, out, node), self.subscript(st, b.args[2], k, out, node))
        if b is UNDEF:
            return UNDEF
        if b.op == 'iter':
            return self.opaque('subscript of iterator', node)
        if k.op == 'phi' and any(x.op == 'sliceobj' for x in alts(k)):
            return phi(k.args[0], self.subscript(st, b, k.args[1], out, node), self.subscript(st, b, k.args[2], out, node))
        if k.op == 'sliceobj' and not (base_ty(b) or '').startswith('obj:'):
            return self.part(st, b, *k.args)
        t = base_ty(b)
        if t and t.startswith('obj:'):
            cls = CLASSES_BY_NAME.get(t[4:])
            if cls is not None:
                f = cls.find('__getitem__')
                if f is not None:
                    return self.call(st, mk_bound(self, f, b), [k], {}, out, node)
            if t == 'obj:Element':
                return idx(builtin_model().elem_children(self, st, b), k)
        if b.op == 'fld' and b.args[1] == '__dict__':
            return self.getattr_dyn(st, b.args[0], k, out, node)
        c = self.content(st, b)
        if c.op == 'dict' or (t and t.startswith('dict')) or (k.op == 'const' and isinstance(k.args[0], str)):
            v = dget(c, k)
            self.implicit(st, out, 'KeyError', eq(v, NONE))
            return strip_none(v)
        if t is None and c is b and ty(k) in ('str', None) and not is_numeric(k) and k.op not in ('lin', 'len', 'it'):
            v = dget(c, k)
            self.implicit(st, out, 'KeyError', eq(v, NONE))
            return strip_none(v)
        r = idx(c, k)
        if is_num_const(k) and c.op not in ('tup', 'lst') and isinstance(k.args[0], int) and base_ty(c) not in ('str', 'bytes'):
            n = mklen(c)
            bad = le(n, const(k.args[0])) if k.args[0] >= 0 else lt(n, const(-k.args[0]))
            self.implicit(st, out, 'IndexError', bad)
        return r

    def setitem(self, st, b, k, v, out):
        t = base_ty(b)
        if t and t.startswith('obj:'):
            cls = CLASSES_BY_NAME.get(t[4:])
            f = cls.find('__setitem__') if cls is not None else None
            if f is not None:
                self.call(st, mk_bound(self, f, b), [k, v], {}, out, None)
                return
        if b.op == 'fld' and b.args[1] == '__dict__':
            self.setattr_dyn(st, b.args[0], k, v, out)
            return
        if b.op == 'gdict':
            st.store[(b.args[0], '@')] = dset(st.store.get((b.args[0], '@'), mk('fld', b.args[0], '@')), k, v)
            return
        if b.op == 'phi':
            c = b.args[0]
            for x, cc in ((b.args[1], c), (b.args[2], neg_b(c))):
                if x.op == 'const':
                    continue
                old = self.content(st, x)
                self.setcontent(st, x, phi(cc, self.item_set(st, x, old, k, v), old))
            return
        c = self.content(st, b)
        self.setcontent(st, b, self.item_set(st, b, c, k, v))

    def item_set(self, st, b, c, k, v):
        t = base_ty(b) or base_ty(c)
        if c.op == 'dict' or (t and t.startswith('dict')) or (t is None and not is_numeric(k)):
            return dset(c, k, v)
        if c.op == 'lst' and is_num_const(k) and isinstance(k.args[0], int) and -len(c.args) <= k.args[0] < len(c.args):
            items = list(c.args)
            items[k.args[0]] = v
            return lst(items)
        if t is None:
            return dset(c, k, v)
        return mk('lset', c, k, v)

    # ------------------------------------------------------ comprehensions
    def comp(self, n, st, out, kind):
        """evaluate a comprehension through the same loop machinery"""
        fid = self.newframe(None, self.stack[-1], self.frames[self.stack[-1]][2])
        acc = self.newdict(st) if kind == 'dict' else self.newlist(st, lst([]))
        gens = n.generators

        def level(i, s, o):
            if i == len(gens):
                if kind == 'dict':
                    k = self.eval(n.key, s, o)
                    v = self.eval(n.value, s, o)
                    self.setcontent(s, acc, dset(self.content(s, acc), k, v))
                else:
                    v = self.eval(n.elt, s, o)
                    self.setcontent(s, acc, cat(self.content(s, acc), lst([v])))
                return s
            g = gens[i]
            itv = self.lazily(g.iter, s, o)

            def bind(s2, o2, v):
                self.assign(g.target, v, s2, o2)

            def body(s2, o2):
                skip = []
                cur = s2
                for cnd in g.ifs:
                    c = cur.decide(self.cond(cnd, cur, o2))
                    if c is FALSE:
                        return self.merge_all(skip + [(cur, NONE)])[0]
                    if c is not TRUE:
                        sk = cur.copy()
                        sk.pc = band(cur.pc, neg_b(c))
                        skip.append((sk, NONE))
                        cur.pc = band(cur.pc, c)
                try:
                    r = level(i + 1, cur, o2)
                except Dead:
                    r = None
                items = ([(r, NONE)] if r is not None else []) + skip
                return self.merge_all(items)[0]
            return self.for_loop(itv, bind, body, [], s, o, n)
        self.stack.append(fid)
        try:
            r = level(0, st, out)
        finally:
            self.stack.pop()
        if r is None:
            raise Dead()
        if r is not st:
            st.become(r)
        return acc

    def ex_ListComp(self, n, st, out):
        return self.comp(n, st, out, 'list')

    def ex_SetComp(self, n, st, out):
        return self.comp(n, st, out, 'list')

    def ex_GeneratorExp(self, n, st, out):
        return self.comp(n, st, out, 'list')

    def lazily(self, n, st, out):
        """value of n; a generator expression that calls something is a
        generator, run where it is consumed"""
        if not isinstance(n, ast.GeneratorExp) or not any(isinstance(x, (ast.Call, ast.Subscript)) for y in [n.elt] + n.generators[0].ifs +
                                                          n.generators[1:] for x in ast.walk(y)):
            return self.eval(n, st, out)
        fid = self.stack[-1]
        fn = self.lazy.get(n)
        if fn is None:
            body = ast.Expr(ast.Yield(n.elt))
            for i, g in reversed(list(enumerate(n.generators))):
                for c in reversed(g.ifs):
                    body = ast.If(test=c, body=[body], orelse=[])
                body = ast.For(target=g.target, iter=g.iter if i else ast.Name('.0', ast.Load()), body=[body], orelse=[])
            f = ast.FunctionDef(name='<genexp>', args=ast.arguments([], [ast.arg('.0')], None, [], [], None, []), body=[body], decorator_list=[])
            ast.copy_location(f, n)
            for x in ast.walk(f):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr, ast.arg)):
                    ast.copy_location(x, n)
            ast.fix_missing_locations(f)
            func, _, mod = self.frames[fid]
            fn = self.lazy[n] = Func('%s.<genexp>' % mod, f, self.prog.mods[mod], getattr(func, 'cls', None))
        itv = self.lazily(n.generators[0].iter, st, out)
        self.gens.append((fn, fid, {'.0': itv}))
        self.nobj += 1
        self.closures[mk('closure', self.nobj)] = (fn, fid)
        return mk('iter', 'gen', const(len(self.gens) - 1))

    def ex_DictComp(self, n, st, out):
        return self.comp(n, st, out, 'dict')

    def desugar(self, src, names, st, out, node):
        """execute helper statements in a scratch frame chained to the current one"""
        pass

    def gen_search(self, n, st, out, mode, default=None, over=None):
        """any / all / next over a generator expression"""
        fid = self.newframe(None, self.stack[-1], self.frames[self.stack[-1]][2])
        init = {'any': FALSE, 'all': TRUE, 'next': default if default is not None else mk('stopiter')}[mode]
        self.stack.append(fid)
        rl = (fid, '%res')
        st.store[rl] = init
        gens = n.generators
        outer_breaks = []

        def level(i, s, o):
            if i == len(gens):
                if mode == 'next':
                    v = self.eval(n.elt, s, o)
                    s.store[rl] = v
                    o.append(('break', s, None))
                    return None
                c = s.decide(self.cond(n.elt, s, o))
                hit = c if mode == 'any' else neg_b(c)
                hit = s.decide(hit)
                if hit is FALSE:
                    return s
                b = s.copy()
                b.pc = band(s.pc, hit)
                b.store[rl] = TRUE if mode == 'any' else FALSE
                o.append(('break', b, None))
                s.pc = band(s.pc, neg_b(hit))
                return s if s.pc is not FALSE else None
            g = gens[i]
            itv = over if over is not None else self.lazily(g.iter, s, o)

            def body(s2, o2):
                skip = []
                cur = s2
                for cnd in g.ifs:
                    c = cur.decide(self.cond(cnd, cur, o2))
                    if c is not TRUE:
                        sk = cur.copy()
                        sk.pc = band(cur.pc, neg_b(c))
                        if sk.pc is not FALSE:
                            skip.append((sk, NONE))
                        cur.pc = band(cur.pc, c)
                r = None
                if cur.pc is not FALSE:
                    try:
                        r = level(i + 1, cur, o2)
                    except Dead:
                        r = None
                return self.merge_all(([(r, NONE)] if r is not None else []) + skip)[0]
            return self.for_loop(itv, lambda s2, o2, v: self.assign(g.target, v, s2, o2), body, [], s, o, n)
        try:
            if len(gens) > 1:
                return self.opaque('nested generator search', n)
            r = level(0, st, out)
        finally:
            self.stack.pop()
        if r is None:
            raise Dead()
        v = r.store.pop(rl)
        st.become(r)
        return v

    def as_seq(self, st, v):
        """sequence value of an iterable"""
        if v.op == 'iter':
            if v.args[0] == 'keys' and v.args[1].op != 'phi':
                d = self.content(st, v.args[1])
                if d.op == 'dict' and d.args[0] is EMPTYSEQ:
                    return lst([k for k, _ in d.args[1]])
                return mk('keys', d)
            # materialise through a loop
            acc = self.newlist(st, lst([]))
            o = []

            fid = self.newframe(None, self.stack[-1], self.frames[self.stack[-1]][2])

            def bind(s, oo, x):
                s.store[(fid, 'x')] = x

            def body(s, oo):
                self.setcontent(s, acc, cat(self.content(s, acc), lst([s.store[(fid, 'x')]])))
                return s
            self.stack.append(fid)
            try:
                r = self.for_loop(v, bind, body, [], st, o, None)
            finally:
                self.stack.pop()
            if r is not None and r is not st:
                st.become(r)
            return self.content(st, acc)
        if base_ty(v) == 'obj:Element':
            return builtin_model().elem_children(self, st, v)
        f = self.own(v, '__iter__')
        if f is not None:
            return self.as_seq(st, self.call(st, f, [], {}, [], None))
        return self.content(st, v)

    # ----------------------------------------------------------- attributes
    def getattr(self, st, b, name, out, node=None):
        op = b.op
        if op == 'phi':
            return phi(b.args[0], self.getattr(st, b.args[1], name, out, node), self.getattr(st, b.args[2], name, out, node))
        if b is UNDEF:
            return UNDEF
        if op == 'sliceobj' and name in ('start', 'stop', 'step'):
            return b.args[('start', 'stop', 'step').index(name)]
        if op == 'mod':
            dotted = b.args[0]
            if name == '__dict__':
                return mk('gdict', b)
            if dotted in self.prog.mods:
                v = self.module_global(st, dotted, name)
                if v is not None:
                    return v
            sub_ = dotted + '.' + name
            if sub_ in self.prog.mods or any(k.startswith(sub_ + '.') for k in self.prog.mods):
                return mk('mod', sub_)
            if dotted in self.prog.mods:
                return self.opaque('no attribute %s in module %s' % (name, dotted), node)
            return extname(sub_)
        if op == 'extname':
            return extname(b.args[0] + '.' + name)
        if op == 'class':
            v = st.store.get((b, name))
            if v is not None:
                return v
            c = self.classes[b]
            f = c.find(name)
            if f is not None:
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in getattr(f.node, 'decorator_list', ())):
                    return mk_bound(self, f, b)
                return self.functerm(f)
            r = c.find_attr(name)
            if r is not None:
                return self.class_attr(st, r[0], r[1], out)
            if name == '__name__':
                return const(c.name)
            return mk('fld', b, name)
        if op == 'super':
            cls = self.classes[b.args[0]]
            for c in cls.mro()[1:]:
                if name in c.methods:
                    return mk_bound(self, c.methods[name], b.args[1])
            return self.opaque('super().' + name, node)
        v = st.store.get((b, name))
        if v is not None and v is not ABSENT:
            return v
        t = base_ty(b)
        at = builtin_model().NT_FIELDS.get(name)
        if at is not None and (b.op == 'tup' or t is None or not t.startswith('obj:')):
            if b.op == 'tup' and len(at) > 1:
                at = {i for i in at if i < len(b.args)}
            if len(at) == 1:
                return idx(b, const(min(at)))
            return self.opaque('field %s of different named tuples' % name, node)
        if t and t.startswith('obj:'):
            cls = CLASSES_BY_NAME.get(t[4:])
            if cls is not None:
                f = cls.find(name)
                if f is not None:
                    for d in f.node.decorator_list:
                        if isinstance(d, ast.Name) and d.id == 'property':
                            return self.call(st, mk_bound(self, f, b), [], {}, out, node)
                        if isinstance(d, ast.Name) and d.id == 'staticmethod':
                            return self.functerm(f)
                        if isinstance(d, ast.Name) and d.id == 'classmethod':
                            return mk_bound(self, f, self.classterm(cls))
                    return mk_bound(self, f, b)
                r = cls.find_attr(name)
                if r is not None:
                    a = self.class_attr(st, r[0], r[1], out)
                    if a.op == 'property':
                        g = a.args[0]
                        return self.call(st, mk_bound_t(self, g, b), [], {}, out, node)
                    return a
                if name == '__class__':
                    # an instance from outside may be of a subclass
                    return self.classterm(cls) if b.op in ('obj', 'inst') else mk('type', b)
        if name == '__dict__':
            return mk('fld', b, '__dict__')
        if op in ('obj',) and b.args[1] not in ('list', 'dict', 'set'):
            return mk('fld', b, name)
        if op == 'excval':
            return mk('fld', b, name)
        if name == '__class__':
            return mk('type', b)
        m = METHODS.get('list' if op == 'obj' and b.args[1] in ('list', 'set') else 'dict' if op == 'obj' and b.args[1] == 'dict' else
                        (t or '').split(':')[0] if t != 'obj:Element' else t)
        if m is not None and name in m:
            return mk('bmeth', b, name)
        return self.initial(st, (b, name))

    def class_attr(self, st, cls, node, out):
        # evaluated in class scope: method names are visible
        fid = self.newframe(None, None, cls.mod.name)
        s = st
        for n, f in cls.methods.items():
            s.store[(fid, n)] = self.functerm(f)
        for n in cls.attrs:
            if cls.attrs[n] is not node and isinstance(cls.attrs[n], ast.Constant):
                s.store[(fid, n)] = const(cls.attrs[n].value)
        self.stack.append(fid)
        try:
            v = self.eval(node, s, out)
        finally:
            self.stack.pop()
        for k in [k for k in s.store if k[0] == fid]:
            del s.store[k]
        return self.freeze(st, v)

    def setattr(self, st, b, name, v, out, node=None):
        op = b.op
        if op == 'phi':
            c = b.args[0]
            for x, cc in ((b.args[1], c), (b.args[2], neg_b(c))):
                if x.op in ('const', 'undef'):
                    continue
                cur = st.store.get((x, name))
                if cur is None:
                    cur = self.initial(st, (x, name))
                self.setattr(st, x, name, phi(cc, v, cur), out, node)
            return
        t = base_ty(b)
        if t and t.startswith('obj:'):
            cls = CLASSES_BY_NAME.get(t[4:])
            if cls is not None:
                f = cls.find_setter(name)
                if f is not None:
                    self.call(st, mk_bound(self, f, b), [v], {}, out, node)
                    return
                r = cls.find_attr(name)
                if r is not None:
                    a = self.class_attr(st, r[0], r[1], out)
                    if a.op == 'property' and a.args[1] is not NONE:
                        self.call(st, mk_bound_t(self, a.args[1], b), [v], {}, out, node)
                        return
        st.store[(b, name)] = v
        if self.opts.get('store_events'):
            self.ev(st, 'store', [b, const(name), v], node)

    def getattr_dyn(self, st, b, k, out, node, default=None):
        if is_str_const(k):
            if default is None:
                return self.getattr(st, b, k.args[0], out, node)
            v = st.store.get((b, k.args[0]))
            if v is not None:
                return v
        if k.op == 'phi' and any(is_str_const(x) for x in alts(k)):
            return phi(k.args[0], self.getattr_dyn(st, b, k.args[1], out, node, default),
                       self.getattr_dyn(st, b, k.args[2], out, node, default))
        d = st.store.get((b, '@'))
        if d is None:
            d = self.initial(st, (b, '@'))
        r = dget(d, k)
        return r

    def setattr_dyn(self, st, b, k, v, out):
        if is_str_const(k):
            self.setattr(st, b, k.args[0], v, out)
            return
        if k.op == 'phi' and all(is_str_const(x) for x in alts(k)):
            ends = []
            for name, cond in ((k.args[1], k.args[0]), (k.args[2], neg_b(k.args[0]))):
                cond = st.decide(cond)
                if cond is FALSE:
                    continue
                s = st.copy()
                s.pc = band(st.pc, cond)
                self.setattr_dyn(s, b, name, v, out)
                ends.append((s, NONE))
            st.become(self.merge_all(ends)[0])
            return
        if b.op == 'phi':
            for x, cc in ((b.args[1], b.args[0]), (b.args[2], neg_b(b.args[0]))):
                if x.op not in ('const', 'undef'):
                    d = st.store.get((x, '@'), None)
                    if d is None:
                        d = self.initial(st, (x, '@'))
                    if x.op == 'obj' and d is UNDEF:
                        d = mk('fld', x, '@')
                    st.store[(x, '@')] = phi(cc, dset(d, k, v), d)
            return
        d = st.store.get((b, '@'))
        if d is None:
            d = self.initial(st, (b, '@'))
        if b.op == 'obj' and d is UNDEF:
            d = mk('fld', b, '@')
        st.store[(b, '@')] = dset(d, k, v)

    # ----------------------------------------------- functions as values
    def arity(self, f):
        fn = self.closures[f][0] if f.op == 'closure' else self.funcs[f] if f.op == 'func' else None
        if fn is None:
            return 1
        a = fn.node.args
        return len(a.posonlyargs) + len(a.args) - len(a.defaults)

    def fnsyms(self, cls, n):
        return [mk('sym', '$%d' % i, 'obj:' + cls.name if i == 0 and cls is not None else None) for i in range(n)]

    def fnsum(self, st, f, cls, n):
        """what a function does with its n arguments, as a value"""
        if f.op == 'closure':
            late = self.late_names(f)
            if late:
                return mk('late', *late)
        ps = self.fnsyms(cls, n)
        s2 = st.copy()
        s2.pc = TRUE
        s2.cnt = {}
        mark = len(self.trace)
        o = []
        try:
            v = self.rv(s2, self.call(s2, f, ps, {}, o, None))
        except Dead:
            v = UNDEF
        evs = self.trace[mark:]
        del self.trace[mark:]
        if any(not isinstance(e, Ev) for e in evs):
            return self.opaque('loop in a function used as a value')
        w = [mk('w', b, k if isinstance(k, str) else str(k), self.rv(s2, x)) for (b, k), x in s2.store.items()
             if isinstance(b, T) and st.store.get((b, k)) is not x and not (b.op == 'obj' and (b, k) not in st.store)]
        w.sort(key=repr)
        r = [mk('raise', s.pc, x) for k, s, x in o]
        return mk('fnsum', n, tup([mk('ev', e.kind, e.pc, *e.args) for e in evs]), tup(w), tup(r), v)

    def late_names(self, f):
        """variables a function takes from the function around it that may
        change after it was made"""
        fn, fid = self.closures[f]
        outer = self.frames[fid][0]
        if outer is None:
            return []
        a = fn.node.args
        bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
        used = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name):
                    if isinstance(x.ctx, ast.Load):
                        used.add(x.id)
                    else:
                        bound.add(x.id)
        used -= bound
        late = set()

        def scan(n, loops):
            for c in ast.iter_child_nodes(n):
                if c is fn.node:
                    for l in loops:
                        for x in ast.walk(l):
                            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id in used:
                                late.add(x.id)
                    continue
                if isinstance(c, ast.Name) and not isinstance(c.ctx, ast.Load) and c.id in used and c.lineno > fn.node.lineno:
                    late.add(c.id)
                scan(c, loops + [c] if isinstance(c, (ast.For, ast.While)) else loops)
        scan(outer.node, [])
        return sorted(late)

    # ---------------------------------------------------------------- calls
    def ex_Call(self, n, st, out):
        from . import builtin_model as B
        f = n.func
        # syntactic special cases
        if isinstance(f, ast.Name):
            v = self.lookup(st, self.stack[-1], f.id, f)
            if v is UNDEF or v.op == 'noname':
                self.fault(st, out, 'NameError')
            if v.op == 'builtin':
                r = B.call_builtin(self, st, v.args[0], n, out)
                if r is not None:
                    return r
            args, kw = self.eval_args(n, st, out)
            return self.call(st, v, args, kw, out, n)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                b = self.super_value(f.value, st, out)
                m = self.getattr(st, b, f.attr, out, f)
                args, kw = self.eval_args(n, st, out)
                return self.call(st, m, args, kw, out, n)
            b = self.eval(f.value, st, out)
            if f.attr == 'join' and base_ty(b) == 'str' and n.args and isinstance(n.args[0], ast.GeneratorExp):
                pass
            args, kw = self.eval_args(n, st, out)
            return self.call_method(st, b, f.attr, args, kw, out, n)
        v = self.eval(f, st, out)
        args, kw = self.eval_args(n, st, out)
        return self.call(st, v, args, kw, out, n)

    def super_value(self, n, st, out):
        if n.args:
            c = self.eval(n.args[0], st, out)
            s = self.eval(n.args[1], st, out)
            return mk('super', c, s)
        fid = self.stack[-1]
        while fid is not None:
            func, parent, mod = self.frames[fid]
            if isinstance(func, Func) and func.cls is not None and func.node.args.args:
                return mk('super', self.classterm(func.cls), st.store[(fid, func.node.args.args[0].arg)])
            fid = parent
        return self.opaque('super', n)

    def eval_args(self, n, st, out):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.content(st, self.eval(a.value, st, out))
                items = self.known_items(st, v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.eval(a, st, out))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st, out)
            if k.arg is None:
                d = self.content(st, v)
                if d.op == 'dict' and d.args[0] is EMPTYSEQ and all(is_str_const(x) for x, _ in d.args[1]):
                    for x, y in d.args[1]:
                        kw[x.args[0]] = y
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call_method(self, st, b, name, args, kw, out, node):
        from . import builtin_model as B
        if b.op == 'phi':
            a1, a2 = b.args[1], b.args[2]
            k1, k2 = self.method_kind(st, a1, name), self.method_kind(st, a2, name)
            if k1 != k2 or k1 == 'repo' or a1.op == 'obj' or a2.op == 'obj' or \
                    any(x.op in ('mod', 'extname', 'class') for x in (a1, a2)):
                # distribute over the alternatives
                c = st.decide(b.args[0])
                if c is TRUE:
                    return self.call_method(st, a1, name, args, kw, out, node)
                if c is FALSE:
                    return self.call_method(st, a2, name, args, kw, out, node)
                s1 = st.copy()
                s1.pc = band(st.pc, c)
                s2 = st.copy()
                s2.pc = band(st.pc, neg_b(c))
                r1 = r2 = None
                try:
                    r1 = self.call_method(s1, a1, name, args, kw, out, node) if a1 is not NONE else None
                except Dead:
                    pass
                try:
                    r2 = self.call_method(s2, a2, name, args, kw, out, node) if a2 is not NONE else None
                except Dead:
                    pass
                if r1 is None and r2 is None:
                    raise Dead()
                if r1 is None:
                    st.become(s2)
                    return r2
                if r2 is None:
                    st.become(s1)
                    return r1
                st.become(self.merge(c, s1, s2))
                return phi(c, r1, r2)
        if b.op in ('mod', 'extname', 'class', 'super'):
            return self.call(st, self.getattr(st, b, name, out, node), args, kw, out, node)
        t = base_ty(b)
        if t and t.startswith('obj:') and (b, name) not in st.store:
            cls = CLASSES_BY_NAME.get(t[4:])
            if cls is not None:
                v = self.getattr(st, b, name, out, node)
                if v.op == 'bound':
                    return self.call(st, v, args, kw, out, node)
                return self.call(st, v, args, kw, out, node)
        v = st.store.get((b, name))
        if v is not None:
            return self.call(st, v, args, kw, out, node)
        r = B.call_method(self, st, b, name, args, kw, out, node)
        if r is not None:
            return r
        v = self.initial(st, (b, name)) if b.op != 'obj' else mk('fld', b, name)
        return self.call(st, v, args, kw, out, node)

    def method_kind(self, st, b, name):
        t = base_ty(b)
        if t and t.startswith('obj:') and CLASSES_BY_NAME.get(t[4:]) is not None:
            return 'repo'
        return t

    def call(self, st, f, args, kw, out, node):
        from . import builtin_model as B
        self.tick()
        op = f.op
        if op == 'phi':
            c = st.decide(f.args[0])
            if c is TRUE:
                return self.call(st, f.args[1], args, kw, out, node)
            if c is FALSE:
                return self.call(st, f.args[2], args, kw, out, node)
            s1 = st.copy()
            s1.pc = band(st.pc, c)
            s2 = st.copy()
            s2.pc = band(st.pc, neg_b(c))
            r1 = r2 = None
            try:
                r1 = self.call(s1, f.args[1], args, kw, out, node) if f.args[1] is not NONE else None
            except Dead:
                pass
            try:
                r2 = self.call(s2, f.args[2], args, kw, out, node) if f.args[2] is not NONE else None
            except Dead:
                pass
            if r1 is None and r2 is None:
                raise Dead()
            if r1 is None:
                st.become(s2)
                return r2
            if r2 is None:
                st.become(s1)
                return r1
            st.become(self.merge(c, s1, s2))
            return phi(c, r1, r2)
        if op == 'func':
            fn = self.funcs[f]
            return self.call_func(st, fn, None, args, kw, out, node)
        if op == 'bound':
            target, selfv = self.boundtab[f]
            if isinstance(target, Func):
                return self.call_func(st, target, None, [selfv] + list(args), kw, out, node)
            return self.call(st, target, [selfv] + list(args), kw, out, node)
        if op == 'closure':
            fn, fid = self.closures[f]
            return self.call_func(st, fn, fid, args, kw, out, node)
        if op == 'bmeth':
            return self.call_method(st, f.args[0], f.args[1], args, kw, out, node)
        if op == 'partial':
            return self.call(st, f.args[0], list(f.args[1:]) + list(args), kw, out, node)
        if op == 'class':
            return self.instantiate(st, f, args, kw, out, node)
        if op == 'ntcls':
            return B.make_named(self, st, f, args, kw, node)
        if op == 'builtin':
            r = B.call_builtin_values(self, st, f.args[0], args, kw, out, node)
            if r is not None:
                return r
            return mk('call', f.args[0], *[self.rv(st, a) for a in args])
        if op == 'extname':
            return B.call_ext(self, st, f.args[0], args, kw, out, node)
        if op == 'obj' and f.args[1] == 'class':
            return B.instantiate_dyn(self, st, f, args, kw, out, node)
        if f is UNDEF or f is NONE:
            raise Dead()
        m = self.own(f, '__call__')
        if m is not None:
            return self.call(st, m, args, kw, out, node)
        return B.call_value(self, st, f, args, kw, out, node)

    def bind_args(self, st, fn, args, kw, out, node, defmod=None):
        """(param -> value) ordered, with defaults; None when it does not bind"""
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        starred = any(x.op == 'star' for x in args)
        if starred:
            self.opaque('star argument', node)
            args = [x for x in args if x.op != 'star']
        for p, v in zip(params, args):
            vals[p] = v
        rest = args[len(params):]
        if a.vararg:
            vals[a.vararg.arg] = tup(rest)
        elif rest:
            self.fault(st, out, 'TypeError')
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = mkdict(EMPTYSEQ, {const(k): v for k, v in extra.items()})
            vals[a.kwarg.arg] = self.newdict(st, d)
        elif extra:
            self.fault(st, out, 'TypeError')
        defs = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(kwonly, a.kw_defaults) if d is not None]
        for p, d in defs:
            if p not in vals:
                vals[p] = fn.cdefs[p] if fn.cdefs else self.eval_default(st, fn, d, out)
        for p in params + kwonly:
            if p not in vals:
                if starred:
                    vals[p] = mk('opaque', 'missing argument', p)
                else:
                    self.fault(st, out, 'TypeError')
        return vals

    def eval_default(self, st, fn, d, out):
        fid = self.newframe(None, None, fn.mod.name)
        self.stack.append(fid)
        try:
            if fn.cls is not None:
                for n, f in fn.cls.methods.items():
                    st.store[(fid, n)] = self.functerm(f)
            v = self.eval(d, st, out)
        finally:
            self.stack.pop()
            for k in [k for k in st.store if k[0] == fid]:
                del st.store[k]
        if v.op == 'obj' and v.args[1] in ('list', 'dict'):
            # a mutable default is one object shared by all calls
            return mk('fld', mk('func', fn.qual), 'default:' + ast.dump(d))
        return v

    def call_func(self, st, fn, closure_fid, args, kw, out, node):
        inner = len(self.stack) > 1         # the analysed function itself is never a stub
        spec = self.stubs.get(fn.qual) if inner else None
        if spec is None and fn.cls is not None and inner:
            for c in fn.cls.mro():
                spec = self.stubs.get(c.qual + '.' + fn.name)
                if spec is not None:
                    break
        if spec is not None and not (spec.get('skip') and spec['skip'](self)):
            vals = self.bind_args(st, fn, args, kw, out, node)
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            return self.apply_stub(st, fn, spec, [vals[p] for p in names], out, node, names)
        if self.depth > self.MAXDEPTH or self.recursive(fn):
            vals = self.bind_args(st, fn, args, kw, out, node)
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            return self.ext_call(st, out, 'rec:' + fn.name, [vals[p] for p in names], {}, node)
        line = self.prog.doubtful(fn.qual)
        if line is not None:
            return self.opaque('%s is given another meaning on line %s' % (fn.qual, line), node)
        if fn.is_gen and inner:
            return self.call_generator(st, fn, closure_fid, args, kw, out, node)
        vals = self.bind_args(st, fn, args, kw, out, node)
        self.inlined.add(fn.qual)
        fid = self.newframe(fn, closure_fid, fn.mod.name)
        for p, v in vals.items():
            st.store[(fid, p)] = v
        self.stack.append(fid)
        self.depth += 1
        sub_out = []
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.eval(fn.node.body, st, sub_out)
                    r = st
                    sub_out.append(('return', r, v))
                    r = None
                except Dead:
                    r = None
            else:
                base = st.copy()
                r = self.exec_block(fn.node.body, base, sub_out)
        finally:
            self.stack.pop()
            self.depth -= 1
        rets = []
        for k, s, p in sub_out:
            if k == 'return':
                rets.append((s, p))
            elif k == 'raise':
                self.drop_frame(s, fid)
                out.append((k, s, p))
        if r is not None:
            rets.append((r, NONE))
        s, v = self.merge_all(rets)
        if s is None:
            raise Dead()
        self.drop_frame(s, fid)
        st.become(s)
        return v

    def drop_frame(self, st, fid):
        if any(f == fid for _, f in self.closures.values()):
            return
        for k in [k for k in st.store if k[0] == fid]:
            del st.store[k]

    def recursive(self, fn):
        n = 0
        for f in self.stack:
            if self.frames[f][0] is fn:
                n += 1
        return n >= 1

    def call_generator(self, st, fn, closure_fid, args, kw, out, node):
        # a generator used as an iterable: collect what it yields
        vals = self.bind_args(st, fn, args, kw, out, node)
        self.inlined.add(fn.qual)
        if any(isinstance(d, (ast.Name, ast.Attribute)) and 'contextmanager' in ast.dump(d) for d in fn.node.decorator_list):
            self.gens.append((fn, closure_fid, vals))
            return mk('ctxmgr', const(len(self.gens) - 1))
        self.gens.append((fn, closure_fid, vals))
        return mk('iter', 'gen', const(len(self.gens) - 1))

    def gen_loop(self, g, bind, body, orelse, st, out, node):
        """a loop over a generator: its body runs at each yield, inside the
        loops of the generator"""
        if self.gens[g] is None:
            self.opaque('generator consumed twice', node)
            return st
        fn, closure_fid, vals = self.gens[g]
        self.gens[g] = None
        top = self.stack[-1]
        if any(self.frames[f][0] is fn for f in self.stack):
            self.opaque('recursive generator', node)
            return st
        fid = self.newframe(fn, closure_fid, fn.mod.name)
        st = st.copy()
        for p, v in vals.items():
            st.store[(fid, p)] = v
        tag = '@%d' % fid

        def consume(s, o, v):
            o2 = []
            self.stack.append(top)
            try:
                bind(s, o2, v)
                r = self.exec_block(body, s, o2) if isinstance(body, list) else body(s, o2)
            except Dead:
                r = None
            finally:
                self.stack.pop()
            nxt = [(r, NONE)] if r is not None else []
            for k, s2, p in o2:
                if k == 'continue':
                    nxt.append((s2, NONE))
                else:
                    o.append((k + tag, s2, p))
            return self.merge_all(nxt)[0]
        self.consumers[fid] = consume
        self.stack.append(fid)
        self.depth += 1
        sub_out = []
        try:
            r = self.exec_block(fn.node.body, st, sub_out)
        except Dead:
            r = None
        finally:
            self.stack.pop()
            self.depth -= 1
            del self.consumers[fid]
        done = [(r, NONE)] if r is not None else []
        ends = []
        for k, s, p in sub_out:
            self.drop_frame(s, fid)
            if k == 'return':
                done.append((s, NONE))
            elif k == 'raise':
                out.append((k, s, p))
            elif k == 'break' + tag:
                ends.append((s, NONE))
            elif k.endswith(tag):
                out.append((k[:-len(tag)], s, p))
            else:
                out.append((k, s, p))
        cur = self.merge_all(done)[0]
        if cur is not None:
            self.drop_frame(cur, fid)
            if orelse:
                cur = self.exec_block(orelse, cur, out)
        if cur is not None:
            ends.append((cur, NONE))
        return self.merge_all(ends)[0]

    def ex_Yield(self, n, st, out):
        v = self.eval(n.value, st, out) if n.value is not None else NONE
        f = self.consumers.get(self.stack[-1])
        if f is None:
            if self.depth > 1:
                return self.opaque('yield', n)
            # the caller runs here: it sees the module state, and may raise
            # (the state itself is what the caller finds)
            state = [x for k, x in sorted(((k, x) for k, x in st.store.items() if isinstance(k[0], T) and k[0].op == 'mod'),
                                          key=lambda kx: str(kx[0][1]))]
            return self.ext_call(st, out, 'yield', [v] + state, {'raises': ('AnyError',)}, n)
        r = f(st.copy(), out, v)
        if r is None:
            raise Dead()
        st.become(r)
        return NONE

    def ex_YieldFrom(self, n, st, out):
        v = self.eval(n.value, st, out)
        f = self.consumers.get(self.stack[-1])
        if f is None:
            return self.opaque('yield from', n)
        tmp = (self.newframe(None, None, self.frames[self.stack[-1]][2]), 'x')

        def bind(s, o, x):
            s.store[tmp] = x
        r = self.for_loop(v, bind, lambda s, o: f(s, o, s.store[tmp]), [], st, out, n)
        if r is None:
            raise Dead()
        st.become(r)
        return NONE

    def ex_Starred(self, n, st, out):
        return mk('star', self.eval(n.value, st, out))

    def ex_Slice(self, n, st, out):
        return mk('sliceobj', *[self.eval(x, st, out) if x else NONE for x in (n.lower, n.upper, n.step)])

    def apply_stub(self, st, fn, spec, vals, out, node, names):
        if 'fn' in spec:
            return spec['fn'](self, st, vals, out, node)
        kind = spec.get('name') or fn.name
        if 'strip' in spec:
            # text holding one character per byte and the bytes themselves are the same argument
            vals = [(self.rv(st, v).args[0] if i in spec['strip'] and self.rv(st, v).op in ('b2s', 's2b') else v)
                    for i, v in enumerate(vals)]
        if spec.get('pure'):
            r = mk('call', kind, *[self.rv(st, v) for v in vals])
            if spec.get('ret'):
                CALL_TYPES[kind] = spec['ret']
                r._ty = None
            return r
        # mutable arguments are passed by reference
        fields = sorted(set(spec.get('mods', ())) | self.prog.stored_fields(fn)) if vals and fn.cls is not None and not spec.get('same') else sorted(spec.get('mods', ()))

        def havoc(s, res):
            base = vals[0]
            for f in fields:
                p = mk('post', res, f)
                EXT_TYPES[p] = field_type((base_ty(base) or 'obj:?')[4:], f)
                p._ty = None
                s.store[(base, f)] = p
                # container content is unknown again as well
                s.store.pop((base, '$'), None)
        state = ()
        if vals and fn.cls is not None and vals[0].op != 'obj':
            from .builtin_model import reify
            base = vals[0]
            state = tuple((f, reify(self, st, st.store[base, f]) if (base, f) in st.store else self.initial(st, (base, f)))
                          for f in sorted(self.prog.read_fields(fn)))
        mark = len(self.trace)
        res = self.ext_call(st, out, kind, vals, spec, node, havoc if fields else None)
        self.trace[mark].state = state
        for f, v in spec.get('sets', {}).items():
            st.store[(vals[0], f)] = v
        if 'retval' in spec:
            return spec['retval']
        if 'ret' not in spec and not fn.is_gen and not isinstance(fn.node, ast.Lambda) and \
                not any(isinstance(n, ast.Return) and n.value is not None for n in walk_scope(fn.node)):
            return NONE
        return res

    def instantiate(self, st, f, args, kw, out, node):
        cls = self.classes[f]
        if self.is_exc_class(cls):
            return mk('excval', cls.name, NONE)
        spec = self.stubs.get(cls.qual)
        if spec is not None:
            init = cls.find('__init__')
            vals = self.bind_args(st, init, [NONE] + list(args), kw, out, node)
            a = init.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
            spec = dict(spec)
            spec.setdefault('ret', 'obj:' + cls.name)
            spec.setdefault('name', cls.name)
            if spec.get('pure'):
                r = mk('call', spec['name'], *[self.rv(st, vals[p]) for p in names])
                EXT_TYPES[r] = spec['ret']
                return r
            return self.ext_call(st, out, spec['name'], [vals[p] for p in names], spec, node)
        o = self.alloc(st, cls.name)
        init = cls.find('__init__')
        if init is not None:
            self.call_func(st, init, None, [o] + list(args), kw, out, node)
        elif args or kw:
            self.opaque('constructor arguments for ' + cls.name, node)
        return o

    def is_exc_class(self, cls):
        return self.exc_isa(cls.name, 'Exception') if cls.name not in BUILTIN_EXC else True


def mk_bound(run, func, selfv):
    ft = run.functerm(func)
    t = mk('bound', ft, selfv)
    run.boundtab[t] = (func, selfv)
    return t


def mk_bound_t(run, fterm, selfv):
    if fterm.op == 'func':
        return mk_bound(run, run.funcs[fterm], selfv)
    t = mk('bound', fterm, selfv)
    run.boundtab[t] = (fterm, selfv)
    return t


def dget_nn(d, k):
    return strip_none(dget(d, k))


def strip_none(v):
    """value of d[k]: the lookup succeeded"""
    if v.op == 'phi':
        if v.args[2] is NONE:
            return strip_none(v.args[1])
        if v.args[1] is NONE:
            return strip_none(v.args[2])
        a, b = strip_none(v.args[1]), strip_none(v.args[2])
        return phi(v.args[0], a, b)
    return v


def s2b_deep(d):
    if d.op == 'phi':
        return phi(d.args[0], s2b_deep(d.args[1]), s2b_deep(d.args[2]))
    if d is EMPTYSEQ:
        return d
    return s2b(d)


def b2s_deep(d):
    if d.op == 'phi':
        return phi(d.args[0], b2s_deep(d.args[1]), b2s_deep(d.args[2]))
    if d is EMPTYSEQ:
        return d
    return b2s(d)
