"""Model of the Python builtins and library calls the analysed tree uses."""
import ast
import re
import struct

from .terms import *
from . import terms as TM
from . import interp as I
from .interp import Dead

# --------------------------------------------------------------- externals
# dotted name -> dict(pure / ret / raises).  Everything listed as not pure is
# an ordered, observable effect on the outside world.
EXT = {
    'socket.socket': {'ret': 'obj:socket'},
    'socket.create_connection': {'ret': 'obj:socket', 'raises': ('OSError',)},
    'serial.Serial': {'ret': 'obj:serial', 'raises': ('AnyError',)},
    'ssl.create_default_context': {'ret': 'obj:sslctx'},
    'ssl.SSLContext': {'ret': 'obj:sslctx'},
    'sunspec.core.test.fake.serial.Serial': {'ret': 'obj:serial', 'raises': ('AnyError',)},
    'sunspec.core.test.fake.socket.socket': {'ret': 'obj:socket'},
    'time.sleep': {},
    'time.time': {'ret': 'num'},
    'open': {'ret': 'obj:file', 'raises': ('OSError',)},
    'io.open': {'ret': 'obj:file', 'raises': ('OSError',)},
    'zipfile.ZipFile': {'ret': 'obj:zipfile', 'raises': ('OSError',)},
    'xml.etree.ElementTree.parse': {'ret': 'obj:ElementTree', 'raises': ('AnyError',)},
    'xml.etree.ElementTree.dump': {},
    'sys.exit': {'raises': ('SystemExit',)},
    'os.remove': {'raises': ('OSError',)},
    'os.getcwd': {'ret': 'str', 'pure': True},
}
PURE = {
    'os.path.join', 'os.path.dirname', 'os.path.abspath', 'os.path.exists', 'os.path.isabs', 'os.path.isfile', 'os.path.basename',
    'os.path.normpath', 'os.path.isdir', 'os.fspath', 'os.path.realpath', 'os.path.split', 'os.path.splitext',
    'base64.b16decode', 'binascii.unhexlify', 'binascii.hexlify', 'time.strftime', 'time.gmtime', 'time.localtime', 'math.isnan',
    'math.floor', 'math.ceil', 'math.log10', 'math.fabs', 'calendar.timegm', 'time.strptime', 'time.mktime',
    'operator.itemgetter', 'operator.attrgetter', 're.match', 're.compile', 'os.environ.get', 'codecs.decode', 'codecs.encode',
}

# methods of external objects: type -> {method: spec}
METH = {
    'socket': {'settimeout': {}, 'connect': {'raises': ('AnyError',)}, 'sendall': {'raises': ('AnyError',)},
               'send': {'raises': ('AnyError',), 'ret': 'int'},
               'recv': {'ret': 'bytes', 'raises': ('AnyError', 'socket.timeout')}, 'close': {}, 'setsockopt': {}, 'shutdown': {'raises': ('OSError',)},
               'setblocking': {}},
    'serial': {'read': {'ret': 'bytes', 'raises': ('AnyError',)}, 'write': {'raises': ('AnyError',)},
               'flushInput': {}, 'reset_input_buffer': {}, 'close': {'raises': ('AnyError',)},
               'open': {'raises': ('AnyError',)}, 'isOpen': {'ret': 'bool'}, 'flush': {}, 'flushOutput': {}},
    'sslctx': {'load_cert_chain': {'raises': ('AnyError',)}, 'wrap_socket': {'ret': 'obj:socket', 'raises': ('AnyError',)},
               'load_verify_locations': {'raises': ('AnyError',)}},
    'file': {'read': {'ret': 'str', 'raises': ('AnyError',)}, 'write': {'raises': ('AnyError',)}, 'close': {}, 'flush': {}},
    'zipfile': {'read': {'ret': 'bytes', 'raises': ('AnyError',)}, 'getinfo': {'pure': True}, 'close': {},
                'open': {'ret': 'obj:file', 'raises': ('AnyError',)}, 'namelist': {'ret': 'list:str', 'pure': True}},
    'ElementTree': {'write': {'raises': ('AnyError',)}, 'getroot': {'ret': 'obj:Element', 'pure': True}},
    'ModbusDevice': {'read': {'ret': 'bytes', 'raises': ('ModbusClientError', 'AnyError')},
                     'write': {'raises': ('ModbusClientError', 'AnyError')}, 'close': {'raises': ('AnyError',)},
                     'connect': {'raises': ('ModbusClientError', 'AnyError')}, 'disconnect': {}},
    'OptionParser': {'add_option': {}, 'parse_args': {'ret': 'tuple'}, 'print_help': {}, 'error': {'raises': ('SystemExit',)}},
}
for _k, _m in METH.items():
    for _n in _m:
        pass


def pure(run, st, name, args, ret=None):
    t = mk('call', name, *[run.rv(st, a) for a in args])
    if ret is None:
        ret = I.CALL_TYPES.get(name)
    if ret is not None:
        I.EXT_TYPES[t] = ret
        t._ty = None
    return t


LATIN = {'latin1', 'iso88591', 'l1', '88591', 'cp819', 'latin'}
ASCII = {'ascii', 'usascii', '646'}
UTF8 = {'utf8', 'u8', 'utf', 'cp65001'}


def is_ascii(t):
    """text or bytes known to hold characters below 0x80 only"""
    if is_const(t):
        v = t.args[0]
        return isinstance(v, (str, bytes)) and v.isascii()
    if t.op in ('s2b', 'b2s'):
        return is_ascii(t.args[0])
    if t.op == 'cat':
        return all(is_ascii(x) for x in t.args)
    if t.op == 'phi':
        return is_ascii(t.args[1]) and is_ascii(t.args[2])
    if t is EMPTYSEQ:
        return True
    if t.op == 'fmt':
        return ty(t.args[1]) in ('int', 'num', 'bool', 'int?', 'num?')
    if t.op == 'ext':
        return 'tostring' in str(t.args[0])
    return t.op == 'call' and t.args[0] in ('hexstr', 'time.strftime', 'hex')


def codec(run, st, v, args, kw, encode):
    """text to bytes or back; the encodings that map every character of v to
    the byte of the same number are one and the same"""
    enc = args[0] if args else kw.get('encoding', const('utf-8'))
    err = args[1] if len(args) > 1 else kw.get('errors', const('strict'))
    f = s2b if encode else b2s
    if not (is_const(enc) and isinstance(enc.args[0], str) and is_const(err)):
        return pure(run, st, 'encode' if encode else 'decode', [v, enc, err], 'bytes' if encode else 'str')
    name = re.sub('[^a-z0-9]', '', enc.args[0].lower())
    kind = 'latin-1' if name in LATIN else 'ascii' if name in ASCII else 'utf-8' if name in UTF8 else name
    if v.op == 'phi' and kind != 'latin-1':
        return phi(v.args[0], codec(run, st, v.args[1], args, kw, encode), codec(run, st, v.args[2], args, kw, encode))
    if is_ascii(v) and kind in ('latin-1', 'ascii', 'utf-8'):
        return f(v)
    if kind == 'latin-1' and (err.args[0] == 'strict' or not encode):
        return f(v)
    return pure(run, st, 'encode' if encode else 'decode', [v, const(kind), err], 'bytes' if encode else 'str')


# ---------------------------------------------------------------- builtins

def call_builtin(run, st, name, n, out):
    """calls that need their argument syntax"""
    a = n.args
    if name in ('any', 'all') and len(a) == 1 and isinstance(a[0], (ast.GeneratorExp, ast.ListComp)) and len(a[0].generators) == 1:
        return run.gen_search(a[0], st, out, name)
    if name == 'next' and a and isinstance(a[0], ast.GeneratorExp) and len(a[0].generators) == 1:
        d = run.eval(a[1], st, out) if len(a) > 1 else None
        return run.gen_search(a[0], st, out, 'next', d)
    if name == 'next' and a and isinstance(a[0], (ast.Name, ast.Call)):
        v = run.eval(a[0], st, out)
        if v.op == 'iter' and v.args[0] == 'gen':
            d = run.eval(a[1], st, out) if len(a) > 1 else None
            x = lambda c: ast.copy_location(ast.Name('%item', c), a[0])
            g = ast.GeneratorExp(x(ast.Load()), [ast.comprehension(x(ast.Store()), a[0], [], 0)])
            return run.gen_search(ast.copy_location(g, n), st, out, 'next', d, v)
        rest = [run.eval(y, st, out) for y in a[1:]]
        return call_builtin_values(run, st, name, [v] + rest, {}, out, n)
    if name == 'super':
        return run.super_value(n, st, out)
    if name == 'locals':
        return run.opaque('locals()', n)
    if name == 'globals':
        return mk('gdict', mk('mod', run.frames[run.stack[-1]][2]))
    return None


def num_or(run, st, out, v, kind):
    """int(v) / float(v)"""
    if v.op == 'phi':
        return phi(v.args[0], num_or(run, st, out, v.args[1], kind), num_or(run, st, out, v.args[2], kind))
    t = ty(v)
    if is_const(v):
        try:
            return const((int if kind == 'int' else float)(v.args[0]))
        except (ValueError, TypeError):
            run.implicit(st, out, 'ValueError', TRUE)
    if t == 'bool':
        return phi(v, const(1), const(0))
    if kind == 'int':
        if t in ('int', 'num'):
            return floor(v)
    else:
        if t == 'num':
            return v
        if t == 'int':
            return mk('call', 'float', v)
    if t not in ('int', 'num'):
        run.implicit(st, out, 'ValueError', mk('exc', mk('call', kind, v), 'ValueError'))
        run.implicit(st, out, 'TypeError', eq(v, NONE) if is_optional(v) else FALSE)
    if kind == 'int':
        r = floor(v)
        return r
    return pure(run, st, 'float', [v], 'num')


def call_builtin_values(run, st, name, args, kw, out, node):
    c = lambda x: run.content(st, x)
    if name == 'len':
        if args[0].op == 'iter':
            return mklen(run.as_seq(st, args[0]))
        v = args[0]
        t = base_ty(v)
        if t and t.startswith('obj:'):
            cls = I.CLASSES_BY_NAME.get(t[4:])
            if cls is not None and cls.find('__len__') is not None:
                return run.call(st, I.mk_bound(run, cls.find('__len__'), v), [], {}, out, node)
            if t == 'obj:Element':
                return mklen(elem_children(run, st, v))
        return mklen(c(v))
    if name in ('int', 'long'):
        if not args:
            return const(0)
        if len(args) > 1 or 'base' in kw:
            b = args[1] if len(args) > 1 else kw['base']
            if is_const(args[0]) and is_const(b):
                try:
                    return const(int(args[0].args[0], b.args[0]))
                except (ValueError, TypeError):
                    pass
            r = pure(run, st, 'int', [args[0], b], 'int')
            run.implicit(st, out, 'ValueError', mk('exc', r, 'ValueError'))
            run.implicit(st, out, 'TypeError', neg_b(mk('isinst', args[0], mk('builtin', 'str'), False)) if ty(args[0]) is None else
                         (TRUE if ty(args[0]) in ('int', 'num') else FALSE))
            return r
        return num_or(run, st, out, args[0], 'int')
    if name == 'float':
        return num_or(run, st, out, args[0], 'float') if args else const(0.0)
    if name == 'str':
        if not args:
            return const('')
        if len(args) > 1 or kw:
            return codec(run, st, c(args[0]), args[1:], kw, False)
        return run.tostr(st, args[0])
    if name == 'repr':
        return pure(run, st, 'repr', args, 'str')
    if name == 'bool':
        v = args[0] if args else FALSE
        return run.truthof(st, v)
    if name in ('bytes', 'bytearray'):
        if not args:
            return const(b'')
        v = c(args[0])
        t = base_ty(args[0]) or base_ty(v)
        if t == 'str' or t == 'str?':
            return codec(run, st, v, args[1:], kw, True)
        if t == 'bytes':
            return v
        if t == 'int':
            return TM.padto(v, const(b''))
        if v.op in ('lst', 'tup'):
            return cat(*[mk('enc', 'B', x) if not is_const(x) else const(bytes([x.args[0]])) for x in v.args]) if v.args else const(b'')
        if v.op == 'phi':
            return phi(v.args[0], call_builtin_values(run, st, name, [v.args[1]], kw, out, node),
                       call_builtin_values(run, st, name, [v.args[2]], kw, out, node))
        if t and t.startswith('list'):
            return pure(run, st, 'bytes', [v], 'bytes')
        if len(args) > 1 or kw:
            return codec(run, st, v, args[1:], kw, True)
        return pure(run, st, 'bytes', [v], 'bytes')
    if name == 'memoryview':
        return c(args[0])
    if name == 'ord':
        v = c(args[0])
        if v.op == 'chr':
            return v.args[0]
        if base_ty(v) == 'bytes':
            return dec('B', v, const(0))
        if v.op == 'idx' and v.args[0].op == 'b2s':
            return dec('B', v.args[0].args[0], v.args[1])
        if v.op == 'b2s':
            return dec('B', v.args[0], const(0))
        if is_str_const(v) and len(v.args[0]) == 1:
            return const(ord(v.args[0]))
        return mk('ord', v)
    if name == 'chr':
        v = args[0]
        if v.op == 'ord':
            return v.args[0]
        if is_num_const(v):
            return const(chr(v.args[0]))
        return mk('chr', v)
    if name == 'abs':
        if is_num_const(args[0]):
            return const(abs(args[0].args[0]))
        return pure(run, st, 'abs', args, 'num')
    if name == 'round':
        return pure(run, st, 'round', args, 'int' if len(args) == 1 else 'num')
    if name in ('min', 'max'):
        xs = args
        if len(args) == 1:
            s = run.as_seq(st, args[0])
            if s.op in ('lst', 'tup') and s.args:
                xs = list(s.args)
            else:
                return pure(run, st, name, [s], 'num')
        r = xs[0]
        for x in xs[1:]:
            r = phi(lt(x, r) if name == 'min' else lt(r, x), x, r)
        return r
    if name == 'range' or name == 'xrange':
        a, b, s = const(0), None, const(1)
        if len(args) == 1:
            b = args[0]
        else:
            a, b = args[0], args[1]
            if len(args) > 2:
                s = args[2]
        return mk('iter', 'range', a, b, s)
    if name == 'enumerate':
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        return mk('iter', 'enumerate', args[0], start)
    if name == 'zip':
        return mk('iter', 'zip', *args)
    if name == 'reversed':
        return mk('iter', 'rev', args[0])
    if name == 'iter' and len(args) == 1:
        return args[0]
    if name in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            return run.newlist(st, lst([])) if name != 'tuple' else tup([])
        s = run.as_seq(st, args[0])
        if base_ty(s) == 'str' and not is_const(s):
            s = mk('call', 'chars', s)
        if s.op == 'tup':
            s = lst(s.args)
        if s.op == 'dict' or (base_ty(s) or '').startswith('dict'):
            s = run.as_seq(st, mk('iter', 'keys', args[0]))
        if name == 'tuple':
            return tup(s.args) if s.op == 'lst' else s
        return run.newlist(st, s)
    if name == 'dict':
        d = mkdict(EMPTYSEQ, {})
        if args:
            d = c(args[0])
            if d.op == 'lst' and all(x.op == 'tup' and len(x.args) == 2 for x in d.args):
                pairs = d.args
                d = mkdict(EMPTYSEQ, {})
                for p in pairs:
                    d = dset(d, p.args[0], p.args[1])
            elif not any(x.op == 'dict' for x in I.alts(d)) and not (base_ty(d) or base_ty(args[0]) or '').startswith('dict'):
                # pairs
                acc = run.newdict(st, mkdict(EMPTYSEQ, {}))
                fid = _loop_frame(run)

                def bind(s, o, x):
                    s.store[(fid, 'x')] = x

                def body(s, o):
                    x = s.store[(fid, 'x')]
                    run.setcontent(s, acc, dset(run.content(s, acc), I.idx(x, const(0)), I.idx(x, const(1))))
                    return s
                run.stack.append(fid)
                try:
                    r = run.for_loop(args[0], bind, body, [], st, out, node)
                finally:
                    run.stack.pop()
                if r is None:
                    raise Dead()
                if r is not st:
                    st.become(r)
                d = c(acc)
        for k, v in kw.items():
            d = dset(d, const(k), v)
        return run.newdict(st, d)
    if name == 'sum':
        s = run.as_seq(st, args[0])
        start = args[1] if len(args) > 1 else const(0)
        if s.op in ('lst', 'tup'):
            r = start
            for x in s.args:
                r = add(r, x)
            return r
        # accumulate through the loop machinery
        return reduce_seq(run, st, args[0], start, lambda s_, acc, x: add(acc, x), out, node)
    if name == 'sorted':
        s = run.as_seq(st, args[0])
        if s.op in ('lst', 'tup') and all(is_const(x) for x in s.args) and not kw:
            try:
                return run.newlist(st, lst([const(v) for v in sorted(x.args[0] for x in s.args)]))
            except TypeError:
                pass
        return pure(run, st, 'sorted', [s] + [v for _, v in sorted(kw.items())])
    if name in ('map', 'filter') and len(args) == 2:
        return map_filter(run, st, name, args[0], args[1], out, node)
    if name in ('any', 'all'):
        return reduce_any(run, st, name, args[0], out, node)
    if name == 'next':
        s = run.as_seq(st, args[0])
        n = mklen(s)
        if len(args) > 1:
            return phi(le(n, const(0)), args[1], idx(s, const(0)))
        return idx(s, const(0))
    if name == 'isinstance':
        return run.type_is(args[0], args[1], False)
    if name == 'issubclass':
        return mk('isinst', args[0], args[1], 'sub')
    if name == 'type':
        if len(args) == 1:
            v = args[0]
            if v.op in ('obj',) and v.args[1] not in ('list', 'dict', 'set'):
                k = I.CLASSES_BY_NAME.get(v.args[1])
                if k is not None:
                    return run.classterm(k)
            return mk('type', v)
        return make_class(run, st, args, out, node)
    if name == 'property':
        a = list(args) + [NONE] * (4 - len(args))
        for i, k in enumerate(('fget', 'fset', 'fdel', 'doc')):
            if k in kw:
                a[i] = kw[k]
        return mk('property', a[0], a[1])
    if name in ('staticmethod', 'classmethod'):
        return args[0]
    if name == 'hasattr':
        b, k = args[0], args[1]
        if is_str_const(k):
            t = base_ty(b)
            if (b, k.args[0]) in st.store:
                return TRUE
            if t and t.startswith('obj:') and (t[4:], k.args[0]) in I.FIELD_TYPES:
                return TRUE
        return pure(run, st, 'hasattr', args, 'bool')
    if name == 'getattr':
        return run.getattr_dyn(st, args[0], args[1], out, node, args[2] if len(args) > 2 else None)
    if name == 'setattr':
        if args[2].op in ('property', 'closure', 'func', 'partial'):
            set_class_attr(run, st, args[0], args[1], args[2], out)
        else:
            run.setattr_dyn(st, args[0], args[1], args[2], out)
        return NONE
    if name == 'vars' and len(args) == 1:
        return mk('fld', args[0], '__dict__')
    if name == 'print':
        run.ev(st, 'print', [run.rv(st, a) for a in args], node)
        return NONE
    if name == 'open':
        mode = kw.get('mode', args[1] if len(args) > 1 else const('r'))
        a = [args[0], mode]
        r = run.ext_call(st, out, 'open', a, EXT['open'], node)
        if is_str_const(mode):
            I.EXT_TYPES[r] = 'obj:file'
        return r
    if name == 'callable':
        return pure(run, st, 'callable', args, 'bool')
    if name == 'hex':
        return pure(run, st, 'hex', args, 'str')
    if name == 'format':
        return run.fmt(st, args[1].args[0] if len(args) > 1 and is_str_const(args[1]) else '', args[0])
    if name == 'divmod':
        q = floor(div(args[0], args[1]))
        return tup([q, run.binop(ast.Mod(), args[0], args[1], st, node)])
    if name == 'pow':
        return run.binop(ast.Pow(), args[0], args[1], st, node)
    if name == 'id':
        return pure(run, st, 'id', args, 'int')
    if name == 'slice':
        return mk('sliceobj', *(list(args) + [NONE] if len(args) == 2 else [NONE] + list(args) + [NONE] if len(args) == 1 else args))
    if name == 'object':
        return run.alloc(st, 'object')
    if name == 'fspath':
        return args[0]
    if name in I.BUILTIN_EXC:
        return mk('excval', {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(name, name), NONE)
    if name == 'input':
        return run.ext_call(st, out, 'input', args, {'ret': 'str'}, node)
    return None


def _loop_frame(run):
    return run.newframe(None, run.stack[-1], run.frames[run.stack[-1]][2])


def reduce_seq(run, st, it, init, fn, out, node):
    fid = _loop_frame(run)
    run.stack.append(fid)
    st.store[(fid, 'acc')] = init

    def bind(s, o, x):
        s.store[(fid, 'x')] = x

    def body(s, o):
        s.store[(fid, 'acc')] = fn(s, s.store[(fid, 'acc')], s.store[(fid, 'x')])
        return s
    try:
        r = run.for_loop(it, bind, body, [], st, out, node)
    finally:
        run.stack.pop()
    if r is None:
        raise Dead()
    if r is not st:
        st.become(r)
    return st.store.pop((fid, 'acc'))


def reduce_any(run, st, mode, it, out, node):
    s = run.content(st, it) if it.op != 'iter' else it
    if s.op in ('lst', 'tup'):
        cs = [run.truthof(st, x) for x in s.args]
        return bor(*cs) if mode == 'any' else band(*cs)
    fid = _loop_frame(run)
    run.stack.append(fid)
    st.store[(fid, 'acc')] = FALSE if mode == 'any' else TRUE

    def bind(s, o, x):
        s.store[(fid, 'x')] = x

    def body(s, o):
        c = run.truthof(s, s.store[(fid, 'x')])
        hit = s.decide(c if mode == 'any' else neg_b(c))
        if hit is FALSE:
            return s
        b = s.copy()
        b.pc = band(s.pc, hit)
        b.store[(fid, 'acc')] = TRUE if mode == 'any' else FALSE
        o.append(('break', b, None))
        s.pc = band(s.pc, neg_b(hit))
        return s if s.pc is not FALSE else None
    try:
        r = run.for_loop(it, bind, body, [], st, out, node)
    finally:
        run.stack.pop()
    if r is None:
        raise Dead()
    if r is not st:
        st.become(r)
    return st.store.pop((fid, 'acc'))


def map_filter(run, st, mode, f, it, out, node):
    acc = run.newlist(st, lst([]))
    fid = _loop_frame(run)
    run.stack.append(fid)

    def bind(s, o, x):
        s.store[(fid, 'x')] = x

    def body(s, o):
        x = s.store[(fid, 'x')]
        if mode == 'map':
            v = run.call(s, f, [x], {}, o, node)
            run.setcontent(s, acc, cat(run.content(s, acc), lst([v])))
            return s
        c = run.truthof(s, run.call(s, f, [x], {}, o, node) if f is not NONE else x)
        run.setcontent(s, acc, phi(c, cat(run.content(s, acc), lst([x])), run.content(s, acc)))
        return s
    try:
        r = run.for_loop(it, bind, body, [], st, out, node)
    finally:
        run.stack.pop()
    if r is None:
        raise Dead()
    if r is not st:
        st.become(r)
    return acc


# ------------------------------------------------------------------ struct

def parse_fmt(fmt):
    """struct format term -> list of (code, count-term or None) or None"""
    parts = fmt.args if fmt.op == 'cat' else (fmt,)
    toks = []
    pend = None
    first = True
    for p in parts:
        if is_str_const(p):
            s = p.args[0]
            i = 0
            if first:
                if s[:1] in '>!':
                    i = 1
                elif s[:1] in '<@=':
                    return None
                else:
                    # native order: only 's' and 'B' are order free
                    if any(ch in s for ch in 'HhIiQqLlfd'):
                        return None
            first = False
            while i < len(s):
                j = i
                while j < len(s) and s[j].isdigit():
                    j += 1
                if j > i:
                    if pend is not None:
                        return None
                    pend = const(int(s[i:j]))
                    i = j
                    continue
                ch = s[i]
                i += 1
                if ch == ' ':
                    continue
                if ch == 'L':
                    ch = 'I'
                if ch == 'l':
                    ch = 'i'
                toks.append((ch, pend))
                pend = None
            continue
        first = False
        if p.op in ('str', 'phi'):
            if pend is not None:
                return None
            pend = unstr(p)
            if pend is None:
                return None
            continue
        if p.op == 'fmt' and p.args[0] == 'd':
            pend = p.args[1]
            continue
        return None
    if pend is not None:
        return None
    out = []
    for ch, n in toks:
        if ch == 's':
            out.append(('s', n if n is not None else const(1)))
        elif ch in 'BbHhIiQqfdx':
            if n is None:
                out.append((ch, None))
            elif is_num_const(n):
                out.extend([(ch, None)] * n.args[0])
            else:
                return None
        else:
            return None
    return out


def unstr(p):
    """the number a decimal text was made of"""
    if p.op == 'str':
        return p.args[0]
    if p.op == 'phi':
        a, b = unstr(p.args[1]), unstr(p.args[2])
        return None if a is None or b is None else phi(p.args[0], a, b)
    if is_str_const(p) and p.args[0].isdigit():
        return const(int(p.args[0]))
    return None


def struct_pack(run, st, fmt, args, out):
    if fmt.op == 'phi':
        return phi(fmt.args[0], struct_pack(run, st, fmt.args[1], args, out), struct_pack(run, st, fmt.args[2], args, out))
    toks = parse_fmt(fmt)
    if toks is None or sum(1 for t, _ in toks if t != 'x') != len(args):
        return pure(run, st, 'struct.pack', [fmt] + list(args), 'bytes')
    parts = []
    i = 0
    for ch, n in toks:
        if ch == 'x':
            parts.append(const(b'\0'))
            continue
        v = args[i]
        i += 1
        if ch == 's':
            v = run.content(st, v)
            parts.append(TM.padto(n, v))
        elif is_num_const(v):
            try:
                parts.append(const(struct.pack('>' + ch, v.args[0])))
            except struct.error:
                run.implicit(st, out, 'struct.error', TRUE)
                parts.append(mk('enc', ch, v))
        else:
            parts.append(mk('enc', ch, v))
    run.implicit(st, out, 'struct.error', mk('exc', cat(*parts), 'struct.error') if any(not is_const(p) for p in parts) else FALSE)
    return cat(*parts) if parts else const(b'')


def _pack_later(kids):
    """a packing whose format became known"""
    toks = parse_fmt(kids[0])
    if toks is None or len(toks) != len(kids) - 1 or any(t in 'xs' for t, _ in toks):
        return mk('call', 'struct.pack', *kids)
    return cat(*[mk('enc', ch, v) for (ch, _), v in zip(toks, kids[1:])])


TM.pack_later = _pack_later


def struct_unpack(run, st, fmt, data, off, out, exact=True):
    toks = parse_fmt(fmt)
    if toks is None:
        return pure(run, st, 'struct.unpack', [fmt, data, off], 'tuple')
    data = run.content(st, data)
    vals = []
    pos = off
    for ch, n in toks:
        if ch == 'x':
            pos = add(pos, const(1))
        elif ch == 's':
            e = add(pos, n)
            vals.append(slc(data, pos, NONE if exact and (ch, n) is toks[-1] and False else e))
            pos = e
        else:
            vals.append(dec(ch, data, pos))
            pos = add(pos, const(TM.CODE_SIZE[ch]))
    if exact:
        if len(toks) == 1 and toks[0][0] == 's':
            vals = [data]
        run.implicit(st, out, 'struct.error', neg_b(eq(mklen(data), pos)))
    return tup(vals)


# ----------------------------------------------------------------- modules

NT_FIELDS = {}      # field of a named tuple -> where it may be


def make_named(run, st, f, args, kw, node):
    names = [x.args[0] for x in f.args[1].args]
    vals = dict(zip(names[len(names) - len(f.args[2].args):], f.args[2].args))
    if any(a.op == 'star' for a in args) or len(args) > len(names) or not set(kw) <= set(names):
        run.opaque('named tuple made in an unmodelled way', node)
    vals.update(zip(names, args))
    vals.update(kw)
    if set(vals) != set(names):
        raise I.Dead()
    return tup([vals[x] for x in names])


def call_ext(run, st, dotted, args, kw, out, node):
    dotted = I.ALIASES.get(dotted, dotted)
    for a, b in (('ElementTree.', 'xml.etree.ElementTree.'), ('ET.', 'xml.etree.ElementTree.'),
                 ('elementtree.ElementTree.', 'xml.etree.ElementTree.')):
        if dotted.startswith(a):
            dotted = b + dotted[len(a):]
    stub = run.ext.get(dotted)
    if stub is not None:
        return stub(run, st, args, kw, out, node)
    if dotted == 'collections.namedtuple' and len(args) == 2 and is_str_const(args[0]) and set(kw) <= {'defaults'}:
        names = args[1].args[0].replace(',', ' ').split() if is_str_const(args[1]) else None
        if names is None:
            v = run.as_seq(st, args[1])
            if v.op in ('lst', 'tup') and all(is_str_const(x) for x in v.args):
                names = [x.args[0] for x in v.args]
        d = run.as_seq(st, kw['defaults']) if 'defaults' in kw else tup([])
        if names is not None and d.op in ('lst', 'tup'):
            for i, x in enumerate(names):
                NT_FIELDS.setdefault(x, set()).add(i)
            return mk('ntcls', args[0], tup([const(x) for x in names]), tup(d.args))
    if dotted == 'struct.pack':
        return struct_pack(run, st, args[0], args[1:], out)
    if dotted == 'struct.unpack':
        return struct_unpack(run, st, args[0], args[1], const(0), out)
    if dotted == 'struct.unpack_from':
        return struct_unpack(run, st, args[0], args[1], args[2] if len(args) > 2 else kw.get('offset', const(0)), out, False)
    if dotted == 'struct.calcsize':
        if args[0].op == 'phi':
            f = args[0]
            return phi(f.args[0], call_ext(run, st, dotted, [f.args[1]], kw, out, node), call_ext(run, st, dotted, [f.args[2]], kw, out, node))
        toks = parse_fmt(args[0])
        if toks is not None:
            r = const(0)
            for ch, n in toks:
                r = add(r, n if ch == 's' else const(TM.CODE_SIZE.get(ch, 1)))
            return r
        return pure(run, st, dotted, args, 'int')
    if dotted == 'struct.Struct':
        return mk('structobj', args[0])
    if dotted == 'int.from_bytes' or dotted == 'builtins.int.from_bytes':
        return from_bytes(run, st, args, kw)
    if dotted == 'math.pow':
        return run.binop(ast.Pow(), args[0], args[1], st, node)
    if dotted in ('math.floor', 'math.trunc'):
        return floor(args[0]) if is_numeric(args[0]) else pure(run, st, dotted, args, 'int')
    if dotted == 'math.isnan' or dotted == 'isnan':
        return pure(run, st, 'isnan', args, 'bool')
    if dotted in ('binascii.hexlify', 'binascii.b2a_hex') and len(args) == 1:
        return s2b(pure(run, st, 'hexstr', [run.content(st, args[0]), const('02x')], 'str'))
    if dotted == 'base64.b16encode':
        return s2b(pure(run, st, 'hexstr', [run.content(st, args[0]), const('02X')], 'str'))
    if dotted == 'functools.partial':
        return mk('partial', *args)
    if dotted in ('itertools.count',):
        return mk('iter', 'range', args[0] if args else const(0), mk('sym', 'infinity', 'int'), args[1] if len(args) > 1 else const(1))
    if dotted == 'functools.reduce':
        init = args[2] if len(args) > 2 else None
        if init is not None:
            return reduce_seq(run, st, args[1], init, lambda s, acc, x: run.call(s, args[0], [acc, x], {}, out, node), out, node)
    if dotted == 'collections.OrderedDict' or dotted == 'collections.defaultdict':
        if dotted.endswith('defaultdict'):
            return run.opaque('defaultdict', node)
        return call_builtin_values(run, st, 'dict', args, kw, out, node)
    if dotted == 'xml.etree.ElementTree.Element':
        return new_element(run, st, args, kw)
    if dotted == 'xml.etree.ElementTree.SubElement':
        e = new_element(run, st, args[1:], kw)
        add_child(run, st, args[0], e)
        return e
    if dotted in ('xml.etree.ElementTree.fromstring', 'xml.etree.ElementTree.XML'):
        t = run.rv(st, args[0])
        r = mk('call', 'xmlparse', t)
        I.EXT_TYPES[r] = 'obj:Element'
        r._ty = None
        atom = mk('exc', r, 'ParseError')
        s2 = st.copy()
        s2.pc = band(st.pc, atom)
        out.append(('raise', s2, mk('excval', 'xml.etree.ElementTree.ParseError', r)))
        st.pc = band(st.pc, neg_b(atom))
        return r
    if dotted == 'xml.etree.ElementTree.tostring':
        v = reify(run, st, args[0])
        return mk_typed('call', 'bytes', 'xmltext', v, *[kw[k] for k in sorted(kw)] + list(args[1:]))
    if dotted == 'xml.etree.ElementTree.ElementTree':
        return run.ext_call(st, out, 'ElementTree', [reify(run, st, a) for a in args], {'ret': 'obj:ElementTree'}, node)
    if dotted == 'socket.socket' and len(args) + len(kw) <= 3:
        a = list(args) + [mk('extname', 'socket.AF_INET'), mk('extname', 'socket.SOCK_STREAM'), const(0)][len(args):]
        for i, k in enumerate(('family', 'type', 'proto')):
            if k in kw:
                a[i] = kw[k]
        if a[2] is const(0):
            a = a[:2]
        return run.ext_call(st, out, dotted, a, EXT[dotted], node)
    if dotted == 'serial.Serial':
        return run.ext_call(st, out, dotted, norm_kw(args, kw, SERIAL_SIG), EXT[dotted], node)
    if dotted == 'time.strftime' or dotted == 'time.gmtime':
        if dotted == 'time.gmtime' and args == [NONE]:
            args = []
        return pure(run, st, dotted, args)
    if dotted in PURE:
        allargs = list(args) + [kw[k] for k in sorted(kw)]
        r = pure(run, st, dotted, allargs, I.CALL_TYPES.get(dotted))
        if dotted in ('base64.b16decode', 'binascii.unhexlify'):
            run.implicit(st, out, 'ValueError', mk('exc', r, 'ValueError'))
        return r
    spec = EXT.get(dotted)
    args, kw = by_position(dotted, args, kw)
    allargs = list(args) + [x for k in sorted(kw) for x in (const('%' + k), kw[k])]
    if spec is not None:
        if spec.get('pure'):
            return pure(run, st, dotted, allargs, spec.get('ret'))
        return run.ext_call(st, out, dotted, allargs, spec, node)
    last = dotted.rpartition('.')[2]
    if last[:1].isupper() and (last.endswith('Error') or last.endswith('Exception')):
        return mk('excval', dotted, NONE)
    if dotted == 'optparse.OptionParser':
        return run.ext_call(st, out, dotted, allargs, {'ret': 'obj:OptionParser'}, node)
    if dotted == 'traceback.print_exc':
        return NONE
    run.opaque('library call ' + dotted, node)
    return run.ext_call(st, out, dotted, allargs, {}, node)


# positional parameters of library calls given by keyword as well
EXT_SIG = {
    'sslctx.load_cert_chain': ['certfile', 'keyfile', 'password'],
    'sslctx.wrap_socket': ['sock', 'server_side', 'do_handshake_on_connect', 'suppress_ragged_eofs', 'server_hostname', 'session'],
    'sslctx.load_verify_locations': ['cafile', 'capath', 'cadata'],
    'ssl.create_default_context': ['purpose'],
    'socket.settimeout': ['value'], 'socket.recv': ['bufsize', 'flags'],
    'zipfile.ZipFile': ['file', 'mode'], 'builtins.open': ['file', 'mode', 'buffering', 'encoding'], 'open': ['file', 'mode', 'buffering', 'encoding'],
    'ElementTree.write': ['file', 'encoding', 'xml_declaration'],
    'serial.read': ['size'], 'file.read': ['size'],
}


# what leaving a parameter out means
EXT_DEFAULTS = {
    'sslctx.wrap_socket': {'server_side': FALSE, 'do_handshake_on_connect': TRUE, 'suppress_ragged_eofs': TRUE},
    'ssl.create_default_context': {'purpose': mk('extname', 'ssl.Purpose.SERVER_AUTH')},
}


def by_position(kind, args, kw, off=0):
    """leading keyword arguments moved to their positions"""
    sig = EXT_SIG.get(kind)
    if not sig:
        return args, kw
    args, kw = list(args), dict(kw)
    plain = EXT_DEFAULTS.get(kind, {})
    for k in [k for k in kw if kw[k] is plain.get(k)]:
        del kw[k]
    while len(args) > off and len(args) - off <= len(sig) and args[-1] is plain.get(sig[len(args) - off - 1], 0):
        args.pop()
    if not kw:
        return args, kw
    while len(args) - off < len(sig) and sig[len(args) - off] in kw:
        args.append(kw.pop(sig[len(args) - off]))
    return args, kw


SERIAL_SIG = [('port', NONE), ('baudrate', const(9600)), ('bytesize', const(8)), ('parity', const('N')), ('stopbits', const(1)),
              ('timeout', NONE), ('xonxoff', FALSE), ('rtscts', FALSE), ('write_timeout', NONE), ('dsrdtr', FALSE),
              ('inter_byte_timeout', NONE), ('exclusive', NONE)]


def norm_kw(args, kw, sig):
    out = []
    for i, (k, d) in enumerate(sig):
        v = args[i] if i < len(args) else kw.get(k, kw.get('writeTimeout', d) if k == 'write_timeout' else d)
        out.append(v)
    return out


def mk_typed(op, t, *args):
    r = mk(op, *args)
    I.EXT_TYPES[r] = t
    r._ty = None
    return r


def from_bytes(run, st, args, kw):
    data = run.content(st, args[0])
    order = args[1] if len(args) > 1 else kw.get('byteorder', const('big'))
    signed = kw.get('signed', FALSE)
    n = TM.fixed_len(data)
    if n is None and data.op == 'slice' and data.args[2] is not NONE:
        d = sub(data.args[2], data.args[1])
        if is_num_const(d):
            n = d.args[0]
    codes = {1: 'Bb', 2: 'Hh', 4: 'Ii', 8: 'Qq'}
    if order is const('big') and n in codes and is_const(signed):
        return dec(codes[n][1 if signed is TRUE else 0], data, const(0))
    return pure(run, st, 'from_bytes', [data, order, signed], 'int')


# ---------------------------------------------------------------- elements

def new_element(run, st, args, kw):
    e = run.alloc(st, 'Element')
    st.store[(e, 'tag')] = args[0]
    d = mkdict(EMPTYSEQ, {})
    a = args[1] if len(args) > 1 else kw.get('attrib')
    if a is not None:
        d = run.content(st, a)
    for k, v in kw.items():
        if k != 'attrib':
            d = dset(d, const(k), v)
    st.store[(e, 'attrib')] = run.newdict(st, d)
    st.store[(e, 'text')] = NONE
    st.store[(e, 'tail')] = NONE
    st.store[(e, '$')] = lst([])
    return e


def elem_children(run, st, e):
    v = st.store.get((e, '$'))
    if v is not None:
        return v
    return mk_typed('call', 'list:obj:Element', 'children', e)


def add_child(run, st, parent, e):
    if parent.op == 'phi':
        # the child goes to the alternative that is selected
        c = parent.args[0]
        for x, cc in ((parent.args[1], c), (parent.args[2], neg_b(c))):
            if x.op in ('const', 'undef'):
                continue
            if x.op == 'phi':
                run.opaque('element with nested alternatives')
                continue
            old = elem_children(run, st, x)
            st.store[(x, '$')] = phi(cc, cat(old, lst([e])), old)
        return
    st.store[(parent, '$')] = cat(elem_children(run, st, parent), lst([e]))


def elem_attrib(run, st, e):
    v = st.store.get((e, 'attrib'))
    if v is None:
        v = run.initial(st, (e, 'attrib'))
    return v


def reify(run, st, t, depth=0, seen=(), only=None, memo=None):
    """a value with the local objects in it replaced by what they hold"""
    if memo is None:
        memo = {}
    key = (t, seen)
    r = memo.get(key)
    if r is None:
        r = memo[key] = _reify(run, st, t, depth, seen, only, memo)
    return r


def _reify(run, st, t, depth, seen, only, memo):
    if depth > 14:
        return mk('deep')
    if t.op == 'obj':
        if only is not None and not only(t):
            return t
        if t in seen:
            return mk('cycle', len(seen) - list(seen).index(t))
        k = t.args[1]
        seen = seen + (t,)
        if k in ('list', 'dict', 'set'):
            return reify(run, st, run.content(st, t), depth + 1, seen, only, memo)
        fields = sorted((f, v) for (b, f), v in st.store.items() if b is t)
        return mk('inst', k, *[x for f, v in fields for x in (const(f), reify(run, st, v, depth + 1, seen, only, memo))])
    if t.op == 'const':
        return t
    v = st.store.get((t, '$')) if only is None else None
    if v is not None and v is not t:
        st2 = st.copy()
        st2.store.pop((t, '$'))
        return reify(run, st2, v, depth + 1, seen, only, {})
    ch = children(t)
    if ch and t.op in ('lst', 'tup', 'cat', 'phi', 'dict', 'eta', 'mu', 'acc', 'inst', 'call', 'idx', 'slice'):
        nk = [reify(run, st, c, depth, seen, only, memo) for c in ch]
        if any(a is not b for a, b in zip(ch, nk)):
            return rebuild(t, nk)
    return t


# ----------------------------------------------------------------- methods

STR_PURE = {'lower': 'str', 'upper': 'str', 'title': 'str', 'isdigit': 'bool', 'startswith': 'bool', 'endswith': 'bool',
            'find': 'int', 'rfind': 'int', 'index': 'int', 'count': 'int', 'zfill': 'str', 'isalpha': 'bool', 'isalnum': 'bool',
            'isspace': 'bool', 'capitalize': 'str', 'rjust': 'str', 'center': 'str', 'isupper': 'bool', 'islower': 'bool'}


def call_method(run, st, b, name, args, kw, out, node):
    t = base_ty(b)
    if b.op == 'obj' and b.args[1] in ('list', 'dict', 'set'):
        t = {'list': 'list:', 'dict': 'dict:', 'set': 'list:'}[b.args[1]]
    if b.op == 'structobj':
        if name == 'pack':
            return struct_pack(run, st, b.args[0], args, out)
        if name == 'unpack':
            return struct_unpack(run, st, b.args[0], args[0], const(0), out)
        if name == 'unpack_from':
            return struct_unpack(run, st, b.args[0], args[0], args[1] if len(args) > 1 else const(0), out, False)
    if b.op == 'ntcls' and name == '_make' and len(args) == 1:
        v = run.as_seq(st, args[0])
        if v.op in ('lst', 'tup'):
            return make_named(run, st, b, v.args, {}, node)
    if b.op == 'tup' and name == '_replace' and all(len(NT_FIELDS.get(k, ())) == 1 for k in kw):
        vals = list(b.args)
        for k, v in kw.items():
            vals[min(NT_FIELDS[k])] = v
        return tup(vals)
    if b.op == 'builtin':
        if b.args[0] == 'int' and name == 'from_bytes':
            return from_bytes(run, st, args, kw)
        if b.args[0] == 'str' and name == 'join':
            return join(run, st, args[0], args[1], out, node)
        if b.args[0] == 'bytes' and name == 'fromhex':
            return pure(run, st, 'base64.b16decode', args, 'bytes')
        if b.args[0] == 'object':
            return NONE
        if b.args[0] in I.BUILTIN_EXC and name == '__init__':
            return NONE
    if b.op == 'excval':
        if name == 'with_traceback':
            return b
    if b.op == 'iter':
        s = run.as_seq(st, b)
        return call_method(run, st, s, name, args, kw, out, node)
    if t == 'int' and name == 'to_bytes':
        n = args[0] if args else kw.get('length', const(1))
        order = args[1] if len(args) > 1 else kw.get('byteorder', const('big'))
        signed = kw.get('signed', FALSE)
        codes = {1: 'Bb', 2: 'Hh', 4: 'Ii', 8: 'Qq'}
        if order is const('big') and is_num_const(n) and n.args[0] in codes and is_const(signed):
            return struct_pack(run, st, const('>' + codes[n.args[0]][1 if signed is TRUE else 0]), [b], out)
        return pure(run, st, 'to_bytes', [b, n, order, signed], 'bytes')
    if t in ('str', 'bytes') or (t is None and name in ('format', 'strip', 'rstrip', 'lstrip', 'encode', 'decode', 'split',
                                                        'replace', 'startswith', 'endswith', 'lower', 'upper', 'splitlines')):
        r = str_method(run, st, b, t, name, args, kw, out, node)
        if r is not None:
            return r
    if t == 'obj:Element':
        r = elem_method(run, st, b, name, args, kw, out, node)
        if r is not None:
            return r
    if t and t.startswith('obj:'):
        m = METH.get(t[4:])
        if m is not None:
            spec = m.get(name)
            args, kw = by_position(t[4:] + '.' + name, args, kw)
            allargs = [b] + list(args) + [x for k in sorted(kw) for x in (const('%' + k), kw[k])]
            if spec is not None:
                kind = t[4:] + '.' + {'reset_input_buffer': 'flushInput'}.get(name, name)
                if t == 'obj:zipfile' and name in ('read', 'getinfo', 'open') and args:
                    # KeyError exactly when the archive has no such member
                    member = run.contains(st, args[0], pure(run, st, 'zipfile.namelist', [b], 'list:str'))
                    atom = st.decide(neg_b(truth(member)))
                    if atom is not FALSE:
                        s2 = st.copy()
                        s2.pc = band(st.pc, atom)
                        out.append(('raise', s2, mk('excval', 'KeyError', NONE)))
                        st.pc = band(st.pc, neg_b(atom))
                        if st.pc is FALSE:
                            raise I.Dead()
                if spec.get('pure'):
                    return pure(run, st, kind, allargs, spec.get('ret'))
                if kind in ('file.close', 'zipfile.close') and b.op == 'ext':
                    run.closed(st, b, node)
                    return NONE
                if kind == 'file.read' and b.op == 'ext' and len(b.args) > 4 and is_str_const(b.args[-1]) and 'b' in b.args[-1].args[0]:
                    spec = dict(spec, ret='bytes')
                mark = len(run.trace)
                r = run.ext_call(st, out, kind, allargs, spec, node)
                if kind == 'sslctx.wrap_socket':
                    # what the connection is checked for
                    run.trace[mark].state = tuple((f, st.store[b, f] if (b, f) in st.store else mk('fld', b, f))
                                                  for f in ('check_hostname', 'verify_mode', 'minimum_version', 'maximum_version', 'options'))
                return r
            run.opaque('method %s of %s' % (name, t[4:]), node)
            return run.ext_call(st, out, t[4:] + '.' + name, allargs, {}, node)
    if name in ('append', 'extend', 'insert', 'remove', 'sort', 'reverse') or (t and t.startswith('list')):
        r = list_method(run, st, b, name, args, kw, out, node)
        if r is not None:
            return r
    if name in ('get', 'items', 'keys', 'values', 'setdefault', 'update', 'popitem', 'iteritems') or (t and t.startswith('dict')):
        r = dict_method(run, st, b, name, args, kw, out, node)
        if r is not None:
            return r
    if t == 'tuple' and name in ('index', 'count'):
        return list_method(run, st, b, name, args, kw, out, node)
    if name in ('pop', 'copy', 'clear', 'add', 'discard'):
        return list_method(run, st, b, name, args, kw, out, node)
    if t in ('int', 'num') or is_const(b):
        return run.opaque('method %s' % name, node)
    return None


def strip_term(mode, v, chars):
    if v.op == 'phi':
        return phi(v.args[0], strip_term(mode, v.args[1], chars), strip_term(mode, v.args[2], chars))
    if v.op == 'b2s':
        return b2s(strip_term(mode, v.args[0], s2b(chars) if chars is not NONE else chars))
    if is_const(v) and is_const(chars):
        s = v.args[0]
        try:
            return const({'strip': s.strip, 'lstrip': s.lstrip, 'rstrip': s.rstrip}[mode](*([chars.args[0]] if chars is not NONE else [])))
        except TypeError:
            pass
    r = mk('call', 'strip', mode, v, chars)
    I.EXT_TYPES[r] = base_ty(v)
    r._ty = None
    return r


I.CALL_TYPES.pop('strip', None)


def str_method(run, st, b, t, name, args, kw, out, node):
    if b.op == 'phi' and name != 'format':
        pass
    v = run.content(st, b)
    if name == 'format':
        return run.format_method(st, v, args, kw, node)
    if name == 'join':
        return join(run, st, v, args[0], out, node)
    if name in ('strip', 'rstrip', 'lstrip'):
        return strip_term(name, v, args[0] if args else NONE)
    if name in ('encode', 'decode'):
        return codec(run, st, v, args, kw, name == 'encode')
    if name == 'tobytes':
        return v
    if name == 'hex' and t == 'bytes':
        return pure(run, st, 'hexstr', [v, const('02x')], 'str')
    if name in ('upper', 'lower') and v.op == 'call' and v.args[0] == 'hexstr':
        return pure(run, st, 'hexstr', [v.args[1], const('02X' if name == 'upper' else '02x')], 'str')
    if name in ('startswith', 'endswith') and len(args) == 1 and is_const(args[0]) and isinstance(args[0].args[0], (str, bytes)) and \
            args[0].args[0] and not is_const(v):
        k = len(args[0].args[0])
        return eq(slc(v, const(0), const(k)) if name == 'startswith' else slc(v, const(-k), NONE), args[0])
    if name == 'replace':
        if is_const(v) and all(is_const(a) for a in args):
            return const(v.args[0].replace(*[a.args[0] for a in args]))
        return pure(run, st, 'replace', [v] + list(args), t or 'str')
    if name == 'split':
        r = pure(run, st, 'split', [v] + (list(args) or [NONE]), 'list:str')
        return r
    if name in ('splitlines', 'rsplit', 'partition', 'rpartition'):
        return pure(run, st, name, [v] + list(args), 'list:str')
    if name == 'ljust' and t == 'bytes':
        fill = args[1] if len(args) > 1 else const(b' ')
        if fill is const(b'\x00'):
            n = mklen(v)
            w = v.args[0] if v.op == 's2b' else v
            if w.op == 'slice' and w.args[1] is const(0) and w.args[2] is args[0]:
                # cut to n, filled to n (a negative n has no meaning as a length: struct.error in the other form)
                return TM.padto(args[0], TM.s2b(w.args[0]) if v.op == 's2b' else w.args[0])
            return phi(le(n, args[0]), TM.padto(args[0], v), v)
        return pure(run, st, 'ljust', [v] + list(args), 'bytes')
    if name in STR_PURE:
        if is_const(v) and all(is_const(a) for a in args):
            try:
                return const(getattr(v.args[0], name)(*[a.args[0] for a in args]))
            except Exception:
                pass
        ret = STR_PURE[name]
        return pure(run, st, name, [v] + list(args), (t or 'str') if ret == 'str' else ret)
    if name == 'ljust':
        return pure(run, st, 'ljust', [v] + list(args), 'str')
    if name == 'extend' or name == 'append':
        # bytearray
        if t == 'bytes':
            x = args[0]
            if name == 'append':
                x = mk('enc', 'B', x) if not is_const(x) else const(bytes([x.args[0]]))
            else:
                x = call_builtin_values(run, st, 'bytes', [x], {}, out, node)
            if b.op in ('const', 'cat', 'enc') and (b, '$') not in st.store:
                run.opaque('bytearray mutated through a value', node)
            run.setcontent(st, b, cat(v, x))
            return NONE
    return None


def join(run, st, sep, it, out, node):
    s = run.as_seq(st, it)
    empty = const(b'') if base_ty(sep) == 'bytes' else const('')
    if s.op == 'call' and s.args[0] == 'split' and len(s.args) == 3 and is_const(s.args[2]) and s.args[2].args[0]:
        # join what was split: the separator is replaced
        if sep is s.args[2]:
            return s.args[1]
        return pure(run, st, 'replace', [s.args[1], s.args[2], sep], base_ty(sep))
    items = run.known_items(st, s) if sep is not empty or s.op in ('lst', 'tup') else None
    if items is not None:
        parts = []
        for i, x in enumerate(items):
            if i and sep is not empty:
                parts.append(sep)
            parts.append(x)
        return cat(*parts) if parts else empty
    if sep is empty:
        return flat_join(run, s, empty)
    return pure(run, st, 'join', [sep, s], base_ty(sep))


def flat_join(run, s, empty):
    """''.join of a list value built from pieces"""
    if s.op == 'cat':
        return cat(*[flat_join(run, p, empty) for p in s.args])
    if s.op == 'eta' and s.args[1].op == 'acc' and s.args[1].args[0] == s.args[0] and s.args[0] in run.loops:
        # the pieces joined are the pieces appended in each iteration
        info = run.loops[s.args[0]]
        d = info.accs.get(s.args[1].args[1])
        if d is not None:
            d = flat_join(run, d, EMPTYSEQ)
            lift = run.all_b2s(d)
            dd = I.s2b_deep(d) if lift else d
            gid = None
            for g, x in info.accs.items():
                if x is dd:
                    gid = g
            if gid is None:
                gid = 1 + max(list(info.accs) + [1000])
                info.accs[gid] = dd
            a = mk('acc', s.args[0], gid)
            I.MU_TYPES[a] = 'bytes' if lift or is_bytes_const(empty) else 'str'
            a._ty = None
            r = None
            if info.trips is not None:
                r = run.closed_acc(s.args[0], a, mk('it', s.args[0]), info.trips, info)
            r = r if r is not None else mk('eta', s.args[0], a)
            return b2s(r) if lift else r
    if s.op in ('lst', 'tup'):
        return cat(*s.args) if s.args else empty
    if s.op == 'phi':
        return phi(s.args[0], flat_join(run, s.args[1], empty), flat_join(run, s.args[2], empty))
    if s is EMPTYSEQ:
        return empty
    return mk_typed('call', 'bytes' if is_bytes_const(empty) else 'str', 'join', empty if empty is not EMPTYSEQ else const(''), s)


def elem_method(run, st, b, name, args, kw, out, node):
    if name == 'get':
        d = run.content(st, elem_attrib(run, st, b))
        k = args[0]
        dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
        v = dget(d, k)
        if dflt is NONE:
            return v
        return phi(eq(v, NONE), dflt, v)
    if name == 'set':
        d = elem_attrib(run, st, b)
        run.setcontent(st, d, dset(run.content(st, d), args[0], args[1]))
        return NONE
    if name in ('find', 'findtext'):
        r = pure(run, st, 'el.findall', [b] + list(args), 'list:obj:Element')
        r = phi(eq(mklen(r), const(0)), NONE, idx(r, const(0)))
        if name == 'findtext':
            return phi(eq(r, NONE), NONE, run.getattr(st, r, 'text', out, node))
        return r
    if name in ('findall', 'iterfind'):
        if len(args) == 1 and args[0] is const('*'):
            return elem_children(run, st, b)
        return pure(run, st, 'el.findall', [b] + list(args), 'list:obj:Element')
    if name in ('iter', 'getiterator'):
        return pure(run, st, 'el.iter', [b] + list(args), 'list:obj:Element')
    if name in ('getchildren',):
        return elem_children(run, st, b)
    if name == 'append':
        add_child(run, st, b, args[0])
        return NONE
    if name == 'extend':
        s = run.as_seq(st, args[0])
        st.store[(b, '$')] = cat(elem_children(run, st, b), s)
        return NONE
    if name == 'items':
        return mk('iter', 'items', elem_attrib(run, st, b))
    if name == 'keys':
        return mk('iter', 'keys', elem_attrib(run, st, b))
    return None


def list_method(run, st, b, name, args, kw, out, node):
    if name == 'append':
        alias_put(run, st, b, lambda c: cat(c, lst([args[0]])))
        return NONE
    if name == 'add':
        alias_put(run, st, b, lambda c: cat(c, lst([args[0]])))
        return NONE
    if name == 'extend':
        s = run.as_seq(st, args[0])
        if s.op == 'tup':
            s = lst(s.args)
        alias_put(run, st, b, lambda c: cat(c, s))
        return NONE
    if name == 'insert':
        i = args[0]
        if i is const(0):
            alias_put(run, st, b, lambda c: cat(lst([args[1]]), c))
        else:
            alias_put(run, st, b, lambda c: cat(slc(c, const(0), i), lst([args[1]]), slc(c, i, NONE)))
        return NONE
    if name == 'clear':
        alias_put(run, st, b, lambda c: lst([]) if (base_ty(b) or '').startswith('list') or c.op != 'dict' else mkdict(EMPTYSEQ, {}))
        return NONE
    if name == 'pop':
        c = run.content(st, b)
        if c.op == 'dict' or (base_ty(b) or '').startswith('dict'):
            return dict_method(run, st, b, name, args, kw, out, node)
        i = args[0] if args else const(-1)
        v = idx(c, i)
        run.implicit(st, out, 'IndexError', le(mklen(c), const(0)))
        if i is const(-1):
            run.setcontent(st, b, slc(c, const(0), const(-1)) if c.op != 'lst' else lst(c.args[:-1]))
        elif i is const(0):
            run.setcontent(st, b, slc(c, const(1), NONE))
        else:
            run.setcontent(st, b, cat(slc(c, const(0), i), slc(c, add(i, const(1)), NONE)))
        return v
    if name == 'remove' or name == 'discard':
        c = run.content(st, b)
        run.setcontent(st, b, mk_typed('call', base_ty(b) or 'list:', 'removed', c, args[0]))
        return NONE
    if name == 'reverse':
        run.setcontent(st, b, mk('rev', run.content(st, b)))
        return NONE
    if name == 'sort':
        run.setcontent(st, b, pure(run, st, 'sorted', [run.content(st, b)] + [v for _, v in sorted(kw.items())]))
        return NONE
    if name == 'copy':
        return run.newlist(st, run.content(st, b)) if run.content(st, b).op != 'dict' else run.newdict(st, run.content(st, b))
    if name in ('index', 'count'):
        return pure(run, st, name, [run.content(st, b)] + list(args), 'int')
    return None


def alias_put(run, st, b, fn):
    if b.op == 'phi':
        c = b.args[0]
        for x, cc in ((b.args[1], c), (b.args[2], neg_b(c))):
            if x.op in ('const', 'undef'):
                continue
            old = run.content(st, x)
            new = fn(old)
            run.setcontent(st, x, phi(cc, new, old))
        return
    run.setcontent(st, b, fn(run.content(st, b)))


def dict_method(run, st, b, name, args, kw, out, node):
    if b.op == 'phi':
        bs = b
    d = run.content(st, b)
    if b.op == 'gdict':
        d = st.store.get((b.args[0], '@'), mk('fld', b.args[0], '@'))
    if b.op == 'fld' and b.args[1] == '__dict__':
        if name == 'get':
            return run.getattr_dyn(st, b.args[0], args[0], out, node, args[1] if len(args) > 1 else NONE)
    if name == 'get':
        v = dget(d, args[0])
        dflt = args[1] if len(args) > 1 else NONE
        return v if dflt is NONE else phi(eq(v, NONE), dflt, v)
    if name in ('items', 'keys', 'values', 'iteritems', 'itervalues', 'iterkeys'):
        return mk('iter', name.replace('iter', ''), b)
    if name == 'setdefault':
        v = dget(d, args[0])
        dflt = args[1] if len(args) > 1 else NONE
        miss = st.decide(eq(v, NONE))
        if miss is not FALSE:
            if miss is TRUE:
                run.setitem(st, b, args[0], dflt, out)
                return dflt
            a = st.copy()
            a.pc = band(st.pc, miss)
            run.setitem(a, b, args[0], dflt, out)
            st.pc = band(st.pc, neg_b(miss))
            r, nv = run.merge_all([(a, dflt), (st.copy(), v)])
            st.become(r)
            return nv
        return v
    if name == 'pop':
        v = dget(d, args[0])
        if len(args) > 1:
            r = phi(eq(v, NONE), args[1], v)
        else:
            run.implicit(st, out, 'KeyError', eq(v, NONE))
            r = strip(v)
        run.setcontent(st, b, dset(d, args[0], ABSENT))
        return r
    if name == 'update' and b.op == 'fld' and b.args[1] == '__dict__':
        for x in args:
            e = run.content(st, x)
            if e.op != 'dict' or e.args[0] is not EMPTYSEQ or any(TM._may_absent(v) for k, v in e.args[1]):
                return run.opaque('dict.update', node)
            for k, v in e.args[1]:
                run.setattr_dyn(st, b.args[0], k, v, out)
        for k, v in kw.items():
            run.setattr(st, b.args[0], k, v, out)
        return NONE
    if name == 'update':
        for x in args:
            e = run.content(st, x)
            if e.op != 'dict' and not (base_ty(e) or base_ty(x) or '').startswith('dict'):
                e = run.content(st, call_builtin_values(run, st, 'dict', [x], {}, out, node))
            d = run.overlay(d, e)
            if d is None:
                return run.opaque('dict.update', node)
        for k, v in kw.items():
            d = dset(d, const(k), v)
        run.setcontent(st, b, d)
        return NONE
    if name == 'clear':
        run.setcontent(st, b, mkdict(EMPTYSEQ, {}))
        return NONE
    if name == 'copy':
        return run.newdict(st, d)
    if name == 'has_key':
        return neg_b(eq(dget(d, args[0]), NONE))
    return None


strip = I.strip_none


# ------------------------------------------------- values called as functions

# fields that hold functions without side effects
PURE_FIELDS = {'to_data': 'bytes', 'data_to': None, 'to_value': None, 'is_impl': 'bool'}


def call_value(run, st, f, args, kw, out, node):
    name = None
    if f.op == 'fld':
        name = f.args[1]
    elif f.op == 'sym':
        name = f.args[0]
    elif f.op == 'post':
        name = f.args[1]
    if f.op == 'fld':
        t = base_ty(f.args[0])
        if t and t.startswith('obj:') and name in METH.get(t[4:], ()):
            r = call_method(run, st, f.args[0], name, args, kw, out, node)
            if r is not None:
                return r
    if name == 'trace_func':
        if 'trace' in run.ext:
            run.ext_call(st, out, 'trace', args, run.ext['trace'], node)
            return NONE
        run.ev(st, 'trace', [run.rv(st, a) for a in args], node)
        return NONE
    vals = [run.rv(st, a) for a in list(args) + [kw[k] for k in sorted(kw)]]
    if name in PURE_FIELDS or f.op in ('idx', 'dget', 'apply', 'eta', 'call', 'mu'):
        r = mk('apply', f, *vals)
        if PURE_FIELDS.get(name):
            I.EXT_TYPES[r] = PURE_FIELDS[name]
            r._ty = None
        atom = mk('exc', r, 'AnyError')
        if run.trystack:
            run.implicit(st, out, 'ValueError', atom)
        return r
    return run.ext_call(st, out, 'callback:' + (name or f.op), [f] + vals, {'raises': ('AnyError',)}, node)


def make_class(run, st, args, out, node):
    """type(name, bases, namespace)"""
    o = run.alloc(st, 'class')
    st.store[(o, '%name')] = args[0]
    st.store[(o, '@')] = I.mkdict(EMPTYSEQ, {})
    bases = args[1] if len(args) > 1 else tup([])
    st.store[(o, '%bases')] = bases
    d = run.content(st, args[2]) if len(args) > 2 else None
    if d is not None and d.op == 'dict':
        if d.args[0] is not EMPTYSEQ:
            run.opaque('class namespace', node)
            return o
        for k, v in d.args[1]:
            set_class_attr(run, st, o, k, v, out)
    elif d is not None:
        run.opaque('class namespace', node)
    return o


def class_of_view(run, st, b):
    """the base class of a class object made at run time"""
    for x in I.alts(b):
        if x.op == 'obj' and x.args[1] == 'class':
            bs = st.store.get((x, '%bases'))
            if bs is not None and bs.op == 'tup' and bs.args and bs.args[0].op == 'class':
                return run.classes[bs.args[0]]
    return None


def set_class_attr(run, st, b, k, v, out):
    """functions and properties of a class made at run time are kept as what
    they do, with the variables they will see"""
    base = class_of_view(run, st, b)
    if v.op in ('closure', 'func', 'partial'):
        own = base.find(k.args[0]) if base is not None and is_str_const(k) else None
        n = run.arity(v)
        if own is not None and len(own.node.args.args) == n:
            # does it only hand over to the function it overrides
            keep = run.stubs
            run.stubs = dict(keep, **{own.qual: {'name': 'own', 'retval': NONE, 'same': True}})
            try:
                f = run.fnsum(st, v, base, n)
            finally:
                run.stubs = keep
            if f is mk('fnsum', n, tup([mk('ev', 'own', TRUE, *run.fnsyms(base, n))]), tup([]), tup([]), NONE):
                return
            # else what it does around that call
            run.setattr_dyn(st, b, k, f if f.op != 'fnsum' or any(e.args[0] == 'own' for e in f.args[1].args) else run.fnsum(st, v, base, n), out)
            return
        v = run.fnsum(st, v, base, n)
    elif v.op == 'property':
        v = mk('property', *[run.fnsum(st, x, base, i + 1) if x.op in ('closure', 'func', 'partial') else x for i, x in enumerate(v.args)])
    run.setattr_dyn(st, b, k, v, out)


def instantiate_dyn(run, st, f, args, kw, out, node):
    o = run.alloc(st, 'dyn')
    st.store[(o, '%class')] = f
    base = class_of_view(run, st, f)
    c = base.find('__init__') if base is not None else None
    if (f, '__init__') in st.store:
        run.opaque('instance of a class with its own constructor', node)
    elif c is not None:
        run.call_func(st, c, None, [o] + list(args), kw, out, node)
    return o
