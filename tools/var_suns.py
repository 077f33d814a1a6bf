"""rewrites of the point types' table and of its functions"""
TYK = 'type.*,util.*,pdev.*,cpoint.*,dpoint.*,mpoint.*,point.*'
SU = 'sunspec/core/suns.py'
FACT = '''
def _not(unimplemented):
    def is_impl(value):
        return value != unimplemented
    return is_impl
'''
names = ['int16', 'uint16', 'acc16', 'enum16', 'bitfield16', 'int32', 'uint32', 'acc32', 'enum32', 'bitfield32', 'ipaddr', 'int64', 'uint64', 'acc64', 'sunssf', 'eui48']
rewrite('f2-neq', TYK, SU, **{'suns_is_impl_' + n: 'def suns_is_impl_%s(value):\n    return value != SUNS_UNIMPL_%s\n' % (n, n.upper()) for n in names})
rewrite('f2-factory', TYK, SU, _top=FACT, **{'suns_is_impl_' + n: 'suns_is_impl_%s = _not(SUNS_UNIMPL_%s)\n' % (n, n.upper()) for n in names})
rewrite('f2-lambda', TYK, SU, **{'suns_is_impl_' + n: 'suns_is_impl_%s = lambda value: value != SUNS_UNIMPL_%s\n' % (n, n.upper()) for n in names})
rewrite('f2-text', TYK, SU, suns_is_impl_string='''
def suns_is_impl_string(value):
    return bool(value) and not value.startswith('\\0')
''', suns_is_impl_ipv6addr='''
def suns_is_impl_ipv6addr(value):
    if not value:
        return False
    return value[0] != '\\0'
''', suns_is_impl_float32='''
def suns_is_impl_float32(value):
    return value is not None and value == value
''')
rewrite('f2-float', TYK, SU, suns_is_impl_float32='''
def suns_is_impl_float32(value):
    if value is None:
        return False
    return not math.isnan(value)
''', _top='import math')
rewrite('f2-int', TYK, SU, suns_to_int='''
def suns_to_int(x):
    if isinstance(x, str):
        return int(x, 0)
    return int(x)
''', suns_to_long='''
def suns_to_long(x):
    return suns_to_int(x)
''', suns_to_float='''
def suns_to_float(f):
    result = None
    try:
        result = float(f)
    except ValueError:
        pass
    return result
''')
rewrite('f2-sentinels', TYK, SU, suns_is_impl_int16='''
def suns_is_impl_int16(value):
    return value != -0x8000
''', suns_is_impl_int32='''
def suns_is_impl_int32(value):
    return value != -(1 << 31)
''', suns_is_impl_int64='''
def suns_is_impl_int64(value):
    return value != -2 ** 63
''', suns_is_impl_uint64='''
def suns_is_impl_uint64(value):
    return value != 2 ** 64 - 1
''')
src = open('/repo/' + SU).read()
a = src.index('suns_point_type_info = {')
table = src[a:src.index('}', a) + 1]
rows = [l.strip() for l in table.split('\n')[1:-1]]
variant('f2-update', TYK, (SU, table, 'suns_point_type_info = {}\n' + '\n'.join(
    'suns_point_type_info[%s] = %s' % (r.split(':', 1)[0], r.split(':', 1)[1].strip().rstrip(',')) for r in rows)))
variant('f2-named', TYK, (SU, table, 'from collections import namedtuple\nTypeInfo = namedtuple("TypeInfo", "len is_impl data_to value_to to_value default")\nsuns_point_type_info = {\n' + ',\n'.join(
    '    %s: TypeInfo(%s)' % (r.split(':', 1)[0], r.split(':', 1)[1].strip().rstrip(',').strip()[1:-1]) for r in rows) + '\n}'))
groups = {}
one = [r for r in rows if r.split(':')[1].strip().startswith('(1, suns_is_impl_uint16')]
variant('f2-pairs', TYK, (SU, table, '_ROWS = [\n' + ',\n'.join(
    '    (%s, %s)' % (r.split(':', 1)[0], r.split(':', 1)[1].strip().rstrip(',')) for r in rows) + '\n]\nsuns_point_type_info = dict(_ROWS)'))
variant('f2-comp', TYK, (SU, table, '_ROWS = [\n' + ',\n'.join(
    '    (%s, %s)' % (r.split(':', 1)[0], r.split(':', 1)[1].strip().rstrip(',').strip()[1:-1]) for r in rows) + '\n]\nsuns_point_type_info = {row[0]: row[1:] for row in _ROWS}'))
variant('f2-loop', TYK, (SU, table, '_ROWS = [\n' + ',\n'.join(
    '    (%s, %s)' % (r.split(':', 1)[0], r.split(':', 1)[1].strip().rstrip(',').strip()[1:-1]) for r in rows) + '\n]\nsuns_point_type_info = {}\nfor _name, _len, _impl, _data, _value, _conv, _default in _ROWS:\n    suns_point_type_info[_name] = (_len, _impl, _data, _value, _conv, _default)'))
variant('f2-groups', TYK, (SU, table, '_U16 = (1, suns_is_impl_uint16, util.data_to_u16, util.u16_to_data, suns_to_int, 0)\n' + table.replace(
    '(1, suns_is_impl_uint16, util.data_to_u16, util.u16_to_data, suns_to_int, 0)', '_U16')))
variant('BUG-f2-groups', TYK, (SU, table, '_U16 = (1, suns_is_impl_uint16, util.data_to_u16, util.u16_to_data, suns_to_int, 0)\n' + table.replace(
    '(1, suns_is_impl_acc16, util.data_to_u16, util.u16_to_data, suns_to_int, 0)', '_U16')))
variant('f2-ntclass', TYK, (SU, table, 'from typing import NamedTuple\n\nclass TypeInfo(NamedTuple):\n    """what is known of a point type"""\n    regs: object\n    is_impl: object\n    data_to: object\n    to_data: object\n    to_value: object\n    default: object = 0\n\nsuns_point_type_info = {\n' + ',\n'.join(
    '    %s: TypeInfo(%s)' % (r.split(':', 1)[0], r.split(':', 1)[1].strip().rstrip(',').strip()[1:-1]) for r in rows) + '\n}'))

DVP = 'sunspec/core/device.py'
DAP = 'sunspec/core/data.py'
MCP = 'sunspec/core/modbus/client.py'
variant('f2-dataclass', 'device.*,symbol.*,model_type.*,block_type.*,point_type.*,smdx.*', (DVP, """class Symbol(object):

    def __init__(self, sid=None):
        self.id = sid
        self.value = None
        self.label = None
        self.description = None
        self.notes = None
""", """from dataclasses import dataclass


@dataclass(eq=False)
class Symbol(object):
    id: str = None
    value: str = None
    label: str = None
    description: str = None
    notes: str = None
"""))
variant('f2-intenum', 'tcp.*,rtu.*,rtudev.*,mapped.*,cdev.*,crc.*', (MCP, """FUNC_READ_HOLDING = 3
FUNC_READ_INPUT = 4
FUNC_WRITE_MULTIPLE = 16
""", """class Function(enum.IntEnum):
    READ_HOLDING = 3
    READ_INPUT = 4
    WRITE_MULTIPLE = 16


FUNC_READ_HOLDING = Function.READ_HOLDING
FUNC_READ_INPUT = Function.READ_INPUT
FUNC_WRITE_MULTIPLE = Function.WRITE_MULTIPLE
"""), (MCP, "import os\n", "import enum\nimport os\n", 1))
