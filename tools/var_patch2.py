"""what a class says of truth, size and end of its objects; hierarchy; defaults"""


def _into(name, path, cls, text):
    """methods put at the end of a class"""
    import ast
    import textwrap
    src = open(os.path.join('/repo', path)).read()
    n = [x for x in ast.parse(src).body if isinstance(x, ast.ClassDef) and x.name == cls][0]
    head = src.split('\n')[n.lineno - 1]
    k = n.body[0]
    doc = isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant)
    at = k.end_lineno if doc else n.lineno
    old = '\n'.join(src.split('\n')[n.lineno - 1:at])
    V.append((name, '*', [(path, old, old + '\n' + textwrap.indent(textwrap.dedent(text).strip('\n'), '    ') + '\n')]))


_into('BUG-p6-len', MC, 'ModbusClientRTU', 'def __len__(self):\n    return len(self.devices)')
_into('BUG-p6-bool', MC, 'ModbusClientRTU', 'def __bool__(self):\n    return self.serial is not None')
_into('BUG-p6-del', MC, 'ModbusClientDeviceRTU', 'def __del__(self):\n    self.close()')
_into('BUG-p6-eq', DV, 'Point', 'def __eq__(self, other):\n    return self.value == other.value')
_into('BUG-p6-eq-type', DV, 'BlockType', 'def __eq__(self, other):\n    return other is not None and self.type == other.type')
_into('BUG-p6-hash', DV, 'Model', 'def __eq__(self, other):\n    return self.id == other.id\n\ndef __hash__(self):\n    return hash(self.id)')
_into('BUG-p6-len-map', MM, 'ModbusMap', 'def __len__(self):\n    return len(self.regs)')
_into('BUG-p6-contains', UT, 'PathList', 'def __len__(self):\n    return len(self.path)')
_into('BUG-p6-bool-point', DV, 'Point', 'def __bool__(self):\n    return self.impl')
_into('BUG-p6-len-symbol', DV, 'ModelType', 'def __len__(self):\n    return self.len or 0')
_into('BUG-p6-slots', DV, 'Point', "__slots__ = ('block', 'point_type', 'addr', 'sf_point', 'impl', 'value_base', 'value_sf')")
_into('BUG-p6-shared', DV, 'Block', 'shared = {}')
V.append(('BUG-p6-exc-base', '*', [(MC, 'class ModbusClientTimeout(ModbusClientError)', 'class ModbusClientTimeout(Exception)')]))
V.append(('BUG-p6-exc-base2', '*', [(MC, 'class ModbusClientException(ModbusClientError)', 'class ModbusClientException(ModbusClientTimeout)')]))
V.append(('BUG-p6-default-list', '*', [(DV, 'def __init__(self, btype=None, blen=0, name=None, model_type=None):', 'def __init__(self, btype=None, blen=0, name=None, model_type=None, _points=[]):'),
                                       (DV, '        self.type = btype\n        self.len = blen\n        self.name = name\n        self.points_list = []', '        self.type = btype\n        self.len = blen\n        self.name = name\n        self.points_list = _points')]))
