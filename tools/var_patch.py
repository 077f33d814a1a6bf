"""names bound again, and what a class does to its attributes"""
_MCEND = "def checkCRC(data, check):\n    return computeCRC(data) == check\n"
MP = 'ModbusClientDeviceMapped__'


def _end(name, path, text):
    src = open(os.path.join('/repo', path)).read()
    last = src.rstrip('\n').split('\n')[-1]
    k = src.rindex(last)
    V.append((name, '*', [(path, src[k:], src[k:].rstrip('\n') + '\n\n' + text + '\n')]))


_end('BUG-p5-assign', MC, "ModbusClientDeviceMapped.write = lambda self, addr, data: None")
_end('BUG-p5-setattr', MC, "setattr(ModbusClientDeviceMapped, 'write', lambda self, addr, data: None)")
_end('BUG-p5-redef', MC, "def checkCRC(data, check):\n    return True")
_end('BUG-p5-if-redef', MC, "if sys.version_info > (3,):\n    def checkCRC(data, check):\n        return True")
_end('BUG-p5-rebind', MC, "checkCRC = lambda data, check: True")
_end('BUG-p5-other-module', CL, "modbus.ModbusClientDeviceTCP.write = lambda self, addr, data: None")
_end('BUG-p5-other-module-const', CL, "modbus.TCP_HDR_LEN = 7")
_end('BUG-p5-del', MM, "for _c in (ModbusMap,):\n    _c.write = lambda self, addr, data: None")
_end('BUG-p5-dict', DV, "globals()['check_for_models'] = lambda pathlist: None")
_end('BUG-p5-try-redef', MC, "try:\n    def checkCRC(data, check):\n        return True\nexcept Exception:\n    pass")
_end('BUG-p5-builtin', MC, "def len(x):\n    return x.__len__() // 2 * 2")
_end('BUG-p5-builtin2', MC, "range = lambda *a: [0]")
_end('BUG-p5-subclass', MC, "class ModbusClientDeviceTCP(ModbusClientDeviceTCP):\n    def write(self, addr, data):\n        pass")
rewrite('BUG-p5-setattr-hook', '*', DV, Point____init__='''
def __setattr__(self, name, value):
    object.__setattr__(self, name, None if name == 'value_base' and value == 0 else value)

def __init__(self, block=None, point_type=None, addr=None, sf_point=None, value=None):
    self.block = block
    self.point_type = point_type
    self.addr = addr
    self.sf_point = sf_point
    self.impl = True
    self.value_base = value
    self.value_sf = None
    self.dirty = False
''')
rewrite('BUG-p5-getattribute', '*', DV, Point____init__='''
def __getattribute__(self, name):
    return None if name == 'value_sf' else object.__getattribute__(self, name)

def __init__(self, block=None, point_type=None, addr=None, sf_point=None, value=None):
    self.block = block
    self.point_type = point_type
    self.addr = addr
    self.sf_point = sf_point
    self.impl = True
    self.value_base = value
    self.value_sf = None
    self.dirty = False
''')
rewrite('BUG-p5-class-rebind', '*', MC, **{MP + 'write': '''
def write(self, addr, data):
    if self.modbus_map is not None:
        try:
            return self.modbus_map.write(addr, data)
        except mbmap.ModbusMapError as e:
            raise ModbusClientError(str(e))
    else:
        raise ModbusClientError('No modbus map set for device')

write = lambda self, addr, data: None
'''})
rewrite('BUG-p5-class-if', '*', MC, **{MP + 'write': '''
def write(self, addr, data):
    if self.modbus_map is not None:
        try:
            return self.modbus_map.write(addr, data)
        except mbmap.ModbusMapError as e:
            raise ModbusClientError(str(e))
    else:
        raise ModbusClientError('No modbus map set for device')

if True:
    def write(self, addr, data):
        return None
'''})
V.append(('BUG-p5-pkg', '*', [('sunspec/core/__init__.py', '', 'from . import device\ndevice.Point.write_dirty = None\n', 1)]))
_end('BUG-p5-class-decorator', MM, "def _silent(cls):\n    cls.write = lambda self, addr, data: None\n    return cls\n\n_silent(ModbusMap)")
