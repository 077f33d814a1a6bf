"""fourth round: constructors, the shared serial clients, checksums, comparisons"""
M4 = MODBUS + ',cdev.*,client.*,rtu_client.*,global*'
RT = 'ModbusClientRTU__'
RD = 'ModbusClientDeviceRTU__'
MP = 'ModbusClientDeviceMapped__'
rewrite('q4-rtu-client', '*', MC, modbus_rtu_client='''
def modbus_rtu_client(name=None, baudrate=None, parity=None):
    client = modbus_rtu_clients.get(name)
    if client is None:
        client = modbus_rtu_clients[name] = ModbusClientRTU(
            name,
            9600 if baudrate is None else baudrate,
            PARITY_NONE if parity is None else parity)
        return client
    for what, wanted, have in (('baudrate', baudrate, client.baudrate), ('parity', parity, client.parity)):
        if wanted not in (None, have):
            raise ModbusClientError('Modbus client %s mismatch' % what)
    return client
''', modbus_rtu_client_remove='''
def modbus_rtu_client_remove(name=None):
    modbus_rtu_clients.pop(name, None)
''')
rewrite('q4-rtu-client2', '*', MC, modbus_rtu_client='''
def _check_setting(what, wanted, actual):
    if wanted is not None and wanted != actual:
        raise ModbusClientError('Modbus client {} mismatch'.format(what))

def modbus_rtu_client(name=None, baudrate=None, parity=None):
    try:
        client = modbus_rtu_clients[name]
    except KeyError:
        client = None
    if client is not None:
        _check_setting('baudrate', baudrate, client.baudrate)
        _check_setting('parity', parity, client.parity)
        return client
    settings = {'baudrate': 9600, 'parity': PARITY_NONE}
    if baudrate is not None:
        settings['baudrate'] = baudrate
    if parity is not None:
        settings['parity'] = parity
    client = ModbusClientRTU(name, **settings)
    modbus_rtu_clients[name] = client
    return client
''')
rewrite('q4-rtu-close', '*', MC, **{RT + 'close': '''
def close(self):
    port = self.serial
    if port is None:
        return
    try:
        port.close()
    except Exception as e:
        raise ModbusClientError('Serial close error: %s' % e)
''', RT + 'add_device': '''
def add_device(self, slave_id, device):
    self.devices.update({slave_id: device})
''', RT + '__init__': '''
def __init__(self, name='/dev/ttyUSB0', baudrate=9600, parity=None):
    self.devices = dict()
    self.serial = None
    self.timeout = self.write_timeout = .5
    self.name, self.baudrate, self.parity = name, baudrate, parity
    self.open()
'''})
rewrite('q4-rtu-dev', '*', MC, **{RD + '__init__': '''
def __init__(self, slave_id, name, baudrate=None, parity=None, timeout=None, ctx=None, trace_func=None, max_count=REQ_COUNT_MAX):
    self.slave_id, self.name = slave_id, name
    self.ctx, self.trace_func, self.max_count = ctx, trace_func, max_count
    self.client = client = modbus_rtu_client(name, baudrate, parity)
    if client is None:
        raise ModbusClientError('No modbus rtu client set for device')
    client.add_device(slave_id, self)
    self._set_timeout(timeout)

def _set_timeout(self, timeout):
    port = self.client.serial
    if timeout is None or port is None:
        return
    port.timeout = port.writeTimeout = timeout
''', RD + 'close': '''
def close(self):
    client, slave_id = self.client, self.slave_id
    if not client:
        return
    client.remove_device(slave_id)
''', RD + 'read': '''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    options = dict(op=op, trace_func=self.trace_func, max_count=self.max_count)
    return self.client.read(self.slave_id, addr, count, **options)
''', RD + 'write': '''
def write(self, addr, data):
    return self.client.write(self.slave_id, addr, data, self.trace_func, self.max_count)
'''})
rewrite('q4-mapped', '*', MC, **{MP + '__init__': '''
def __init__(self, slave_id, name, pathlist=None, max_count=None, ctx=None):
    if name is None:
        raise ModbusClientError('No modbus map file provided during initialization')
    self.slave_id, self.name, self.ctx = slave_id, name, ctx
    self.modbus_map = mbmap.ModbusMap(slave_id)
    self._guarded(self.modbus_map.from_xml, name, pathlist)

def _guarded(self, func, *args):
    try:
        return func(*args)
    except mbmap.ModbusMapError as e:
        raise ModbusClientError(str(e))

def _map(self):
    if self.modbus_map is None:
        raise ModbusClientError('No modbus map set for device')
    return self.modbus_map
''', MP + 'read': '''
def read(self, addr, count, op=None):
    return self._guarded(self._map().read, addr, count, op)
''', MP + 'write': '''
def write(self, addr, data):
    return self._guarded(self._map().write, addr, data)
'''})
rewrite('q4-mapped-deco', '*', MC, _top='''
import functools


def _map_errors(func):
    @functools.wraps(func)
    def wrapper(self, *args, **kwargs):
        if self.modbus_map is None:
            raise ModbusClientError('No modbus map set for device')
        try:
            return func(self, *args, **kwargs)
        except mbmap.ModbusMapError as e:
            raise ModbusClientError(str(e))
    return wrapper
''', **{MP + 'read': '''
@_map_errors
def read(self, addr, count, op=None):
    return self.modbus_map.read(addr, count, op)
''', MP + 'write': '''
@_map_errors
def write(self, addr, data):
    return self.modbus_map.write(addr, data)
'''})
rewrite('q4-crc', '*', MC, __generate_crc16_table='''
def __generate_crc16_table():
    return [_crc16_entry(byte) for byte in range(256)]

def _crc16_entry(crc):
    for _ in range(8):
        crc = (crc >> 1) ^ (0xa001 if crc & 1 else 0)
    return crc
''', computeCRC='''
def computeCRC(data):
    if isinstance(data, bytes):
        data = data.decode('latin-1')
    crc = 0xffff
    for ch in data:
        crc = (crc >> 8) ^ __crc16_table[(crc ^ ord(ch)) & 0xff]
    low, high = crc & 0xff, crc >> 8
    return low << 8 | high
''', checkCRC='''
def checkCRC(data, check):
    return check == computeCRC(data)
''')
rewrite('q4-crc2', '*', MC, computeCRC='''
def computeCRC(data):
    """bit by bit"""
    if type(data) is bytes:
        codes = list(data)
    else:
        codes = [ord(c) for c in data]
    crc = 0xffff
    for code in codes:
        index = (crc & 0xff) ^ code & 0xff
        crc = (crc >> 8) ^ __crc16_table[index]
    return ((crc & 0xff) << 8) + (crc >> 8)
''')
rewrite('q4-crc3', '*', MC, computeCRC='''
def _step(crc, code):
    return __crc16_table[(crc ^ code) & 0xff] ^ (crc >> 8)

def computeCRC(data):
    from functools import reduce
    codes = data if isinstance(data, bytes) else map(ord, data)
    crc = reduce(_step, codes, 0xffff)
    return ((crc << 8) | (crc >> 8)) & 0xffff
''')
D4 = '*'
rewrite('q4-dev-init', '*', DV, Device____init__='''
def __init__(self, addr=suns.SUNS_BASE_ADDR_DEFAULT):
    self.models, self.models_list = {}, []
    self.base_addr = addr
''', Block____init__='''
def __init__(self, model, addr, blen, block_type, index=1):
    self.points, self.points_list, self.points_sf = {}, [], {}
    self.block_type, self.type = block_type, block_type.type
    for name, value in (('model', model), ('addr', addr), ('len', blen), ('index', index)):
        setattr(self, name, value)
''', Point____init__='''
def __init__(self, block=None, point_type=None, addr=None, sf_point=None, value=None):
    self.__dict__.update(block=block, point_type=point_type, addr=addr, sf_point=sf_point, impl=True, value_base=value,
                         value_sf=None, dirty=False)
''', Model____init__='''
def __init__(self, device=None, mid=None, addr=0, mlen=0, index=1):
    self.id, self.len = map(int, (mid, mlen))
    self.device, self.addr, self.index = device, addr, index
    self.model_type = self.load_error = None
    self.points_list, self.blocks, self.read_blocks = [], [], []
    self.points, self.points_sf = {}, {}
''', ModelType____init__='''
def __init__(self, mid=None):
    self.id = mid
    for name in ('len', 'name', 'label', 'description', 'notes', 'fixed_block', 'repeating_block'):
        setattr(self, name, None)
    self.symbols = {}
''', BlockType____init__='''
def __init__(self, btype=None, blen=0, name=None, model_type=None):
    self.points_list, self.points = list(), dict()
    self.type, self.len, self.name, self.model_type = btype, blen, name, model_type
''', Symbol____init__='''
def __init__(self, sid=None):
    self.id = sid
    self.value = self.label = self.description = self.notes = None
''')
rewrite('q4-dev-neq', '*', DV, Block__not_equal='''
def not_equal(self, block):
    reason = self.block_type.not_equal(block.block_type)
    if reason:
        return 'block {} not equal - block type not equal: {}'.format(self.block_type.type, reason)
    others = block.points
    reasons = (p.not_equal(others.get(p.point_type.id)) for p in self.points_list)
    for reason in filter(None, reasons):
        return 'block %d not equal - %s' % (self.index, reason)
    return False
''', Model__not_equal='''
def not_equal(self, model):
    mine, theirs = self.blocks, model.blocks
    if len(mine) != len(theirs):
        return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(mine), len(theirs))
    template = 'model {} not equal - model id not equal: {}'
    reason = self.model_type.not_equal(model.model_type)
    if not reason:
        template = 'model {} not equal - {}'
        for a, b in zip(mine, theirs):
            reason = a.not_equal(b)
            if reason:
                break
    return template.format(self.model_type.id, reason) if reason else False
''', BlockType__not_equal='''
def not_equal(self, block_type):
    if self == block_type:
        return False
    if block_type is None:
        return "BlockType '%s' is none" % self.type
    for attr in ('type', 'len'):
        a, b = getattr(self, attr), getattr(block_type, attr)
        if a != b:
            return "BlockType attribute '{}' not equal: {}  {}".format(attr, a, b)
    if len(self.points) != len(block_type.points):
        return "BlockType '%s' point count not equal" % self.type
    return next((r for r in (v.not_equal(block_type.points.get(k)) for k, v in self.points.items()) if r), False)
''')
rewrite('q4-dev-neq2', '*', DV, PointType__not_equal='''
def not_equal(self, point_type):
    if self == point_type:
        return False
    if point_type is None:
        return "PointType '%s' is None" % (str(self.id))
    mine, theirs = vars(self), vars(point_type)
    if len(mine) != len(theirs):
        return "PointType '%s' attribute count not equal: %d  %d" % (str(self.id), len(mine), len(theirs))
    for name in mine:
        if name == 'block_type':
            continue
        a, b = mine[name], theirs.get(name)
        if a is None or b is None or a == b:
            continue
        return "PointType '{}' attribute '{}' not equal: {}  {}".format(self.id, name, a, b)
    return False
''', Device__to_pics='''
def to_pics(self, parent, single_repeating=True):
    node = ET.SubElement(parent, pics.PICS_DEVICE, {pics.PICS_ATTR_VERSION: str(pics.PICS_VERSION)})
    for model in list(self.models_list):
        model.to_pics(node, single_repeating)
''', fresh_file_pathlist='''
def fresh_file_pathlist(*paths):
    global file_pathlist
    saved, file_pathlist = file_pathlist, util.PathList()
    add = file_pathlist.add
    for path in map(fspath, paths):
        add(path)
    try:
        yield file_pathlist
    finally:
        file_pathlist = saved
''')
rewrite('q4-cl-init', '*', CL, SunSpecClientModelBase____init__='''
def __init__(self, model, name):
    self.model, self.name = model, name
    self.repeating_name, self.repeating = 'repeating', [None]
    repeating_blocks = model.blocks[1:]
    if not repeating_blocks:
        return
    block_class_name = type(self).__name__ + 'Repeating'
    for block in repeating_blocks:
        self._add_repeating(block, block_class_name)

def _add_repeating(self, block, class_name):
    name = block.block_type.name
    if name != self.repeating_name:
        self.repeating_name = name
        setattr(self, name, self.repeating)
    self.repeating.append(globals().get(class_name)(block, self.repeating_name))
''', ClientDevice__read_points='''
def read_points(self):
    for i in range(len(self.models_list)):
        self.models_list[i].read_points()
''', SunSpecClientModelBase__write='''
def write(self):
    return self.model.write_points()
''', SunSpecClientDevice__read='''
def read(self):
    device = self.device
    device.read_points()
''')
rewrite('BUG-q4-deco-cache', 'mapped.*', MC, _top='''
def _once(func):
    seen = {}
    def wrapper(self, addr, count, op=None):
        key = (addr, count, op)
        if key not in seen:
            seen[key] = func(self, addr, count, op)
        return seen[key]
    return wrapper
''', **{MP + 'read': '''
@_once
def read(self, addr, count, op=None):
    if self.modbus_map is not None:
        try:
            return self.modbus_map.read(addr, count, op)
        except mbmap.ModbusMapError as e:
            raise ModbusClientError(str(e))
    else:
        raise ModbusClientError('No modbus map set for device')
'''})
rewrite('BUG-q4-deco-swallow', 'mapped.*', MC, _top='''
def _quiet(func):
    def wrapper(self, addr, data):
        try:
            return func(self, addr, data)
        except ModbusClientError:
            return None
    return wrapper
''', **{MP + 'write': '''
@_quiet
def write(self, addr, data):
    if self.modbus_map is not None:
        try:
            return self.modbus_map.write(addr, data)
        except mbmap.ModbusMapError as e:
            raise ModbusClientError(str(e))
    else:
        raise ModbusClientError('No modbus map set for device')
'''})
rewrite('BUG-q4-lru', 'mapped.*', MC, **{MP + 'read': '''
@functools.lru_cache(maxsize=None)
def read(self, addr, count, op=None):
    if self.modbus_map is not None:
        try:
            return self.modbus_map.read(addr, count, op)
        except mbmap.ModbusMapError as e:
            raise ModbusClientError(str(e))
    else:
        raise ModbusClientError('No modbus map set for device')
'''}, _top='import functools')
