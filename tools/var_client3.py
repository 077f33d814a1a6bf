"""third round: the client with managers, generators, mixins"""
CL3 = 'cdev.*,cmodel.*,cblock.*,cpoint.*,view.*,bview.*,dev.*,class_get'

rewrite('k2-errors', CL3, CL, ClientDevice__read='''
def read(self, addr, count):
    with _modbus_errors('Modbus read error: %s'):
        return self._modbus().read(addr, count)
''', ClientDevice__write='''
def write(self, addr, data):
    with _modbus_errors('Modbus write error: %s'):
        return self._modbus().write(addr, data)

def _modbus(self):
    if self.modbus_device is None:
        raise SunSpecClientError('No modbus device set for SunSpec device')
    return self.modbus_device
''', ClientDevice__scan='''
def scan(self, progress=None, delay=None):
    with self._connection(delay):
        self._scan(progress, delay)

@contextlib.contextmanager
def _connection(self, delay):
    connect = bool(self.modbus_device) and type(self.modbus_device) == modbus.ModbusClientDeviceTCP
    if connect:
        with _modbus_errors('Modbus error: %s'):
            self.modbus_device.connect()
        if delay is not None:
            time.sleep(delay)
    try:
        yield
    finally:
        if connect:
            self.modbus_device.disconnect()
''')
n, k, e = V[-1]
V[-1] = (n, k, e + [(CL, 'import os\n', 'import contextlib\nimport os\n', 1),
                    (CL, 'class ClientDevice(device.Device):', '''@contextlib.contextmanager
def _modbus_errors(message):
    try:
        yield
    except modbus.ModbusClientError as e:
        raise SunSpecClientError(message % str(e))


class ClientDevice(device.Device):''', 1)])
rewrite('k2-scan-parts', CL3, CL, ClientDevice___scan='''
def _scan(self, progress=None, delay=None):
    if self.base_addr is None:
        data = self._find_base(delay)
    else:
        data = self.read(self.base_addr, 3)
    addr = self.base_addr + 2
    model_id = util.data_to_u16(data[4:6])
    while model_id is not None and model_id != suns.SUNS_END_MODEL_ID:
        data = self.read(addr + 1, 1)
        if not data or len(data) != 2:
            return
        if progress is not None and not progress('Scanning model %s' % (model_id)):
            raise SunSpecClientError('Device scan terminated')
        model_len = util.data_to_u16(data)
        self._scan_model(model_id, addr + 2, model_len)
        addr += model_len + 2
        data = self.read(addr, 1)
        if not data or len(data) != 2:
            return
        model_id = util.data_to_u16(data)
        if delay is not None:
            time.sleep(delay)

def _find_base(self, delay):
    error = ''
    for addr in self.base_addr_list:
        try:
            data = self.read(addr, 3)
        except SunSpecClientError as e:
            if not error:
                error = str(e)
        else:
            if data[:4] == b'SunS':
                self.base_addr = addr
                return data
            error = 'Device responded - not SunSpec register map'
        if delay is not None:
            time.sleep(delay)
    raise SunSpecClientError(error or 'Unknown error')

def _scan_model(self, model_id, addr, model_len):
    model = ClientModel(self, model_id, addr, model_len)
    try:
        model.load()
    except Exception as e:
        model.load_error = str(e)
    self.add_model(model)
''')
rewrite('k2-read-decode', CL3, CL, ClientModel__read_points='''
def read_points(self):
    if self.model_type is None:
        return
    try:
        data = self._read_data()
        if data is None:
            return
        if len(data) / 2 != self.len:
            raise SunSpecClientError('Error reading model %s' % self.model_type)
        for block in self.blocks:
            for pname, point in block.points_sf.items():
                point.value_base = self._decode(pname, point, data)
                if not point.point_type.is_impl(point.value_base):
                    point.value_base = None
            for pname, point in block.points.items():
                value = self._decode(pname, point, data)
                if isinstance(value, bytes):
                    value = value.decode('latin-1')
                point.value_base = value
                if not point.point_type.is_impl(value):
                    point.value_base = point.value_sf = None
                elif point.sf_point is not None:
                    point.value_sf = point.sf_point.value_base
    except SunSpecError as e:
        raise SunSpecClientError(e)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus error: %s' % str(e))

def _read_data(self):
    if len(self.read_blocks) == 1:
        return self.device.read(self.addr, self.len)
    end = self.addr + self.len
    data = b''
    for i, start in enumerate(self.read_blocks):
        stop = self.read_blocks[i + 1] if i + 1 < len(self.read_blocks) else end
        data += self.device.read(start, stop - start)
    return data

def _decode(self, pname, point, data):
    decode = point.point_type.data_to
    if decode is None:
        raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
    start = (int(point.addr) - int(self.addr)) * 2
    return decode(data[start:start + int(point.point_type.len) * 2])
''')
rewrite('k2-write-runs', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        for addr, data, points in self._runs(block):
            block.model.device.write(addr, data)
            for point in points:
                point.dirty = False

def _runs(self, block):
    addr, next_addr, data, points = None, None, b'', []
    for point in block.points_list:
        if not point.dirty:
            continue
        point_addr = int(point.addr)
        point_len = int(point.point_type.len)
        point_data = point.point_type.to_data(point.value_base, point_len * 2)
        if addr is not None and point_addr != next_addr:
            yield addr, data, points
            addr = None
        if addr is None:
            addr, data, points = point_addr, b'', []
        data += point_data
        points.append(point)
        next_addr = point_addr + point_len
    if addr is not None:
        yield addr, data, points
''')
rewrite('k2-write-flush', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        run = []
        data = b''
        for point in block.points_list:
            if not point.dirty:
                continue
            point_data = point.point_type.to_data(point.value_base, int(point.point_type.len) * 2)
            if run and int(point.addr) != int(run[-1].addr) + int(run[-1].point_type.len):
                self._flush(block, run, data)
                run, data = [], b''
            run.append(point)
            data += point_data
        if run:
            self._flush(block, run, data)

def _flush(self, block, run, data):
    block.model.device.write(int(run[0].addr), data)
    for point in run:
        point.dirty = False
''')
rewrite('k2-view-mixin', CL3, CL, SunSpecClientModelBase___get_property='''
def _points(self):
    return self.model.points
''', SunSpecClientModelBase___set_property='', SunSpecClientModelBase____getitem__='', SunSpecClientModelBase____setitem__='',
        SunSpecClientBlockBase___get_property='''
def _points(self):
    return self.block.points
''', SunSpecClientBlockBase___set_property='', SunSpecClientBlockBase____getitem__='', SunSpecClientBlockBase____setitem__='')
n, k, e = V[-1]
V[-1] = (n, k, e + [(CL, 'class SunSpecClientModelBase(object):', '''class _PointAccess(object):

    def _get_property(self, name):
        point = self._points().get(name)
        return point.value if point else None

    def _set_property(self, name, value):
        point = self._points().get(name)
        if point:
            point.value = value

    def __getitem__(self, name):
        return self._get_property(name)

    def __setitem__(self, name, item):
        self._set_property(name, item)


class SunSpecClientModelBase(_PointAccess):''', 1), (CL, 'class SunSpecClientBlockBase(object):', 'class SunSpecClientBlockBase(_PointAccess):', 1)])
rewrite('k2-class-names', CL3, CL, model_class_get='''
def _point_names(block_type):
    skipped = (suns.SUNS_TYPE_SUNSSF, suns.SUNS_TYPE_PAD)
    return [point_type.id for point_type in block_type.points_list if point_type.type not in skipped]

def _add_points(class_, names):
    class_.points = []
    for name in names:
        _add_property(class_, name)
        class_.points.append(name)

def _add_property(class_, name):
    def fget(self):
        return self._get_property(name)

    def fset(self, value):
        self._set_property(name, value)
    setattr(class_, name, property(fget, fset))

def model_class_get(model_id):
    def class_init(self, model, name):
        SunSpecClientModelBase.__init__(self, model, name)

    def block_class_init(self, block, name):
        SunSpecClientBlockBase.__init__(self, block, name)

    class_name = 'Model%s' % model_id
    class_ = globals().get(class_name)
    if class_ is None:
        class_ = globals()[class_name] = type(class_name, (SunSpecClientModelBase,), {'__init__': class_init})
    class_.points = []
    try:
        model_type = device.model_type_get(model_id)
    except Exception as e:
        class_.load_error = str(e)
        return class_
    if model_type is None:
        return class_
    _add_points(class_, _point_names(model_type.fixed_block))
    if model_type.repeating_block is not None:
        block_class = type(class_name + 'Repeating', (SunSpecClientBlockBase,), {'__init__': block_class_init})
        globals()[class_name + 'Repeating'] = block_class
        _add_points(block_class, _point_names(model_type.repeating_block))
    return class_
''')
rewrite('k2-dev-attach', CL3, CL, SunSpecClientDevice____init__='''
def __init__(self, device_type, slave_id=None, name=None, pathlist = None, baudrate=None, parity=None, ipaddr=None, ipport=None,
             tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False, scan_progress=None, scan_delay=None):
    self.models = []
    self.device = ClientDevice(device_type, slave_id=slave_id, name=name, pathlist=pathlist, baudrate=baudrate, parity=parity,
                               ipaddr=ipaddr, ipport=ipport, tls=tls, cafile=cafile, certfile=certfile, keyfile=keyfile,
                               insecure_skip_tls_verify=insecure_skip_tls_verify, timeout=timeout, trace=trace)
    try:
        self.device.scan(scan_progress, scan_delay)
        for model in self.device.models_list:
            self._attach(model)
    except Exception:
        self.device.close()
        raise

def _attach(self, model):
    model_id = str(model.id)
    class_ = model_class_get(model_id)
    name = model.model_type.name if model.model_type is not None else 'model_' + model_id
    view = class_(model, name)
    existing = getattr(self, name, None)
    if not existing:
        setattr(self, name, view)
        self.models.append(name)
        return
    if type(self[name]) is not list:
        setattr(self, name, [None, existing])
    self[name].append(view)
''')
rewrite('k2-init-table', CL3, CL, ClientDevice____init__='''
def __init__(self, device_type, slave_id=None, name=None, pathlist=None, baudrate=None, parity=None, ipaddr=None, ipport=None,
             tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False):
    super(ClientDevice, self).__init__(addr=None)
    self.type = device_type
    self.name = name
    self.pathlist = pathlist
    self.slave_id = slave_id
    self.modbus_device = None
    self.retry_count = 2
    self.base_addr_list = [40000, 0, 50000]

    def rtu():
        return modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)

    def tcp():
        return modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout, self, trace, tls, cafile, certfile, keyfile,
                                            insecure_skip_tls_verify)

    def mapped():
        if name is None:
            raise SunSpecClientError('Map file required for mapped device')
        return modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
    make = {RTU: rtu, TCP: tcp, MAPPED: mapped}.get(device_type)
    if make is not None:
        try:
            self.modbus_device = make()
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus error: %s' % str(e))
''')
rewrite('k2-write-runs-reset', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        for addr, data, points in self._runs(block):
            block.model.device.write(addr, data)
            for point in points:
                point.dirty = False

def _runs(self, block):
    addr, next_addr, data, points = None, None, b'', []
    for point in block.points_list:
        if not point.dirty:
            continue
        point_addr = int(point.addr)
        point_len = int(point.point_type.len)
        point_data = point.point_type.to_data(point.value_base, point_len * 2)
        if addr is not None and point_addr != next_addr:
            yield addr, data, points
            addr, data, points = None, b'', []
        if addr is None:
            addr = point_addr
        data += point_data
        points.append(point)
        next_addr = point_addr + point_len
    if addr is not None:
        yield addr, data, points
''')
rewrite('BUG-k2-write-runs', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        for addr, data, points in self._runs(block):
            block.model.device.write(addr, data)
            for point in points:
                point.dirty = False

def _runs(self, block):
    addr, next_addr, data, points = None, None, b'', []
    for point in block.points_list:
        if not point.dirty:
            continue
        point_addr = int(point.addr)
        point_len = int(point.point_type.len)
        point_data = point.point_type.to_data(point.value_base, point_len * 2)
        if addr is not None and point_addr != next_addr:
            yield addr, data, points
            addr, points = None, []
        if addr is None:
            addr = point_addr
        data += point_data
        points.append(point)
        next_addr = point_addr + point_len
    if addr is not None:
        yield addr, data, points
''')
rewrite('k2-write-flush-reset', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        addr, next_addr, data, points = None, None, b'', []
        for point in block.points_list:
            if not point.dirty:
                continue
            point_addr = int(point.addr)
            point_len = int(point.point_type.len)
            point_data = point.point_type.to_data(point.value_base, point_len * 2)
            if addr is not None and point_addr != next_addr:
                self._flush(block, addr, data, points)
                addr, data, points = None, b'', []
            if addr is None:
                addr = point_addr
            data += point_data
            points.append(point)
            next_addr = point_addr + point_len
        if addr is not None:
            self._flush(block, addr, data, points)

def _flush(self, block, addr, data, points):
    block.model.device.write(addr, data)
    for point in points:
        point.dirty = False
''')
rewrite('k2-write-flush-reset2', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        start = None
        expected = None
        data = b''
        points = []
        for point in block.points_list:
            if not point.dirty:
                continue
            addr = int(point.addr)
            size = int(point.point_type.len)
            encoded = point.point_type.to_data(point.value_base, size * 2)
            if start is not None and addr != expected:
                block.model.device.write(start, data)
                for p in points:
                    p.dirty = False
                start = None
                data = b''
                points = []
            if start is None:
                start = addr
            data = data + encoded
            points = points + [point]
            expected = addr + size
        if start is not None:
            block.model.device.write(start, data)
            for p in points:
                p.dirty = False
''')
rewrite('BUG-k2-write-flush-reset2', CL3, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        start = None
        expected = None
        data = b''
        points = []
        for point in block.points_list:
            if not point.dirty:
                continue
            addr = int(point.addr)
            size = int(point.point_type.len)
            encoded = point.point_type.to_data(point.value_base, size * 2)
            if start is not None and addr != expected:
                block.model.device.write(start, data)
                for p in points:
                    p.dirty = False
                start = None
                points = []
            if start is None:
                start = addr
            data = data + encoded
            points = points + [point]
            expected = addr + size
        if start is not None:
            block.model.device.write(start, data)
            for p in points:
                p.dirty = False
''')
