"""second round: client device, models, points and views"""
CL2 = 'cdev.*,cmodel.*,cblock.*,cpoint.*,view.*,bview.*,dev.*,class_get'

rewrite('c2-init', CL2, CL, ClientDevice____init__='''
def __init__(self, device_type, slave_id=None, name=None, pathlist=None, baudrate=None, parity=None, ipaddr=None, ipport=None,
             tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False):
    super(ClientDevice, self).__init__(addr=None)
    self.type = device_type
    self.name = name
    self.pathlist = pathlist
    self.slave_id = slave_id
    self.retry_count = 2
    self.base_addr_list = [40000, 0, 50000]
    self.modbus_device = None
    if device_type == MAPPED and name is None:
        raise SunSpecClientError('Map file required for mapped device')
    try:
        if device_type == RTU:
            self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, ctx=self, trace_func=trace)
        elif device_type == TCP:
            self.modbus_device = modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout=timeout, ctx=self, trace_func=trace, tls=tls,
                                                              cafile=cafile, certfile=certfile, keyfile=keyfile,
                                                              insecure_skip_tls_verify=insecure_skip_tls_verify)
        elif device_type == MAPPED:
            self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus error: %s' % str(e))
''')
rewrite('c2-read-write', CL2, CL, ClientDevice__read='''
def read(self, addr, count):
    link = self._link()
    try:
        return link.read(addr, count)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus read error: %s' % str(e))

def _link(self):
    if self.modbus_device is None:
        raise SunSpecClientError('No modbus device set for SunSpec device')
    return self.modbus_device
''', ClientDevice__write='''
def write(self, addr, data):
    link = self._link()
    try:
        return link.write(addr, data)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus write error: %s' % str(e))
''')
rewrite('c2-scan', CL2, CL, ClientDevice__scan='''
def scan(self, progress=None, delay=None):
    link = self.modbus_device
    if not (link and type(link) is modbus.ModbusClientDeviceTCP):
        return self._scan(progress, delay)
    try:
        link.connect()
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus error: %s' % str(e))
    try:
        self._pause(delay)
        self._scan(progress, delay)
    finally:
        link.disconnect()

def _pause(self, delay):
    if delay is not None:
        time.sleep(delay)
''')
rewrite('c2-scan-walk', CL2, CL, ClientDevice___scan='''
def _scan(self, progress=None, delay=None):
    if self.base_addr is None:
        data = self._find_base(delay)
    else:
        data = self.read(self.base_addr, 3)
    model_id = util.data_to_u16(data[4:6])
    addr = self.base_addr + 2
    while model_id != suns.SUNS_END_MODEL_ID:
        data = self.read(addr + 1, 1)
        if not data or len(data) != 2:
            return
        if progress is not None and not progress('Scanning model %s' % (model_id)):
            raise SunSpecClientError('Device scan terminated')
        model_len = util.data_to_u16(data)
        model = ClientModel(self, model_id, addr + 2, model_len)
        try:
            model.load()
        except Exception as e:
            model.load_error = str(e)
        self.add_model(model)
        addr += model_len + 2
        data = self.read(addr, 1)
        if not data or len(data) != 2:
            return
        model_id = util.data_to_u16(data)
        if delay is not None:
            time.sleep(delay)

def _find_base(self, delay):
    error = ''
    for addr in self.base_addr_list:
        try:
            data = self.read(addr, 3)
            if data[:4] == b'SunS':
                self.base_addr = addr
                return data
            error = 'Device responded - not SunSpec register map'
        except SunSpecClientError as e:
            error = error or str(e)
        if delay is not None:
            time.sleep(delay)
    raise SunSpecClientError(error or 'Unknown error')
''')
rewrite('c2-read-points', CL2, CL, ClientModel__read_points='''
def read_points(self):
    if self.model_type is None:
        return
    try:
        data = self._registers()
        if data is None:
            return
        if len(data) != 2 * self.len:
            raise SunSpecClientError('Error reading model %s' % self.model_type)
        for block in self.blocks:
            for pname, point in block.points_sf.items():
                point.value_base = self._decode(point, data)
                if not point.point_type.is_impl(point.value_base):
                    point.value_base = None
            for pname, point in block.points.items():
                value = self._decode(point, data)
                if isinstance(value, bytes):
                    value = str(value, 'latin-1')
                point.value_base = value
                if not point.point_type.is_impl(value):
                    point.value_base = None
                    point.value_sf = None
                elif point.sf_point is not None:
                    point.value_sf = point.sf_point.value_base
    except SunSpecError as e:
        raise SunSpecClientError(e)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus error: %s' % str(e))

def _decode(self, point, data):
    ptype = point.point_type
    if ptype.data_to is None:
        raise SunSpecClientError('No data_to function set for {} : {}'.format(ptype.id, ptype))
    start = 2 * (int(point.addr) - int(self.addr))
    return ptype.data_to(data[start:start + 2 * int(ptype.len)])

def _registers(self):
    starts = self.read_blocks
    if len(starts) == 1:
        return self.device.read(self.addr, self.len)
    data = b''
    for i, start in enumerate(starts):
        if i + 1 < len(starts):
            end = starts[i + 1]
        else:
            end = self.addr + self.len
        data += self.device.read(start, end - start)
    return data
''')
rewrite('c2-read-points-zip', CL2, CL, ClientModel__read_points='''
def read_points(self):
    if self.model_type is None:
        return
    try:
        if len(self.read_blocks) == 1:
            data = self.device.read(self.addr, self.len)
        else:
            data = b''
            for start, end in zip(self.read_blocks, self.read_blocks[1:] + [self.addr + self.len]):
                data += self.device.read(start, end - start)
        if data is not None:
            if len(data) / 2 != self.len:
                raise SunSpecClientError('Error reading model %s' % self.model_type)
            for block in self.blocks:
                for point in block.points_sf.values():
                    self._load(point, data)
                    if not point.point_type.is_impl(point.value_base):
                        point.value_base = None
                for point in block.points.values():
                    self._load(point, data)
                    if type(point.value_base) == bytes:
                        point.value_base = point.value_base.decode('latin-1')
                    if point.point_type.is_impl(point.value_base):
                        if point.sf_point is not None:
                            point.value_sf = point.sf_point.value_base
                    else:
                        point.value_base = point.value_sf = None
    except SunSpecError as e:
        raise SunSpecClientError(e)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus error: %s' % str(e))

def _load(self, point, data):
    ptype = point.point_type
    if ptype.data_to is None:
        raise SunSpecClientError('No data_to function set for {} : {}'.format(ptype.id, ptype))
    first = (int(point.addr) - int(self.addr)) * 2
    last = first + int(ptype.len) * 2
    point.value_base = ptype.data_to(data[first:last])
''')
rewrite('c2-write-points', CL2, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        addr = None
        data = b''
        pending = []
        for point in block.points_list:
            if not point.dirty:
                continue
            point_addr = int(point.addr)
            point_len = int(point.point_type.len)
            encoded = point.point_type.to_data(point.value_base, point_len * 2)
            if addr is not None and point_addr != next_addr:
                self._flush(block, addr, data, pending)
                addr = None
            if addr is None:
                addr, data, pending = point_addr, b'', []
            data += encoded
            pending.append(point)
            next_addr = point_addr + point_len
        if addr is not None:
            self._flush(block, addr, data, pending)

def _flush(self, block, addr, data, pending):
    block.model.device.write(addr, data)
    for point in pending:
        point.dirty = False
''')
rewrite('c2-write-points-dirty', CL2, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        start = next_addr = None
        data = b''
        pending = []
        for point in [p for p in block.points_list if p.dirty]:
            addr = int(point.addr)
            size = int(point.point_type.len)
            encoded = point.point_type.to_data(point.value_base, (size * 2))
            if start is not None and next_addr != addr:
                block.model.device.write(start, data)
                for written in pending:
                    written.dirty = False
                pending = []
                start = None
            if start is None:
                start = addr
                data = b''
            next_addr = addr + size
            data += encoded
            pending.append(point)
        if start is not None:
            block.model.device.write(start, data)
            for written in pending:
                written.dirty = False
''')
rewrite('BUG-c2-write-early-clean', CL2, CL, ClientModel__write_points='''
def write_points(self):
    for block in self.blocks:
        addr = None
        data = b''
        for point in block.points_list:
            if not point.dirty:
                continue
            point_addr = int(point.addr)
            point_len = int(point.point_type.len)
            encoded = point.point_type.to_data(point.value_base, point_len * 2)
            if addr is not None and point_addr != next_addr:
                block.model.device.write(addr, data)
                addr = None
            if addr is None:
                addr, data = point_addr, b''
            data += encoded
            point.dirty = False
            next_addr = point_addr + point_len
        if addr is not None:
            block.model.device.write(addr, data)
''')
rewrite('c2-point-write', CL2, CL, ClientPoint__write='''
def write(self):
    size = 2 * int(self.point_type.len)
    target = self.block.model.device
    target.write(int(self.addr), self.point_type.to_data(self.value_base, size))
    self.dirty = False
''')
rewrite('c2-view-init', CL2, CL, SunSpecClientModelBase____init__='''
def __init__(self, model, name):
    self.model = model
    self.name = name
    self.repeating = [None]
    self.repeating_name = 'repeating'
    class_name = self.__class__.__name__ + 'Repeating'
    for block in model.blocks[1:]:
        block_name = block.block_type.name
        if block_name != self.repeating_name:
            self.repeating_name = block_name
            setattr(self, block_name, self.repeating)
        self.repeating.append(globals().get(class_name)(block, self.repeating_name))
''')
rewrite('c2-view-get', CL2, CL, SunSpecClientModelBase___get_property='''
def _get_property(self, name):
    point = self.model.points.get(name)
    return point.value if point else None
''', SunSpecClientModelBase___set_property='''
def _set_property(self, name, value):
    if name in self.model.points:
        self.model.points[name].value = value
''', SunSpecClientModelBase____getitem__='''
def __getitem__(self, name):
    point = self.model.points.get(name)
    if not point:
        return None
    return point.value
''', SunSpecClientModelBase____setitem__='''
def __setitem__(self, name, item):
    self._set_property(name, item)
''')
rewrite('c2-class-get', CL2, CL, model_class_get='''
def model_class_get(model_id):
    def add_points(cls, block_type):
        cls.points = []
        for point_type in block_type.points_list:
            if point_type.type in (suns.SUNS_TYPE_SUNSSF, suns.SUNS_TYPE_PAD):
                continue
            add_property(cls, point_type.id)
            cls.points.append(point_type.id)

    def add_property(cls, name):
        setattr(cls, name, property(lambda self: self._get_property(name), lambda self, value: self._set_property(name, value)))

    def class_init(self, model, name):
        SunSpecClientModelBase.__init__(self, model, name)

    def block_class_init(self, block, name):
        SunSpecClientBlockBase.__init__(self, block, name)

    class_name = 'Model' + str(model_id)
    class_ = globals().get(class_name)
    if class_ is None:
        class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
        globals()[class_name] = class_
    class_.points = []
    try:
        model_type = device.model_type_get(model_id)
    except Exception as e:
        class_.load_error = str(e)
        return class_
    if model_type is None:
        return class_
    add_points(class_, model_type.fixed_block)
    if model_type.repeating_block is not None:
        block_class_name = class_name + 'Repeating'
        block_class = type(block_class_name, (SunSpecClientBlockBase,), {'__init__' : block_class_init})
        globals()[block_class_name] = block_class
        add_points(block_class, model_type.repeating_block)
    return class_
''')
rewrite('c2-class-get-subclass', CL2, CL, model_class_get='''
def model_class_get(model_id):
    class_name = 'Model' + str(model_id)
    class_ = globals().get(class_name)
    if class_ is None:
        class_ = type(class_name, (SunSpecClientModelBase,), {})
        globals()[class_name] = class_
    class_.points = []
    model_type = None
    try:
        model_type = device.model_type_get(model_id)
    except Exception as e:
        class_.load_error = str(e)
    if model_type is not None:
        _add_points(class_, model_type.fixed_block)
        block_type = model_type.repeating_block
        if block_type is not None:
            block_class_name = class_name + 'Repeating'
            block_class = type(block_class_name, (SunSpecClientBlockBase,), {'points': []})
            globals()[block_class_name] = block_class
            _add_points(block_class, block_type)
    return class_

def _add_points(class_, block_type):
    for point_type in block_type.points_list:
        if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
            _add_property(class_, point_type.id)
            class_.points.append(point_type.id)

def _add_property(class_, name):
    def fget(self):
        return self._get_property(name)
    def fset(self, value):
        self._set_property(name, value)
    setattr(class_, name, property(fget, fset))
''')
rewrite('c2-dev-init', CL2, CL, SunSpecClientDevice____init__='''
def __init__(self, device_type, slave_id=None, name=None, pathlist = None, baudrate=None, parity=None, ipaddr=None, ipport=None,
             tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False, scan_progress=None, scan_delay=None):
    self.device = ClientDevice(device_type, slave_id, name, pathlist, baudrate, parity, ipaddr, ipport, tls, cafile, certfile, keyfile, insecure_skip_tls_verify, timeout, trace)
    self.models = []
    try:
        self.device.scan(progress=scan_progress, delay=scan_delay)
        for model in self.device.models_list:
            self._add_view(model)
    except Exception:
        self.device.close()
        raise

def _add_view(self, model):
    model_id = str(model.id)
    view_class = model_class_get(model_id)
    name = 'model_' + model_id
    if model.model_type is not None:
        name = model.model_type.name
    view = view_class(model, name)
    existing = getattr(self, name, None)
    if not existing:
        setattr(self, name, view)
        self.models.append(name)
        return
    if type(self[name]) is not list:
        self[name] = [None, existing]
    self[name].append(view)
''', SunSpecClientDevice____getitem__='''
def __getitem__(self, key):
    return vars(self).get(key)
''')
