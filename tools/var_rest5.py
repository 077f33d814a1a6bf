"""fifth round: functions few other variants touch"""
rewrite('r5-codec-table', '*', UT, _top='''
_S16 = struct.Struct('>h')
_U16 = struct.Struct('>H')
_S32 = struct.Struct('>l')
_U32 = struct.Struct('>L')
_S64 = struct.Struct('>q')
_U64 = struct.Struct('>Q')
''', data_to_s16='''
def data_to_s16(data):
    return _S16.unpack(data)[0]
''', data_to_s64='''
def data_to_s64(data):
    (value,) = _S64.unpack(data)
    return value
''', u64_to_data='''
def u64_to_data(u64, len=None):
    return _U64.pack(u64)
''', s64_to_data='''
def s64_to_data(s64, len=None):
    return _S64.pack(s64)
''', float_to_data='''
def float_to_data(f, len=None):
    fmt = '>d'
    return struct.pack(fmt, f)
''', float32_to_data='''
def float32_to_data(f, len=None):
    return float_to_data32(f, len)
''')
rewrite('r5-codec-int', '*', UT, data_to_u16='''
def data_to_u16(data):
    return _unpack('H', data)
''', data_to_s32='''
def data_to_s32(data):
    return _unpack('l', data)
''', data_to_u64='''
def data_to_u64(data):
    return _unpack('Q', data)
''', _top='''
def _unpack(code, data):
    return struct.unpack('>' + code, data)[0]

def _pack(code, value):
    return struct.pack('>' + code, value)
''', s16_to_data='''
def s16_to_data(s16, len=None):
    return _pack('h', s16)
''', u32_to_data='''
def u32_to_data(u32, len=None):
    return _pack('L', u32)
''')
rewrite('r5-path', '*', UT, PathList__add='''
def add(self, path):
    self.path += [path]
''', PathList____init__='''
def __init__(self, path_list=None):
    self.path = [] if path_list is None else path_list
''', PathList____str__='''
def __str__(self):
    return str([p for p in self.path])
''')
rewrite('r5-cdev-check', '*', CL, ClientDevice__read='''
def read(self, addr, count):
    return self._request('read', addr, count)

def _request(self, what, *args):
    device_ = self.modbus_device
    if device_ is None:
        raise SunSpecClientError('No modbus device set for SunSpec device')
    try:
        return getattr(device_, what)(*args)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus %s error: %s' % (what, str(e)))
''', ClientDevice__write='''
def write(self, addr, data):
    return self._request('write', addr, data)
''', ClientDevice__close='''
def close(self):
    modbus_device = self.modbus_device
    if modbus_device is None:
        return
    modbus_device.close()
''')
rewrite('r5-super', '*', CL, ClientModel____init__='''
def __init__(self, dev=None, mid=None, addr=0, mlen=None, index=1):
    super(ClientModel, self).__init__(device=dev, mid=mid, addr=addr, mlen=mlen, index=index)
''', ClientBlock____init__='''
def __init__(self, model, addr, blen, block_type, index=1):
    super(ClientBlock, self).__init__(model, addr, blen, block_type, index=index)
''', ClientPoint____init__='''
def __init__(self, block=None, point_type=None, addr=None, sf_point=None, value=None):
    super().__init__(block=block, point_type=point_type, addr=addr, sf_point=sf_point, value=value)
''', ClientModel__load='''
def load(self):
    super().load(block_class=ClientBlock, point_class=ClientPoint)
''', ClientPoint__write='''
def write(self):
    point_type = self.point_type
    device_ = self.block.model.device
    device_.write(int(self.addr), point_type.to_data(self.value_base, 2 * int(point_type.len)))
    self.dirty = False
''')
rewrite('r5-view-str', '*', CL, SunSpecClientModelBase____str__='''
def __str__(self):
    lines = ['\\n{} ({}):\\n'.format(self.name, self.model.id)]
    for name in self.points:
        value = getattr(self, name)
        if value is None:
            continue
        lines.append('{}:  {}\\n'.format(name, value))
    lines.extend(str(block) for block in self.repeating[1:])
    return ''.join(lines)
''', SunSpecClientBlockBase____str__='''
def __str__(self):
    text = '\\n%s[%d]:\\n' % (self.name, self.block.index)
    values = ((name, getattr(self, name)) for name in self.points)
    return text + ''.join('%s:  %s\\n' % (name, value) for name, value in values if value is not None)
''', SunSpecClientDevice____str__='''
def __str__(self):
    return ''.join(str(self[name]) for name in self.models)
''')
rewrite('r5-view-dict', '*', CL, SunSpecClientDevice____getitem__='''
def __getitem__(self, key):
    if key in self.__dict__:
        return self.__dict__[key]
    return None
''', SunSpecClientDevice____setitem__='''
def __setitem__(self, key, item):
    setattr(self, key, item)
''', SunSpecClientModelBase____getitem__='''
def __getitem__(self, name):
    value = self._get_property(name)
    return value
''', SunSpecClientModelBase____setitem__='''
def __setitem__(self, name, item):
    self._set_property(name, item)
''', SunSpecClientBlockBase____setitem__='''
def __setitem__(self, name, item):
    self._set_property(name, value=item)
''')
rewrite('r5-dev-ctor', '*', CL, ClientDevice____init__='''
def __init__(self, device_type, slave_id=None, name=None, pathlist=None, baudrate=None, parity=None, ipaddr=None, ipport=None,
             tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False):
    super().__init__(addr=None)

    self.type, self.name, self.pathlist, self.slave_id = device_type, name, pathlist, slave_id
    self.modbus_device = None
    self.retry_count = 2
    self.base_addr_list = [40000, 0, 50000]

    if device_type == MAPPED and name is None:
        raise SunSpecClientError('Map file required for mapped device')
    try:
        if device_type == RTU:
            self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout=timeout, ctx=self, trace_func=trace)
        elif device_type == TCP:
            self.modbus_device = modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout=timeout, ctx=self, trace_func=trace,
                                                              tls=tls, cafile=cafile, certfile=certfile, keyfile=keyfile,
                                                              insecure_skip_tls_verify=insecure_skip_tls_verify)
        elif device_type == MAPPED:
            self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
    except modbus.ModbusClientError as e:
        raise SunSpecClientError('Modbus error: %s' % str(e))
''')
rewrite('r5-rtu-open', '*', MC, ModbusClientRTU__open='''
def _serial_settings(self):
    parity = serial.PARITY_EVEN if self.parity == PARITY_EVEN else serial.PARITY_NONE
    return dict(port=self.name, baudrate=self.baudrate, bytesize=8, parity=parity, stopbits=1, xonxoff=0,
                timeout=self.timeout, writeTimeout=self.write_timeout)

def open(self):
    """ Open the RTU client serial interface.
    """
    try:
        settings = self._serial_settings()
        if self.name == TEST_NAME:
            import sunspec.core.test.fake.serial as fake
            self.serial = fake.Serial(**settings)
        else:
            self.serial = serial.Serial(**settings)
    except Exception as e:
        port = self.serial
        if port is not None:
            port.close()
            self.serial = None
        raise ModbusClientError('Serial init error: %s' % str(e))
''', ModbusClientRTU__close='''
def close(self):
    port = self.serial
    if port is None:
        return
    try:
        port.close()
    except Exception as e:
        raise ModbusClientError('Serial close error: %s' % str(e))
''', ModbusClientRTU__remove_device='''
def remove_device(self, slave_id):
    if self.devices.get(slave_id):
        self.devices.pop(slave_id)
    if not self.devices:
        self.close()
        modbus_rtu_client_remove(self.name)
''')
rewrite('r5-rtu-dev', '*', MC, ModbusClientDeviceRTU____init__='''
def __init__(self, slave_id, name, baudrate=None, parity=None, timeout=None, ctx=None, trace_func=None, max_count=REQ_COUNT_MAX):
    self.slave_id = slave_id
    self.name = name
    self.ctx = ctx
    self.trace_func = trace_func
    self.max_count = max_count
    self.client = None
    client = modbus_rtu_client(name, baudrate=baudrate, parity=parity)
    self.client = client
    if client is None:
        raise ModbusClientError('No modbus rtu client set for device')
    client.add_device(slave_id, self)
    port = client.serial
    if port is not None and timeout is not None:
        port.timeout = port.writeTimeout = timeout
''', ModbusClientDeviceRTU__read='''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    options = {'op': op, 'trace_func': self.trace_func, 'max_count': self.max_count}
    return self.client.read(self.slave_id, addr, count, **options)
''', ModbusClientDeviceRTU__write='''
def write(self, addr, data):
    client = self.client
    return client.write(self.slave_id, addr, data, self.trace_func, self.max_count)
''', ModbusClientDeviceRTU__close='''
def close(self):
    client = self.client
    if not client:
        return
    client.remove_device(self.slave_id)
''')
rewrite('r5-tcp-conn', '*', MC, ModbusClientDeviceTCP____init__='''
def __init__(self, slave_id, ipaddr, ipport=502, timeout=None, ctx=None, trace_func=None, tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, max_count=REQ_COUNT_MAX, test=False):
    self.slave_id = slave_id
    self.ipaddr = ipaddr
    self.ipport = TCP_DEFAULT_PORT if ipport is None else ipport
    self.timeout = timeout if timeout is not None else TCP_DEFAULT_TIMEOUT
    self.ctx = ctx
    self.trace_func = trace_func
    self.tls = tls
    self.cafile, self.certfile, self.keyfile = cafile, certfile, keyfile
    self.tls_verify = not insecure_skip_tls_verify
    self.max_count = max_count
    self.socket = None
    if test:
        from sunspec.core.test.fake import socket as fake
        self.socket = fake.socket()
''', ModbusClientDeviceTCP__connect='''
def connect(self, timeout=None):
    self.disconnect()
    limit = self.timeout if timeout is None else timeout
    try:
        self.socket = sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.settimeout(limit)
        if self.tls:
            self.socket = sock = self._wrap(sock)
        sock.connect((self.ipaddr, self.ipport))
    except Exception as e:
        self.disconnect()
        raise ModbusClientError('Connection error: %s' % str(e))

def _wrap(self, sock):
    context = ssl.create_default_context(purpose=ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
    context.load_cert_chain(self.certfile, self.keyfile)
    context.check_hostname = self.tls_verify
    return context.wrap_socket(sock, server_hostname=self.ipaddr)
''', ModbusClientDeviceTCP__disconnect='''
def disconnect(self):
    sock, self.socket = self.socket, None
    if not sock:
        return
    try:
        sock.close()
    except Exception:
        pass
''')
rewrite('r5-crc', '*', MC, computeCRC='''
def computeCRC(data):
    if isinstance(data, str):
        data = [ord(c) for c in data]
    crc = 0xffff
    for octet in data:
        crc = (crc >> 8) ^ __crc16_table[(crc ^ octet) & 0xff]
    return (crc >> 8) | ((crc & 0xff) << 8)
''', checkCRC='''
def checkCRC(data, check):
    actual = computeCRC(data)
    return not actual != check
''')
rewrite('r5-crc2', '*', MC, computeCRC='''
def computeCRC(data):
    crc = 0xffff
    octets = data if isinstance(data, (bytes, bytearray)) else [ord(c) for c in data]
    for octet in octets:
        low = (crc ^ octet) & 0xff
        crc = ((crc >> 8) & 0xff) ^ __crc16_table[low]
    high, low = crc >> 8, crc & 0xff
    return low << 8 | high
''')
rewrite('r5-dev-types', '*', DV, ModelType__symbol_add='''
def symbol_add(self, symbol, point_id):
    key = (symbol.id, point_id)
    self.symbols[key] = symbol
''', ModelType__symbol_get='''
def symbol_get(self, sid, point_id):
    key = (sid, point_id)
    return self.symbols[key] if key in self.symbols else None
''', PointType____init__='''
def __init__(self, pid=None, offset=None, ptype=None, plen=None, mandatory=None, access=None, sf=None,
             block_type=None):
    self.block_type = block_type
    self.id, self.offset, self.type, self.len = pid, offset, ptype, plen
    self.mandatory, self.access, self.sf = mandatory, access, sf
    self.units = self.label = self.description = self.notes = None
    self.value_default = None
    for name in ('is_impl', 'data_to', 'to_data', 'to_value'):
        setattr(self, name, None)
    self.symbols = []
''', PointType__symbol_get='''
def symbol_get(self, sid):
    return next((symbol for symbol in self.symbols if symbol.id == sid), None)
''', fresh_file_pathlist='''
@contextlib.contextmanager
def fresh_file_pathlist(*paths):
    global file_pathlist
    saved = file_pathlist
    file_pathlist = fresh = util.PathList([fspath(path) for path in paths])
    try:
        yield fresh
    finally:
        file_pathlist = saved
''')
rewrite('r5-smdx-name', '*', SM, model_filename_to_id='''
def model_filename_to_id(filename):
    if not (filename[:5] == 'smdx_' and filename[-4:] == '.xml'):
        return None
    try:
        return int(filename[len('smdx_'):-len('.xml')])
    except Exception:
        return None
''', model_id_to_filename='''
def model_id_to_filename(model_id):
    return 'smdx_{:05d}.xml'.format(int(model_id))
''')
rewrite('r5-smdx-name2', '*', SM, model_filename_to_id='''
def model_filename_to_id(filename):
    if filename.startswith('smdx_') and filename.endswith('.xml'):
        try:
            return int(filename[5:-4])
        except ValueError:
            pass
    return None
''', model_id_to_filename='''
def model_id_to_filename(model_id):
    return f'smdx_{int(model_id):05}.xml'
''')
rewrite('r5-mbregs', '*', MM, ModbusMapRegs__append='''
def append(self, offset, count, data, access=MBMAP_REGS_ACCESS_R):
    self.data, self.count = self.data + data, self.count + count
''', ModbusMapRegs__not_equal='''
def not_equal(self, regs):
    if regs.offset != self.offset:
        return 'Offset mismatch: %d %d' % (self.offset, regs.offset)
    if regs.count != self.count:
        return 'Count mismatch for offset %d: %d %d' % (self.offset, self.count, regs.count)
    if regs.data != self.data:
        for i, mine in enumerate(self.data):
            if mine != regs.data[i]:
                return 'Data mismatch at offset %d' % (self.offset + i/2)
    return 'Access mismatch for offset %d' % self.offset if self.access != regs.access else False
''', ModbusMap____init__='''
def __init__(self, slave_id=None, func=MBMAP_FUNC_HOLDING, base_addr=MBMAP_BASE_ADDR_DEFAULT, ns=None, lid=None,
             mapid=None, time=None):
    self.slave_id = slave_id
    self.base_addr = base_addr
    self.ns = ns
    self.lid = lid
    self.mapid = mapid
    self.time = time
    self.regs = []
    if func_value.get(func) is None:
        raise ModbusMapError('Unsupported function: %s' % (func))
    self.func = func_value[func]
''')
