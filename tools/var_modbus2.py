"""second round: transfer functions and connection handling"""
TCP = 'ModbusClientDeviceTCP__'
RTU = 'ModbusClientRTU__'
RDEV = 'ModbusClientDeviceRTU__'

rewrite('m2-rtu-client-early', MODBUS, MC, modbus_rtu_client='''
def modbus_rtu_client(name=None, baudrate=None, parity=None):
    client = modbus_rtu_clients.get(name)
    if client is None:
        client = ModbusClientRTU(name,
                                 9600 if baudrate is None else baudrate,
                                 PARITY_NONE if parity is None else parity)
        modbus_rtu_clients[name] = client
        return client
    for given, current, what in ((baudrate, client.baudrate, 'baudrate'), (parity, client.parity, 'parity')):
        if given is not None and given != current:
            raise ModbusClientError('Modbus client %s mismatch' % what)
    return client
''', modbus_rtu_client_remove='''
def modbus_rtu_client_remove(name=None):
    modbus_rtu_clients.pop(name, None)
''')
rewrite('m2-rtu-client-in', MODBUS, MC, modbus_rtu_client='''
def modbus_rtu_client(name=None, baudrate=None, parity=None):
    if name in modbus_rtu_clients:
        client = modbus_rtu_clients[name]
        _check_setting('baudrate', baudrate, client.baudrate)
        _check_setting('parity', parity, client.parity)
        return client
    client = modbus_rtu_clients[name] = ModbusClientRTU(name, baudrate if baudrate is not None else 9600,
                                                        parity if parity is not None else PARITY_NONE)
    return client

def _check_setting(what, wanted, used):
    if wanted is None or wanted == used:
        return
    raise ModbusClientError('Modbus client {} mismatch'.format(what))
''')
rewrite('m2-rtu-open', MODBUS, MC, **{RTU + 'open': '''
def open(self):
    if self.name == TEST_NAME:
        import sunspec.core.test.fake.serial as port_module
    else:
        port_module = serial
    settings = {'port': self.name, 'baudrate': self.baudrate, 'bytesize': 8,
                'parity': serial.PARITY_EVEN if self.parity == PARITY_EVEN else serial.PARITY_NONE,
                'stopbits': 1, 'xonxoff': 0, 'timeout': self.timeout, 'writeTimeout': self.write_timeout}
    try:
        self.serial = port_module.Serial(**settings)
    except Exception as e:
        if self.serial is not None:
            self.serial.close()
            self.serial = None
        raise ModbusClientError('Serial init error: %s' % str(e))
''', RTU + 'close': '''
def close(self):
    if self.serial is None:
        return
    try:
        self.serial.close()
    except Exception as e:
        raise ModbusClientError('Serial close error: {}'.format(e))
''', RTU + 'remove_device': '''
def remove_device(self, slave_id):
    if self.devices.get(slave_id) is not None:
        self.devices.pop(slave_id)
    if self.devices:
        return
    self.close()
    modbus_rtu_client_remove(self.name)
'''})
rewrite('m2-rtu-read-split', MODBUS, MC, **{RTU + '_read': '''
def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
    body = struct.pack('>BBHH', int(slave_id), op, int(addr), int(count))
    req = body + struct.pack('>H', computeCRC(body))
    self._trace(trace_func, slave_id, addr, '->', bytearray(req))
    self._send(req)

    resp = ''
    missing = 5
    sized = False
    error = None
    while missing > 0:
        part = self._receive(missing)
        resp += part
        missing -= len(part)
        if sized or len(resp) < 5:
            continue
        if ord(resp[1]) & 0x80:
            error = ord(resp[2])
        else:
            missing = (ord(resp[2]) + 5) - len(resp)
            sized = True
    self._trace(trace_func, slave_id, addr, '<--', [ord(c) for c in resp])
    self._verify(resp)
    if error:
        raise ModbusClientException('Modbus exception %d' % error)
    return resp[3:-2]

def _trace(self, trace_func, slave_id, addr, arrow, octets):
    if not trace_func:
        return
    text = '{}:{}[addr={}] {}'.format(self.name, str(slave_id), addr, arrow)
    for octet in octets:
        text += '%02X' % octet
    trace_func(text)

def _send(self, req):
    try:
        self.serial.flushInput()
        self.serial.write(req)
    except Exception as e:
        raise ModbusClientError('Serial write error: %s' % str(e))

def _receive(self, count):
    try:
        part = self.serial.read(count)
    except Exception as e:
        raise ModbusClientError('Serial read error: %s' % str(e))
    if not len(part):
        raise ModbusClientTimeout('Response timeout')
    if type(part) == bytes and sys.version_info > (3,):
        part = part.decode('latin-1')
    return part

def _verify(self, resp):
    crc = (ord(resp[-2]) << 8) | ord(resp[-1])
    if not checkCRC(resp[:-2], crc):
        raise ModbusClientError('CRC error')
'''})
rewrite('m2-rtu-write-words', MODBUS, MC, **{RTU + '_write': '''
def _write(self, slave_id, addr, data, trace_func=None):
    if sys.version_info > (3,) and not isinstance(data, bytes):
        payload = data.encode('latin-1')
    else:
        payload = data
    size = len(data)
    words = size // 2
    frame = bytearray(struct.pack('>BBHHB', int(slave_id), FUNC_WRITE_MULTIPLE, int(addr), words, size))
    frame.extend(payload)
    frame.extend(struct.pack('>H', computeCRC(bytes(frame))))
    req = bytes(frame)
    if trace_func:
        trace_func('{}:{}[addr={}] ->'.format(self.name, slave_id, addr) + ''.join('%02X' % c for c in bytearray(req)))
    try:
        self.serial.flushInput()
        self.serial.write(req)
    except Exception as e:
        raise ModbusClientError('Serial write error: %s' % str(e))

    resp = ''
    remaining = 5
    found = False
    except_code = None
    while True:
        if remaining <= 0:
            break
        try:
            c = self.serial.read(remaining)
        except Exception as e:
            raise ModbusClientError('Serial read error: %s' % str(e))
        if type(c) == bytes and sys.version_info > (3,):
            c = ''.join(chr(i) for i in c)
        if len(c) == 0:
            raise ModbusClientTimeout('Response timeout')
        resp += c
        remaining -= len(c)
        if not found and len(resp) >= 5:
            if ord(resp[1]) & 0x80:
                except_code = ord(resp[2])
            else:
                remaining = 8 - len(resp)
                found = True
    if trace_func:
        trace_func('{}:{}[addr={}] <--'.format(self.name, slave_id, addr) + ''.join(['%02X' % ord(c) for c in resp]))
    high, low = ord(resp[-2]), ord(resp[-1])
    if not checkCRC(resp[:-2], high << 8 | low):
        raise ModbusClientError('CRC error')
    if except_code:
        raise ModbusClientException('Modbus exception: %d' % (except_code))
    if sys.version_info > (3,):
        resp = bytes(resp, 'latin-1')
    fields = struct.unpack('>BBHHH', resp)
    if fields[0] != slave_id or fields[1] != FUNC_WRITE_MULTIPLE or fields[2] != addr or fields[3] != words:
        raise ModbusClientError('Mobus response format error')
'''})
rewrite('m2-rtu-write-tuple', MODBUS, MC, **{RTU + 'write': '''
def write(self, slave_id, addr, data, trace_func=None, max_count=REQ_COUNT_MAX):
    if self.serial is None:
        raise ModbusClientError('Client serial port not open: %s' % self.name)
    remaining = len(data) / 2
    position = 0
    while remaining > 0:
        size = max_count if remaining > max_count else remaining
        self._write(slave_id, addr + position, data[int(position * 2):int((position + size) * 2)],
                    trace_func=trace_func)
        position += size
        remaining -= size
''', RTU + 'read': '''
def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
    if self.serial is None:
        raise ModbusClientError('Client serial port not open: %s' % self.name)
    parts = []
    done = 0
    while count - done > 0:
        chunk = min(count - done, max_count)
        data = self._read(slave_id, addr + done, chunk, op=op, trace_func=trace_func)
        if not data:
            break
        parts.append(data)
        done += chunk
    resp = ''.join(parts)
    return bytes(resp, 'latin-1') if sys.version_info > (3,) else resp
'''})
rewrite('m2-tcp-context', MODBUS, MC, **{TCP + 'read': '''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    opened = self._begin()
    try:
        resp = self._read_all(addr, count, op)
    finally:
        self._finish(opened)
    if sys.version_info > (3,):
        resp = resp.encode('latin-1')
    return resp

def _begin(self):
    if self.socket is not None:
        return False
    self.connect(self.timeout)
    return True

def _finish(self, opened):
    if opened:
        self.disconnect()

def _read_all(self, addr, count, op):
    resp = ''
    offset = 0
    while count > 0:
        size = count if count <= self.max_count else self.max_count
        data = self._read(addr + offset, size, op=op)
        if not data:
            return resp
        resp += data
        count -= size
        offset += size
    return resp
''', TCP + 'write': '''
def write(self, addr, data):
    opened = self._begin()
    try:
        offset = 0
        count = len(data) / 2
        while count > 0:
            size = min(count, self.max_count)
            self._write(addr + offset, data[int(offset * 2):int((offset + size) * 2)])
            offset += size
            count -= size
    finally:
        self._finish(opened)
'''})
rewrite('BUG-m2-tcp-local', MODBUS, MC, **{TCP + 'read': '''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    resp = ''
    read_offset = 0
    local_connect = self.socket is None
    if local_connect:
        self.connect(self.timeout)
    try:
        while count > 0:
            read_count = min(self.max_count, count)
            data = self._read(addr + read_offset, read_count, op)
            if not data:
                break
            resp += data
            read_offset += read_count
            count -= read_count
    except Exception:
        if local_connect:
            self.disconnect()
        raise
    else:
        if local_connect:
            self.disconnect()
    return bytes(resp, 'latin-1')
'''})
rewrite('m2-tcp-read-frame', MODBUS, MC, **{TCP + '_read': '''
def _read(self, addr, count, op=FUNC_READ_HOLDING):
    pdu = struct.pack('>BHH', op, int(addr), int(count))
    req = struct.pack('>HHHB', 0, 0, len(pdu) + 1, int(self.slave_id)) + pdu
    self._trace_frame('->', addr, req)
    try:
        self.socket.sendall(req)
    except Exception as e:
        raise ModbusClientError('Socket write error: %s' % str(e))
    resp = b''
    len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
    while len_remaining > 0:
        try:
            c = self.socket.recv(len_remaining)
        except socket.timeout:
            raise ModbusClientTimeout('Response timeout')
        except Exception as e:
            raise ModbusClientError('Socket read error: %s' % str(e))
        if not c:
            raise ModbusClientError('Response timeout')
        resp += c
        if len(resp) < TCP_HDR_LEN + TCP_RESP_MIN_LEN:
            len_remaining -= len(c)
        else:
            size, = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
            len_remaining = size + TCP_HDR_LEN - len(resp)
    self._trace_frame('<--', addr, resp)
    frame = bytearray(resp)
    if frame[TCP_HDR_LEN + 1] & 0x80 and frame[TCP_HDR_LEN + 2]:
        raise ModbusClientException('Modbus exception %d' % frame[TCP_HDR_LEN + 2])
    return resp.decode('latin-1')[TCP_HDR_LEN + 3:]

def _trace_frame(self, direction, addr, frame):
    if self.trace_func:
        octets = ''.join(['%02X' % b for b in bytearray(frame)])
        self.trace_func('{}:{}:{}[addr={}] {}{}'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr, direction, octets))
'''})
rewrite('m2-tcp-write-frame', MODBUS, MC, **{TCP + '_write': '''
def _write(self, addr, data):
    req = self._write_request(addr, data)
    if self.trace_func:
        s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
        s += ''.join('%02X' % c for c in bytearray(req))
        self.trace_func(s)
    try:
        self.socket.sendall(req)
    except Exception as e:
        raise ModbusClientError('Socket write error: %s' % str(e))

    resp = b''
    needed = TCP_HDR_LEN + TCP_RESP_MIN_LEN
    while needed > 0:
        try:
            chunk = self.socket.recv(needed)
        except socket.timeout:
            raise ModbusClientTimeout('Response timeout')
        except Exception as e:
            raise ModbusClientError('Socket read error: %s' % str(e))
        if len(chunk) == 0:
            raise ModbusClientTimeout('Response timeout')
        resp = resp + chunk
        needed -= len(chunk)
        if len(resp) >= TCP_HDR_LEN + TCP_RESP_MIN_LEN:
            length = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])[0]
            needed = length - (len(resp) - TCP_HDR_LEN)

    code = bytearray(resp)
    if self.trace_func:
        s = '{}:{}:{}[addr={}] <--'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
        for c in code:
            s += '%02X' % c
        self.trace_func(s)
    if code[TCP_HDR_LEN + 1] & 0x80:
        if code[TCP_HDR_LEN + 2]:
            raise ModbusClientException('Modbus exception: %d' % (code[TCP_HDR_LEN + 2],))

def _write_request(self, addr, data):
    size = len(data)
    header = struct.pack('>HHH', 0, 0, TCP_WRITE_MULT_REQ_LEN + size)
    header += struct.pack('>BBHHB', int(self.slave_id), FUNC_WRITE_MULTIPLE, int(addr), int(size / 2), size)
    if not isinstance(data, bytes):
        data = bytes(data, 'latin-1')
    return header + data
'''})
rewrite('m2-tcp-connect', MODBUS, MC, **{TCP + 'connect': '''
def connect(self, timeout=None):
    if self.socket:
        self.disconnect()
    try:
        self.socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.socket.settimeout(self.timeout if timeout is None else timeout)
        if self.tls:
            self._start_tls()
        self.socket.connect((self.ipaddr, self.ipport))
    except Exception as e:
        self.disconnect()
        raise ModbusClientError('Connection error: %s' % e)

def _start_tls(self):
    context = self._tls_context()
    self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)

def _tls_context(self):
    context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
    context.check_hostname = self.tls_verify
    context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
    return context
''', TCP + 'disconnect': '''
def disconnect(self):
    sock = self.socket
    self.socket = None
    if not sock:
        return
    try:
        sock.close()
    except Exception:
        pass
'''})
rewrite('m2-tcp-init', MODBUS, MC, **{TCP + '__init__': '''
def __init__(self, slave_id, ipaddr, ipport=502, timeout=None, ctx=None, trace_func=None, tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, max_count=REQ_COUNT_MAX, test=False):
    self.slave_id = slave_id
    self.ipaddr = ipaddr
    self.ipport = TCP_DEFAULT_PORT if ipport is None else ipport
    self.timeout = timeout if timeout is not None else TCP_DEFAULT_TIMEOUT
    self.max_count = max_count
    self.ctx = ctx
    self.trace_func = trace_func
    self._init_tls(tls, cafile, certfile, keyfile, not insecure_skip_tls_verify)
    if not test:
        self.socket = None
    else:
        from sunspec.core.test.fake import socket as fake
        self.socket = fake.socket()

def _init_tls(self, tls, cafile, certfile, keyfile, verify):
    self.tls = tls
    self.cafile, self.certfile, self.keyfile = cafile, certfile, keyfile
    self.tls_verify = verify
'''})
rewrite('m2-rdev', MODBUS, MC, **{RDEV + '__init__': '''
def __init__(self, slave_id, name, baudrate=None, parity=None, timeout=None, ctx=None, trace_func=None, max_count=REQ_COUNT_MAX):
    self.slave_id = slave_id
    self.name = name
    self.ctx = ctx
    self.trace_func = trace_func
    self.max_count = max_count
    self.client = client = modbus_rtu_client(name, baudrate, parity)
    if client is None:
        raise ModbusClientError('No modbus rtu client set for device')
    client.add_device(slave_id, self)
    port = client.serial
    if port is None or timeout is None:
        return
    port.timeout = port.writeTimeout = timeout
''', RDEV + 'read': '''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    options = {'trace_func': self.trace_func, 'max_count': self.max_count}
    return self.client.read(self.slave_id, addr, count, op, **options)
''', RDEV + 'write': '''
def write(self, addr, data):
    client = self.client
    return client.write(self.slave_id, addr, data, self.trace_func, self.max_count)
''', RDEV + 'close': '''
def close(self):
    client = self.client
    if not client:
        return
    client.remove_device(self.slave_id)
'''})
