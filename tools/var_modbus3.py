"""third round: transfer functions restructured"""
M3 = MODBUS + ',cdev.*'
rewrite('g2-tcp-bytes', M3, MC, **{TCP + '_read': '''
def _read(self, addr, count, op=FUNC_READ_HOLDING):
    req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
    resp = self._transact(req, addr, ModbusClientError)
    except_code = None
    if resp[TCP_HDR_LEN + 1] & 0x80:
        except_code = resp[TCP_HDR_LEN + 2]
    self._trace(addr, '<--', resp)
    if except_code:
        raise ModbusClientException('Modbus exception %d' % (except_code))
    return resp[TCP_HDR_LEN + 3:].decode('latin-1')

def _trace(self, addr, arrow, frame):
    if self.trace_func:
        s = '{}:{}:{}[addr={}] {}'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr, arrow)
        for c in bytearray(frame):
            s += '%02X' % (c)
        self.trace_func(s)

def _transact(self, req, addr, closed):
    self._trace(addr, '->', req)
    try:
        self.socket.sendall(req)
    except Exception as e:
        raise ModbusClientError('Socket write error: %s' % str(e))
    resp = b''
    wanted = TCP_HDR_LEN + TCP_RESP_MIN_LEN
    while wanted > 0:
        try:
            chunk = self.socket.recv(wanted)
        except socket.timeout:
            raise ModbusClientTimeout('Response timeout')
        except Exception as e:
            raise ModbusClientError('Socket read error: %s' % str(e))
        if not chunk:
            raise closed('Response timeout')
        resp += chunk
        wanted -= len(chunk)
        if len(resp) >= TCP_HDR_LEN + TCP_RESP_MIN_LEN:
            length = struct.unpack_from('>H', resp, TCP_HDR_O_LEN)[0]
            wanted = TCP_HDR_LEN + length - len(resp)
    return resp
''', TCP + '_write': '''
def _write(self, addr, data):
    size = len(data)
    req = struct.pack('>HHHBBHHB', 0, 0, TCP_WRITE_MULT_REQ_LEN + size, int(self.slave_id), FUNC_WRITE_MULTIPLE, int(addr), size // 2, size)
    if not isinstance(data, bytes):
        data = bytes(data, 'latin-1')
    req += data
    resp = self._transact(req, addr, ModbusClientTimeout)
    except_code = None
    if resp[TCP_HDR_LEN + 1] & 0x80:
        except_code = resp[TCP_HDR_LEN + 2]
    self._trace(addr, '<--', resp)
    if except_code:
        raise ModbusClientException('Modbus exception: %d' % (except_code))
'''})
rewrite('g2-tcp-exact', M3, MC, **{TCP + '_read': '''
def _read(self, addr, count, op=FUNC_READ_HOLDING):
    req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
    if self.trace_func:
        s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
        for c in bytearray(req):
            s += '%02X' % (c)
        self.trace_func(s)
    try:
        self.socket.sendall(req)
    except Exception as e:
        raise ModbusClientError('Socket write error: %s' % str(e))
    resp = self._recv_exact(TCP_HDR_LEN + TCP_RESP_MIN_LEN)
    length = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])[0]
    resp += self._recv_exact(length - TCP_RESP_MIN_LEN)
    except_code = None
    if resp[TCP_HDR_LEN + 1] & 0x80:
        except_code = resp[TCP_HDR_LEN + 2]
    if self.trace_func:
        s = '{}:{}:{}[addr={}] <--'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
        for c in resp:
            s += '%02X' % (c)
        self.trace_func(s)
    if except_code:
        raise ModbusClientException('Modbus exception %d' % (except_code))
    return resp[TCP_HDR_LEN + 3:].decode('latin-1')

def _recv_exact(self, size):
    got = b''
    while len(got) < size:
        try:
            c = self.socket.recv(size - len(got))
        except socket.timeout:
            raise ModbusClientTimeout('Response timeout')
        except Exception as e:
            raise ModbusClientError('Socket read error: %s' % str(e))
        if not c:
            raise ModbusClientError('Response timeout')
        got += c
    return got
'''})
CHUNKS = '''
def _chunks(count, max_count):
    """(offset, size) of each request of a transfer"""
    offset = 0
    while count > 0:
        size = min(count, max_count)
        yield offset, size
        offset += size
        count -= size
'''
rewrite('g2-chunks-gen', M3, MC, _top=CHUNKS, **{RTU + 'read': '''
def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
    if self.serial is None:
        raise ModbusClientError('Client serial port not open: %s' % self.name)
    resp = ''
    for offset, size in _chunks(count, max_count):
        data = self._read(slave_id, addr + offset, size, op=op, trace_func=trace_func)
        if not data:
            break
        resp += data
    return bytes(resp, 'latin-1')
''', RTU + 'write': '''
def write(self, slave_id, addr, data, trace_func=None, max_count=REQ_COUNT_MAX):
    if self.serial is None:
        raise ModbusClientError('Client serial port not open: %s' % self.name)
    for offset, size in _chunks(len(data) / 2, max_count):
        self._write(slave_id, addr + offset, data[int(offset * 2):int((offset + size) * 2)], trace_func=trace_func)
'''})
rewrite('g2-read-parts', M3, MC, **{RTU + 'read': '''
def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
    if self.serial is None:
        raise ModbusClientError('Client serial port not open: %s' % self.name)
    parts = []
    end = addr + count
    while addr < end:
        size = min(end - addr, max_count)
        part = self._read(slave_id, addr, size, op=op, trace_func=trace_func)
        if not part:
            break
        parts.append(part)
        addr += size
    return ''.join(parts).encode('latin-1')
''', TCP + 'read': '''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    local_connect = self.socket is None
    if local_connect:
        self.connect(self.timeout)
    parts = []
    try:
        remaining = count
        while remaining > 0:
            size = min(remaining, self.max_count)
            part = self._read(addr + count - remaining, size, op)
            if not part:
                break
            parts.append(part)
            remaining -= size
    finally:
        if local_connect:
            self.disconnect()
    return ''.join(parts).encode('latin-1')
'''})
rewrite('g2-ctx', M3, MC, _top='import contextlib', **{TCP + 'read': '''
def read(self, addr, count, op=FUNC_READ_HOLDING):
    resp = ''
    offset = 0
    with self._session():
        while count > 0:
            n = self.max_count if count > self.max_count else count
            data = self._read(addr + offset, n, op=op)
            if not data:
                break
            resp += data
            count -= n
            offset += n
    return bytes(resp, 'latin-1')

@contextlib.contextmanager
def _session(self):
    opened = self.socket is None
    if opened:
        self.connect(self.timeout)
    try:
        yield
    finally:
        if opened:
            self.disconnect()
''', TCP + 'write': '''
def write(self, addr, data):
    offset = 0
    count = len(data)/2
    with self._session():
        while count > 0:
            n = self.max_count if count > self.max_count else count
            self._write(addr + offset, data[int(offset * 2):int((offset + n) * 2)])
            count -= n
            offset += n
'''})
rewrite('g2-crc', M3, MC, computeCRC='''
def computeCRC(data):
    if isinstance(data, str):
        data = data.encode('latin-1')
    crc = 0xffff
    for octet in data:
        crc = (crc >> 8) ^ __crc16_table[(crc ^ octet) & 0xff]
    return ((crc & 0xff) << 8) | (crc >> 8)
''')
rewrite('g2-crc-nolast', M3, MC, computeCRC='''
def computeCRC(data):
    crc = 0xffff
    for octet in _octets(data):
        crc ^= octet
        for _ in range(8):
            if crc & 1:
                crc = (crc >> 1) ^ 0xa001
            else:
                crc >>= 1
    low, high = crc & 0xff, crc >> 8
    return (low << 8) | high

def _octets(data):
    return data if isinstance(data, bytes) else data.encode('latin-1')
''')
rewrite('g2-rtu-int', M3, MC, **{RTU + '_read': '''
def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
    pdu = struct.pack('>BBHH', int(slave_id), op, int(addr), int(count))
    req = pdu + struct.pack('>H', computeCRC(pdu))
    if trace_func:
        trace_func('{}:{}[addr={}] ->'.format(self.name, slave_id, addr) + ''.join('%02X' % c for c in req))
    resp, except_code = self._exchange(req, lambda frame: frame[2] + 5)
    if trace_func:
        trace_func('{}:{}[addr={}] <--'.format(self.name, slave_id, addr) + ''.join('%02X' % c for c in resp))
    if not checkCRC(resp[:-2], (resp[-2] << 8) | resp[-1]):
        raise ModbusClientError('CRC error')
    if except_code:
        raise ModbusClientException('Modbus exception %d' % (except_code))
    return resp[3:-2].decode('latin-1')

def _exchange(self, req, frame_len):
    try:
        self.serial.flushInput()
        self.serial.write(req)
    except Exception as e:
        raise ModbusClientError('Serial write error: %s' % str(e))
    resp = b''
    remaining = 5
    found = False
    except_code = None
    while remaining > 0:
        try:
            c = self.serial.read(remaining)
        except Exception as e:
            raise ModbusClientError('Serial read error: %s' % str(e))
        if len(c) == 0:
            raise ModbusClientTimeout('Response timeout')
        resp += c
        remaining -= len(c)
        if not found and len(resp) >= 5:
            if resp[1] & 0x80:
                except_code = resp[2]
            else:
                remaining = frame_len(resp) - len(resp)
                found = True
    return resp, except_code
''', RTU + '_write': '''
def _write(self, slave_id, addr, data, trace_func=None):
    size = len(data)
    count = size // 2
    if not isinstance(data, bytes):
        data = data.encode('latin-1')
    pdu = struct.pack('>BBHHB', int(slave_id), FUNC_WRITE_MULTIPLE, int(addr), count, size) + data
    req = pdu + struct.pack('>H', computeCRC(pdu))
    if trace_func:
        trace_func('{}:{}[addr={}] ->'.format(self.name, slave_id, addr) + ''.join('%02X' % c for c in req))
    resp, except_code = self._exchange(req, lambda frame: 8)
    if trace_func:
        trace_func('{}:{}[addr={}] <--'.format(self.name, slave_id, addr) + ''.join('%02X' % c for c in resp))
    if not checkCRC(resp[:-2], (resp[-2] << 8) | resp[-1]):
        raise ModbusClientError('CRC error')
    if except_code:
        raise ModbusClientException('Modbus exception: %d' % (except_code))
    if struct.unpack('>BBHHH', resp)[:4] != (slave_id, FUNC_WRITE_MULTIPLE, addr, count):
        raise ModbusClientError('Mobus response format error')
''', '_top': '''
'''})
rewrite('g2-connect', M3, MC, **{TCP + 'connect': '''
def connect(self, timeout=None):
    if self.socket:
        self.disconnect()
    try:
        self.socket = self._open_socket(self.timeout if timeout is None else timeout)
        if self.tls:
            self.socket = self._tls_context().wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
        self.socket.connect((self.ipaddr, self.ipport))
    except Exception as e:
        self.disconnect()
        raise ModbusClientError('Connection error: %s' % e)

def _tls_context(self):
    context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
    context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
    context.check_hostname = self.tls_verify
    return context

def _open_socket(self, timeout):
    sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    sock.settimeout(timeout)
    return sock
''', TCP + 'disconnect': '''
def disconnect(self):
    sock, self.socket = self.socket, None
    if not sock:
        return
    try:
        sock.close()
    except Exception:
        pass
'''})
rewrite('g2-mapped', M3, MC, _top='''
@contextlib.contextmanager
def _map_errors():
    try:
        yield
    except mbmap.ModbusMapError as e:
        raise ModbusClientError(str(e))
''', ModbusClientDeviceMapped__read='''
def read(self, addr, count, op=None):
    if self.modbus_map is None:
        raise ModbusClientError('No modbus map set for device')
    with _map_errors():
        return self.modbus_map.read(addr, count, op)
''', ModbusClientDeviceMapped__write='''
def write(self, addr, data):
    if self.modbus_map is None:
        raise ModbusClientError('No modbus map set for device')
    with _map_errors():
        return self.modbus_map.write(addr, data)
''')
n, k, e = V[-1]
V[-1] = (n, k, e + [(MC, 'import os\n', 'import contextlib\nimport os\n', 1)])
