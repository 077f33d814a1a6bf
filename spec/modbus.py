"""Reference model: Modbus client (never executed, only analysed)."""
import socket
import ssl
import struct
import serial

import sunspec.core.modbus.client as client
import sunspec.core.modbus.mbmap as mbmap


# ------------------------------------------------------------ chunked access

def tcp_read(self, addr, count, op=3):
    mine = self.socket is None
    if mine:
        self.connect(self.timeout)
    out = b''
    try:
        pos = 0
        while pos < count:
            n = min(self.max_count, count - pos)
            got = tcp_read_one(self, addr + pos, n, op)
            if not got:
                break
            out += got
            pos += n
    finally:
        if mine:
            self.disconnect()
    return out


def tcp_write(self, addr, data):
    mine = self.socket is None
    if mine:
        self.connect(self.timeout)
    total = len(data) // 2
    try:
        pos = 0
        while pos < total:
            n = min(self.max_count, total - pos)
            tcp_write_one(self, addr + pos, data[2 * pos:2 * (pos + n)])
            pos += n
    finally:
        if mine:
            self.disconnect()


def tcp_write_for(self, addr, data):
    mine = self.socket is None
    if mine:
        self.connect(self.timeout)
    total = len(data) // 2
    try:
        for pos in range(0, total, self.max_count):
            n = min(self.max_count, total - pos)
            tcp_write_one(self, addr + pos, data[2 * pos:2 * (pos + n)])
    finally:
        if mine:
            self.disconnect()


def tcp_read_for(self, addr, count, op=3):
    mine = self.socket is None
    if mine:
        self.connect(self.timeout)
    out = b''
    try:
        for pos in range(0, count, self.max_count):
            got = tcp_read_one(self, addr + pos, min(self.max_count, count - pos), op)
            if not got:
                break
            out += got
    finally:
        if mine:
            self.disconnect()
    return out


def tcp_trace(self, way, addr, frame):
    if self.trace_func:
        self.trace_func('{}:{}:{}[addr={}] {}'.format(self.ipaddr, self.ipport, self.slave_id, addr, way) + ''.join('%02X' % b for b in frame))


def rtu_trace(self, trace_func, slave_id, way, addr, frame):
    if trace_func:
        trace_func('{}:{}[addr={}] {}'.format(self.name, slave_id, addr, way) + ''.join('%02X' % b for b in frame))


def tcp_receive(self, addr, closed_is):
    sock = self.socket
    need = 9
    got = b''
    while need > 0:
        try:
            part = sock.recv(need)
        except socket.timeout:
            raise client.ModbusClientTimeout('')
        except Exception:
            raise client.ModbusClientError('')
        if not part:
            raise closed_is
        got += part
        if len(got) >= 9:
            need = struct.unpack('>H', got[4:6])[0] - (len(got) - 6)
        else:
            need = need - len(part)
    tcp_trace(self, '<--', addr, got)
    if got[7] & 0x80 and got[8] != 0:
        raise client.ModbusClientException('')
    return got


def tcp_read_one(self, addr, n, op):
    req = struct.pack('>HHHBBHH', 0, 0, 6, int(self.slave_id), op, addr, n)
    tcp_trace(self, '->', addr, req)
    try:
        self.socket.sendall(req)
    except Exception:
        raise client.ModbusClientError('')
    return tcp_receive(self, addr, client.ModbusClientError(''))[9:]


def tcp_write_one(self, addr, data):
    req = struct.pack('>HHHBBHHB', 0, 0, 7 + len(data), int(self.slave_id), 16, addr, len(data) // 2, len(data)) + data
    tcp_trace(self, '->', addr, req)
    try:
        self.socket.sendall(req)
    except Exception:
        raise client.ModbusClientError('')
    tcp_receive(self, addr, client.ModbusClientTimeout(''))


# -------------------------------------------------------------- connection

def tcp_connect(self, timeout=None):
    if self.socket:
        self.disconnect()
    wait = self.timeout if timeout is None else timeout
    try:
        self.socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.socket.settimeout(wait)
        if self.tls:
            ctx = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
            ctx.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
            ctx.check_hostname = self.tls_verify
            self.socket = ctx.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
        self.socket.connect((self.ipaddr, self.ipport))
    except Exception:
        self.disconnect()
        raise client.ModbusClientError('')


def tcp_disconnect(self):
    if self.socket:
        try:
            self.socket.close()
        except Exception:
            pass
    self.socket = None


def tcp_close(self):
    self.disconnect()


def tcp_init(self, slave_id, ipaddr, ipport=502, timeout=None, ctx=None, trace_func=None, tls=False, cafile=None,
             certfile=None, keyfile=None, insecure_skip_tls_verify=False, max_count=125, test=False):
    self.slave_id = slave_id
    self.ipaddr = ipaddr
    self.ipport = 502 if ipport is None else ipport
    self.timeout = 2 if timeout is None else timeout
    self.ctx = ctx
    self.trace_func = trace_func
    self.tls = tls
    self.cafile = cafile
    self.certfile = certfile
    self.keyfile = keyfile
    self.tls_verify = not insecure_skip_tls_verify
    self.max_count = max_count
    self.socket = None
    if test:
        import sunspec.core.test.fake.socket as fake
        self.socket = fake.socket()


# --------------------------------------------------------------------- RTU

def rtu_init(self, name='/dev/ttyUSB0', baudrate=9600, parity=None):
    self.name = name
    self.baudrate = baudrate
    self.parity = parity
    self.serial = None
    self.timeout = .5
    self.write_timeout = .5
    self.devices = {}
    self.open()


def rtu_open(self):
    try:
        par = 'E' if self.parity == 'E' else 'N'
        if self.name == 'test_name':
            import sunspec.core.test.fake.serial as fake
            self.serial = fake.Serial(port=self.name, baudrate=self.baudrate, bytesize=8, parity=par, stopbits=1, xonxoff=0,
                                      timeout=self.timeout, writeTimeout=self.write_timeout)
        else:
            self.serial = serial.Serial(port=self.name, baudrate=self.baudrate, bytesize=8, parity=par, stopbits=1, xonxoff=0,
                                        timeout=self.timeout, writeTimeout=self.write_timeout)
    except Exception:
        if self.serial is not None:
            self.serial.close()
            self.serial = None
        raise client.ModbusClientError('')


def rtu_close(self):
    if self.serial is not None:
        try:
            self.serial.close()
        except Exception:
            raise client.ModbusClientError('')


def rtu_add_device(self, slave_id, device):
    self.devices[slave_id] = device


def rtu_remove_device(self, slave_id):
    if self.devices.get(slave_id):
        del self.devices[slave_id]
    if len(self.devices) == 0:
        self.close()
        client.modbus_rtu_client_remove(self.name)


def rtu_client(name=None, baudrate=None, parity=None):
    c = client.modbus_rtu_clients.get(name)
    if c is None:
        c = client.ModbusClientRTU(name, 9600 if baudrate is None else baudrate, 'N' if parity is None else parity)
        client.modbus_rtu_clients[name] = c
        return c
    if baudrate is not None and c.baudrate != baudrate:
        raise client.ModbusClientError('')
    if parity is not None and c.parity != parity:
        raise client.ModbusClientError('')
    return c


def rtu_client_remove(name=None):
    if client.modbus_rtu_clients.get(name):
        del client.modbus_rtu_clients[name]


def rtu_device_init(self, slave_id, name, baudrate=None, parity=None, timeout=None, ctx=None, trace_func=None, max_count=125):
    self.slave_id = slave_id
    self.name = name
    self.ctx = ctx
    self.trace_func = trace_func
    self.max_count = max_count
    self.client = None
    c = client.modbus_rtu_client(name, baudrate, parity)
    self.client = c
    if c is None:
        raise client.ModbusClientError('')
    c.add_device(slave_id, self)
    if timeout is not None and c.serial is not None:
        c.serial.timeout = timeout
        c.serial.writeTimeout = timeout


def rtu_device_close(self):
    if self.client:
        self.client.remove_device(self.slave_id)


def rtu_device_read(self, addr, count, op=3):
    return self.client.read(self.slave_id, addr, count, op, self.trace_func, self.max_count)


def rtu_device_write(self, addr, data):
    return self.client.write(self.slave_id, addr, data, self.trace_func, self.max_count)


def rtu_read(self, slave_id, addr, count, op=3, trace_func=None, max_count=125):
    if self.serial is None:
        raise client.ModbusClientError('')
    out = b''
    pos = 0
    while pos < count:
        n = min(max_count, count - pos)
        got = rtu_read_one(self, trace_func, slave_id, addr + pos, n, op)
        if not got:
            break
        out += got
        pos += n
    return out


def rtu_read_for(self, slave_id, addr, count, op=3, trace_func=None, max_count=125):
    if self.serial is None:
        raise client.ModbusClientError('')
    out = b''
    for pos in range(0, count, max_count):
        got = rtu_read_one(self, trace_func, slave_id, addr + pos, min(max_count, count - pos), op)
        if not got:
            break
        out += got
    return out


def rtu_write(self, slave_id, addr, data, trace_func=None, max_count=125):
    if self.serial is None:
        raise client.ModbusClientError('')
    total = len(data) // 2
    pos = 0
    while pos < total:
        n = min(max_count, total - pos)
        rtu_write_one(self, trace_func, slave_id, addr + pos, data[2 * pos:2 * (pos + n)])
        pos += n


def rtu_write_for(self, slave_id, addr, data, trace_func=None, max_count=125):
    if self.serial is None:
        raise client.ModbusClientError('')
    total = len(data) // 2
    for pos in range(0, total, max_count):
        n = min(max_count, total - pos)
        rtu_write_one(self, trace_func, slave_id, addr + pos, data[2 * pos:2 * (pos + n)])


def rtu_send(self, trace_func, slave_id, addr, body):
    req = body + struct.pack('>H', client.computeCRC(body))
    rtu_trace(self, trace_func, slave_id, '->', addr, req)
    try:
        self.serial.flushInput()
        self.serial.write(req)
    except Exception:
        raise client.ModbusClientError('')


def rtu_check(got, code):
    if not client.checkCRC(got[:-2], got[-2] * 256 + got[-1]):
        raise client.ModbusClientError('')
    if code:
        raise client.ModbusClientException('')


def rtu_read_one(self, trace_func, slave_id, addr, n, op):
    rtu_send(self, trace_func, slave_id, addr, struct.pack('>BBHH', int(slave_id), op, addr, n))
    need = 5
    got = b''
    code = None
    sized = False
    while need > 0:
        try:
            part = self.serial.read(need)
        except Exception:
            raise client.ModbusClientError('')
        if not part:
            raise client.ModbusClientTimeout('')
        got += part
        need -= len(part)
        if not sized and len(got) >= 5:
            if got[1] & 0x80:
                code = got[2]
            else:
                need = got[2] + 5 - len(got)
                sized = True
    rtu_trace(self, trace_func, slave_id, '<--', addr, got)
    rtu_check(got, code)
    return got[3:-2]


def rtu_write_one(self, trace_func, slave_id, addr, data):
    rtu_send(self, trace_func, slave_id, addr, struct.pack('>BBHHB', int(slave_id), 16, addr, len(data) // 2, len(data)) + data)
    need = 5
    got = b''
    code = None
    sized = False
    while need > 0:
        try:
            part = self.serial.read(need)
        except Exception:
            raise client.ModbusClientError('')
        if not part:
            raise client.ModbusClientTimeout('')
        got += part
        need -= len(part)
        if not sized and len(got) >= 5:
            if got[1] & 0x80:
                code = got[2]
            else:
                need = 8 - len(got)
                sized = True
    rtu_trace(self, trace_func, slave_id, '<--', addr, got)
    rtu_check(got, code)
    if got[0] != slave_id or got[1] != 16 or struct.unpack('>H', got[2:4])[0] != addr or \
            struct.unpack('>H', got[4:6])[0] != len(data) // 2:
        raise client.ModbusClientError('')


# ------------------------------------------------------------------ mapped

def mapped_init(self, slave_id, name, pathlist=None, max_count=None, ctx=None):
    self.slave_id = slave_id
    self.name = name
    self.ctx = ctx
    self.modbus_map = None
    if name is None:
        raise client.ModbusClientError('')
    self.modbus_map = mbmap.ModbusMap(slave_id)
    try:
        self.modbus_map.from_xml(name, pathlist)
    except mbmap.ModbusMapError:
        raise client.ModbusClientError('')


def mapped_read(self, addr, count, op=None):
    if self.modbus_map is None:
        raise client.ModbusClientError('')
    try:
        return self.modbus_map.read(addr, count, op)
    except mbmap.ModbusMapError:
        raise client.ModbusClientError('')


def mapped_write(self, addr, data):
    if self.modbus_map is None:
        raise client.ModbusClientError('')
    try:
        return self.modbus_map.write(addr, data)
    except mbmap.ModbusMapError:
        raise client.ModbusClientError('')


def mapped_close(self):
    return None


# --------------------------------------------------------------------- CRC

def compute_crc(data):
    crc = 0xffff
    for byte in data:
        crc = ((crc >> 8) & 0xff) ^ CRC_TABLE[(crc ^ byte) & 0xff]
    return ((crc & 0xff) << 8) | ((crc >> 8) & 0xff)


def compute_crc_text(data):
    crc = 0xffff
    for ch in data:
        crc = ((crc >> 8) & 0xff) ^ CRC_TABLE[(crc ^ ord(ch)) & 0xff]
    return ((crc & 0xff) << 8) | ((crc >> 8) & 0xff)


def compute_crc_bits(data):
    crc = 0xffff
    for byte in data:
        crc ^= byte
        for _ in range(8):
            crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return ((crc & 0xff) << 8) | ((crc >> 8) & 0xff)


def compute_crc_bits_text(data):
    crc = 0xffff
    for ch in data:
        crc ^= ord(ch)
        for _ in range(8):
            crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return ((crc & 0xff) << 8) | ((crc >> 8) & 0xff)


def check_crc(data, check):
    return client.computeCRC(data) == check


CRC_TABLE = []
for _n in range(256):
    _r = _n
    for _k in range(8):
        _r = (_r >> 1) ^ 0xa001 if _r & 1 else _r >> 1
    CRC_TABLE.append(_r)


# --------------------------------------- write data given as text (one character per byte)

def tcp_write_text(self, addr, data):
    mine = self.socket is None
    if mine:
        self.connect(self.timeout)
    total = len(data) // 2
    try:
        pos = 0
        while pos < total:
            n = min(self.max_count, total - pos)
            tcp_write_one(self, addr + pos, bytes(data[2 * pos:2 * (pos + n)], 'latin-1'))
            pos += n
    finally:
        if mine:
            self.disconnect()


def tcp_write_text_for(self, addr, data):
    mine = self.socket is None
    if mine:
        self.connect(self.timeout)
    total = len(data) // 2
    try:
        for pos in range(0, total, self.max_count):
            n = min(self.max_count, total - pos)
            tcp_write_one(self, addr + pos, bytes(data[2 * pos:2 * (pos + n)], 'latin-1'))
    finally:
        if mine:
            self.disconnect()


def rtu_write_text(self, slave_id, addr, data, trace_func=None, max_count=125):
    if self.serial is None:
        raise client.ModbusClientError('')
    total = len(data) // 2
    pos = 0
    while pos < total:
        n = min(max_count, total - pos)
        rtu_write_one(self, trace_func, slave_id, addr + pos, bytes(data[2 * pos:2 * (pos + n)], 'latin-1'))
        pos += n


def rtu_write_text_for(self, slave_id, addr, data, trace_func=None, max_count=125):
    if self.serial is None:
        raise client.ModbusClientError('')
    total = len(data) // 2
    for pos in range(0, total, max_count):
        n = min(max_count, total - pos)
        rtu_write_one(self, trace_func, slave_id, addr + pos, bytes(data[2 * pos:2 * (pos + n)], 'latin-1'))
