"""Reference model: register maps (never executed, only analysed)."""
import struct
import xml.etree.ElementTree as ET

import sunspec.core.modbus.mbmap as mbmap

FUNC_CODE = {'input': 4, 'holding': 3}
FUNC_NAME = {4: 'input', 3: 'holding'}


def init(self, slave_id=None, func='holding', base_addr=40000, ns=None, lid=None, mapid=None, time=None):
    self.slave_id = slave_id
    self.base_addr = base_addr
    self.ns = ns
    self.lid = lid
    self.mapid = mapid
    self.time = time
    self.regs = []
    code = FUNC_CODE.get(func)
    if code is None:
        raise mbmap.ModbusMapError('')
    self.func = code


def read(self, addr, count, op=None):
    if op and op != self.func:
        raise mbmap.ModbusMapError('')
    out = b''
    left = count
    pos = addr - int(self.base_addr)
    for block in self.regs:
        if left <= 0:
            break
        end = block.offset + block.count
        if block.offset <= pos < end:
            n = min(end - pos, left)
            out += block.read(pos, n)
            pos += n
            left -= n
    if len(out) != int(count) * 2:
        raise mbmap.ModbusMapError('')
    return out


def write(self, addr, data):
    if len(data) % 2 != 0:
        raise mbmap.ModbusMapError('')
    left = len(data) // 2
    pos = addr - int(self.base_addr)
    at = 0
    plan = []
    for block in self.regs:
        if left <= 0:
            break
        end = block.offset + block.count
        if block.offset <= pos < end:
            n = min(end - pos, left)
            plan.append((block, pos, data[at:at + 2 * n]))
            pos += n
            at += 2 * n
            left -= n
    if left > 0:
        raise mbmap.ModbusMapError('')
    for block, where, part in plan:
        block.write(where, part)


def regs_init(self, offset, count, data, access='r'):
    self.offset = offset
    self.count = count
    self.data = data
    self.access = access


def regs_read(self, offset, count):
    end = self.offset + self.count
    if offset < self.offset or offset >= end:
        raise mbmap.ModbusMapError('')
    n = min(count, end - offset)
    if n > 0:
        at = 2 * (offset - self.offset)
        return self.data[at:at + 2 * n]


def regs_write(self, offset, data):
    n = len(data) / 2
    if offset < self.offset or offset + n > self.offset + self.count:
        raise mbmap.ModbusMapError('')
    at = 2 * (offset - self.offset)
    self.data = self.data[:at] + data + self.data[at + len(data):]


def regs_append(self, offset, count, data, access='r'):
    self.data += data
    self.count += count


def regs_add(self, addr=None, offset=None, count=1, access='rw'):
    if addr is not None:
        if addr < self.base_addr:
            raise mbmap.ModbusMapError('')
        offset = addr - self.base_addr
    last = None
    top = 0
    if self.regs:
        last = self.regs[-1]
        top = last.offset + last.count
    if offset < top:
        raise mbmap.ModbusMapError('')
    zeros = struct.pack(str(count * 2) + 's', b'')
    if last is None or offset > top:
        block = mbmap.ModbusMapRegs(offset, count, zeros, access)
        self.regs.append(block)
        return block
    last.append(offset, count, zeros, access)
    return last


def regs_not_equal(self, regs):
    if self.offset != regs.offset:
        return 'differs'
    if self.count != regs.count:
        return 'differs'
    if self.data != regs.data:
        for i in range(len(self.data)):
            if self.data[i] != regs.data[i]:
                return 'differs'
    if self.access != regs.access:
        return 'differs'
    return False


def not_equal(self, mbmap):
    if self.base_addr != mbmap.base_addr:
        return 'differs'
    if self.func != mbmap.func:
        return 'differs'
    if len(self.regs) != len(mbmap.regs):
        return 'differs'
    for i in range(len(self.regs)):
        why = self.regs[i].not_equal(mbmap.regs[i])
        if why:
            return why
    return False


def from_xml(self, filename=None, pathlist=None, element=None):
    try:
        if filename is not None:
            if pathlist is not None:
                text = pathlist.read(filename)
            else:
                f = open(filename, 'r')
                text = f.read()
                f.close()
            root = ET.fromstring(text)
        elif element is not None:
            root = element
        else:
            raise mbmap.ModbusMapError('')
        code = FUNC_CODE.get(root.attrib.get('func', 'holding'))
        if code is None:
            raise mbmap.ModbusMapError('')
        self.func = code
        self.base_addr = int(root.attrib.get('addr', 40000))
        self.ns = root.attrib.get('ns')
        self.lid = root.attrib.get('lid')
        self.mapid = root.attrib.get('mapid')
        self.time = root.attrib.get('time')
        follow = 0
        for r in root.findall('regs'):
            at = r.attrib.get('offset')
            at = follow if at is None else int(at)
            length = int(r.attrib.get('len', 0))
            kind = r.attrib.get('type', 'hexstr')
            access = r.attrib.get('access', 'r')
            last = None
            top = 0
            if self.regs:
                last = self.regs[-1]
                top = last.offset + last.count
            if at < top:
                raise mbmap.ModbusMapError('')
            data, length = block_data(r.text, kind, length)
            follow = at + length
            if last is None or at > top:
                self.regs.append(mbmap.ModbusMapRegs(at, length, data, access))
            else:
                last.append(at, length, data, access)
    except Exception:
        raise mbmap.ModbusMapError('')


def block_data(text, kind, length):
    if not text:
        text = '' if kind in ('string', 'hexstr') else '0'
    if kind == 's16':
        return struct.pack('>h', int(text, 0)), 1
    if kind == 'u16':
        return struct.pack('>H', int(text, 0)), 1
    if kind == 's32':
        return struct.pack('>l', int(text, 0)), 2
    if kind == 'u32':
        return struct.pack('>L', int(text, 0)), 2
    if kind == 's64':
        return struct.pack('>q', int(text, 0)), 4
    if kind == 'u64':
        return struct.pack('>Q', int(text, 0)), 4
    if kind == 'f32':
        return struct.pack('>f', float(text)), 2
    if kind == 'f64':
        return struct.pack('>d', float(text)), 4
    if kind == 'string':
        if length == 0:
            length = (len(text) + 1) // 2
        return struct.pack(str(length * 2) + 's', bytes(text, 'latin-1')), length
    if kind != 'hexstr':
        raise mbmap.ModbusMapError('')
    if text:
        text = text.replace(' ', '')
    n = len(text)
    if n % 4 != 0:
        raise mbmap.ModbusMapError('')
    if length == 0:
        length = n // 4
    if length * 4 < n:
        raise mbmap.ModbusMapError('')
    data = None
    i = 0
    while i < n:
        byte = struct.pack('B', int(text[i:i + 2], 16))
        i += 2
        data = byte if data is None else data + byte
    fill = 2 * int(length - n / 4)
    if fill > 0:
        if data is None:
            data = b''
        data += struct.pack(str(fill) + 's', b'')
    return data, length


def from_hex(self, name, pathlist=None):
    data = None
    try:
        f = open(name, 'r')
        for line in f:
            if line[0] != '#':
                words = line.rstrip('\r\n').split()
                if len(words) > 0:
                    for w in words:
                        c = struct.pack('B', int(w, 16))
                        data = c if data is None else data + c
        block = mbmap.ModbusMapRegs(0, len(data) // 2, data, 'rw')
        self.regs.append(block)
        f.close()
    except Exception:
        try:
            f.close()
        except:
            pass
        raise mbmap.ModbusMapError('')


def to_xml(self, parent=None, no_data=False):
    attr = {'addr': str(self.base_addr), 'func': FUNC_NAME.get(self.func, 'holding')}
    if self.ns is not None:
        attr['ns'] = str(self.ns)
    if self.lid is not None:
        attr['lid'] = str(self.lid)
    if self.mapid is not None:
        attr['mapid'] = str(self.mapid)
    if self.time is not None:
        attr['time'] = str(self.time)
    if parent is None:
        root = ET.Element('mbmap', attrib=attr)
    else:
        root = ET.SubElement(parent, 'mbmap', attrib=attr)
    for block in self.regs:
        e = ET.SubElement(root, 'regs', attrib={'offset': str(block.offset), 'len': str(block.count), 'access': block.access})
        if no_data is False:
            text = ''
            for d in block.data:
                text += '%02x' % d
            e.text = text
    return root
