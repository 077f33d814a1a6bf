"""third round: register maps with generators, tables, helpers"""
MAP3 = 'map.*,regs.*,mapped.*'

rewrite('n3-spans', MAP3, MM, ModbusMap__read='''
def _spans(self, offset, count):
    remaining = count
    for regs in self.regs:
        if remaining <= 0:
            return
        end = regs.offset + regs.count
        if not regs.offset <= offset < end:
            continue
        n = min(end - offset, remaining)
        yield regs, offset, n
        offset += n
        remaining -= n

def read(self, addr, count, op=None):
    if op and op != self.func:
        raise ModbusMapError('Data read error - function mismatch: request func = {} map func = {}'.format(op, self.func))
    data = b''.join(regs.read(offset, n) for regs, offset, n in self._spans(addr - int(self.base_addr), count))
    if len(data) != int(count) * 2:
        print(self)
        raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))
    return data
''', ModbusMap__write='''
def write(self, addr, data):
    if len(data) % 2 != 0:
        raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, len(data)))
    count = len(data) // 2
    writes = []
    pos = 0
    for regs, offset, n in self._spans(addr - int(self.base_addr), count):
        writes.append((regs, offset, data[2 * pos:2 * (pos + n)]))
        pos += n
    if pos < count:
        raise ModbusMapError('Data write error')
    for regs, offset, chunk in writes:
        regs.write(offset, chunk)
''')

rewrite('n3-spans-list', MAP3, MM, ModbusMap__read='''
def _spans(self, offset, count):
    spans = []
    for regs in self.regs:
        if count <= 0:
            break
        end = regs.offset + regs.count
        if offset >= regs.offset and offset < end:
            n = end - offset
            if n > count:
                n = count
            spans.append((regs, offset, n))
            offset += n
            count -= n
    return spans

def read(self, addr, count, op=None):
    if op and op != self.func:
        raise ModbusMapError('Data read error - function mismatch: request func = {} map func = {}'.format(op, self.func))
    data = b''
    for regs, offset, n in self._spans(addr - int(self.base_addr), count):
        data += regs.read(offset, n)
    if len(data) != int(count) * 2:
        print(self)
        raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))
    return data
''')

rewrite('BUG-n3-spans', MAP3, MM, ModbusMap__read='''
def _spans(self, offset, count):
    remaining = count
    for regs in self.regs:
        if remaining <= 0:
            return
        end = regs.offset + regs.count
        if not regs.offset <= offset < end:
            if offset < regs.offset:
                return
            continue
        n = min(end - offset, remaining)
        yield regs, offset, n
        offset += n
        remaining -= count

def read(self, addr, count, op=None):
    if op and op != self.func:
        raise ModbusMapError('Data read error - function mismatch: request func = {} map func = {}'.format(op, self.func))
    data = b''.join(regs.read(offset, n) for regs, offset, n in self._spans(addr - int(self.base_addr), count))
    if len(data) != int(count) * 2:
        print(self)
        raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))
    return data
''')

rewrite('n3-from-hex', MAP3, MM, ModbusMap__from_hex='''
def from_hex(self, name, pathlist=None):
    try:
        with open(name, 'r') as f:
            data = None
            for line in f:
                if line[0] == '#':
                    continue
                for token in line.rstrip('\\r\\n').split():
                    byte = struct.pack('B', int(token, 16))
                    data = byte if data is None else data + byte
        self.regs.append(ModbusMapRegs(0, len(data) // 2, data, MBMAP_REGS_ACCESS_RW))
    except Exception as e:
        raise ModbusMapError('Error loading map file: %s' % str(e))
''')

rewrite('n3-from-hex-gen', MAP3, MM, ModbusMap__from_hex='''
def from_hex(self, name, pathlist=None):
    f = None
    try:
        f = open(name, 'r')
        data = None
        for value in self._hex_values(f):
            c = struct.pack('B', value)
            if data is None:
                data = c
            else:
                data += c
        self.regs.append(ModbusMapRegs(0, len(data) // 2, data, MBMAP_REGS_ACCESS_RW))
    except Exception as e:
        raise ModbusMapError('Error loading map file: %s' % str(e))
    finally:
        if f is not None:
            f.close()

@staticmethod
def _hex_values(lines):
    for line in lines:
        if line[0] != '#':
            for token in line.rstrip('\\r\\n').split():
                yield int(token, 16)
''')

_FX = '''
def from_xml(self, filename=None, pathlist=None, element=None):
    offset = 0
    next_offset = 0
    try:
        root = self._root(filename, pathlist, element)
        self._header(root)
        for r in root.findall(MBMAP_REGS):
            attrib = r.attrib
            offset = attrib.get(MBMAP_REGS_OFFSET)
            offset = next_offset if offset is None else int(offset)
            rlen = int(attrib.get(MBMAP_REGS_LEN, 0))
            rtype = attrib.get(MBMAP_REGS_TYPE, MBMAP_REGS_TYPE_HEX_STRING)
            access = attrib.get(MBMAP_REGS_ACCESS, MBMAP_REGS_ACCESS_R)
            last = self.regs[-1] if self.regs else None
            end = last.offset + last.count if last is not None else 0
            if offset < end:
                raise ModbusMapError('Register offsets must be in ascending order with no overlap %d  %d' % (offset, end))
            rlen, data = self._value(rtype, r.text, rlen, offset)
            next_offset = offset + rlen
            if last is None or offset > end:
                self.regs.append(ModbusMapRegs(offset, rlen, data, access))
            else:
                last.append(offset, rlen, data, access)
    except Exception as e:
        raise ModbusMapError('Error loading %s (%s) at offset %d - %s' % (filename, pathlist, offset, str(e)))

def _root(self, filename, pathlist, element):
    if filename is None:
        if element is None:
            raise ModbusMapError('Root element not provided')
        return element
    if pathlist is not None:
        return ET.fromstring(pathlist.read(filename))
    with open(filename, 'r') as f:
        return ET.fromstring(f.read())

def _header(self, root):
    func = root.attrib.get(MBMAP_FUNC, MBMAP_FUNC_HOLDING)
    value = func_value.get(func)
    if value is None:
        raise ModbusMapError('Unsupported function: %s' % (func))
    self.func = value
    self.base_addr = int(root.attrib.get(MBMAP_ADDR, MBMAP_BASE_ADDR_DEFAULT))
    for name in (MBMAP_NS, MBMAP_LID, MBMAP_MAPID, MBMAP_TIME):
        setattr(self, name, root.attrib.get(name))
'''
_FXHEX = '''
def _hex(text, rlen):
    text = text.replace(' ', '')
    if len(text) % 4:
        raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
    if rlen == 0:
        rlen = len(text) // 4
    if rlen * 4 < len(text):
        raise ModbusMapError('Hex string content is longer than the register length')
    data = None
    for i in range(0, len(text), 2):
        c = struct.pack('B', int(text[i:i + 2], 16))
        data = c if data is None else data + c
    padding = 2 * (rlen - len(text) // 4)
    if padding > 0:
        data = (data or b'') + b'\\0' * padding
    return rlen, data
'''
_FXTAB = '''
_NUMBERS = {
    MBMAP_REGS_TYPE_S16: ('>h', 1, lambda t: int(t, 0)),
    MBMAP_REGS_TYPE_U16: ('>H', 1, lambda t: int(t, 0)),
    MBMAP_REGS_TYPE_S32: ('>l', 2, lambda t: int(t, 0)),
    MBMAP_REGS_TYPE_U32: ('>L', 2, lambda t: int(t, 0)),
    MBMAP_REGS_TYPE_S64: ('>q', 4, lambda t: int(t, 0)),
    MBMAP_REGS_TYPE_U64: ('>Q', 4, lambda t: int(t, 0)),
    MBMAP_REGS_TYPE_F32: ('>f', 2, float),
    MBMAP_REGS_TYPE_F64: ('>d', 4, float),
}
''' + _FXHEX
rewrite('n3-xml-table', MAP3, MM, _top=_FXTAB, ModbusMap__from_xml=_FX + '''
@staticmethod
def _value(rtype, text, rlen, offset):
    if rtype in _NUMBERS:
        fmt, count, convert = _NUMBERS[rtype]
        return count, struct.pack(fmt, convert(text or '0'))
    text = text or ''
    if rtype == MBMAP_REGS_TYPE_STRING:
        if rlen == 0:
            rlen = (len(text) + 1) // 2
        return rlen, struct.pack(str(rlen * 2) + 's', bytes(text, 'latin-1'))
    if rtype == MBMAP_REGS_TYPE_HEX_STRING:
        return _hex(text, rlen)
    raise ModbusMapError('Unknown type at offset %d' % (offset))
''')
rewrite('BUG-n3-xml-table', MAP3, MM, _top=_FXTAB.replace("'>Q'", "'>q'"), ModbusMap__from_xml=_FX + '''
@staticmethod
def _value(rtype, text, rlen, offset):
    if rtype in _NUMBERS:
        fmt, count, convert = _NUMBERS[rtype]
        return count, struct.pack(fmt, convert(text or '0'))
    text = text or ''
    if rtype == MBMAP_REGS_TYPE_STRING:
        if rlen == 0:
            rlen = (len(text) + 1) // 2
        return rlen, struct.pack(str(rlen * 2) + 's', bytes(text, 'latin-1'))
    if rtype == MBMAP_REGS_TYPE_HEX_STRING:
        return _hex(text, rlen)
    raise ModbusMapError('Unknown type at offset %d' % (offset))
''')
rewrite('n3-xml-match', MAP3, MM, _top=_FXHEX, ModbusMap__from_xml=_FX + '''
def _value(self, rtype, text, rlen, offset):
    match rtype:
        case 's16':
            return 1, struct.pack('>h', int(text or '0', 0))
        case 'u16':
            return 1, struct.pack('>H', int(text or '0', 0))
        case 's32':
            return 2, struct.pack('>l', int(text or '0', 0))
        case 'u32':
            return 2, struct.pack('>L', int(text or '0', 0))
        case 's64':
            return 4, struct.pack('>q', int(text or '0', 0))
        case 'u64':
            return 4, struct.pack('>Q', int(text or '0', 0))
        case 'f32':
            return 2, struct.pack('>f', float(text or '0'))
        case 'f64':
            return 4, struct.pack('>d', float(text or '0'))
        case 'string':
            data = (text or '').encode('latin-1')
            if rlen == 0:
                rlen = (len(data) + 1) // 2
            return rlen, struct.pack('%ds' % (rlen * 2), data)
        case 'hexstr':
            return _hex(text or '', rlen)
        case _:
            raise ModbusMapError('Unknown type at offset %d' % offset)
''')
rewrite('n3-xml-methods', MAP3, MM, _top=_FXHEX, ModbusMap__from_xml=_FX + '''
_WIDTH = {'s16': 1, 'u16': 1, 's32': 2, 'u32': 2, 's64': 4, 'u64': 4, 'f32': 2, 'f64': 4}
_CODE = {'s16': 'h', 'u16': 'H', 's32': 'l', 'u32': 'L', 's64': 'q', 'u64': 'Q', 'f32': 'f', 'f64': 'd'}

@classmethod
def _value(cls, rtype, text, rlen, offset):
    width = cls._WIDTH.get(rtype)
    if width is not None:
        if not text:
            text = '0'
        number = float(text) if rtype.startswith('f') else int(text, 0)
        return width, struct.pack('>' + cls._CODE[rtype], number)
    handler = {MBMAP_REGS_TYPE_STRING: cls._string, MBMAP_REGS_TYPE_HEX_STRING: _hex}.get(rtype)
    if handler is None:
        raise ModbusMapError('Unknown type at offset %d' % (offset))
    return handler(text if text else '', rlen)

@staticmethod
def _string(text, rlen):
    rlen = rlen or (len(text) + 1) // 2
    return rlen, struct.pack('{}s'.format(2 * rlen), text.encode('latin-1'))
''')

rewrite('n3-toxml', MAP3, MM, ModbusMap__to_xml='''
def to_xml(self, parent=None, no_data=False):
    attr = {MBMAP_ADDR: str(self.base_addr), MBMAP_FUNC: func_name.get(self.func, MBMAP_FUNC_HOLDING)}
    for name in (MBMAP_NS, MBMAP_LID, MBMAP_MAPID, MBMAP_TIME):
        value = getattr(self, name)
        if value is not None:
            attr[name] = str(value)
    element = ET.Element(MBMAP_ROOT, attr) if parent is None else ET.SubElement(parent, MBMAP_ROOT, attr)
    for regs in self.regs:
        regs.to_xml(element, no_data)
    return element
''', ModbusMapRegs__not_equal='''
def to_xml(self, parent, no_data):
    e = ET.SubElement(parent, MBMAP_REGS, {MBMAP_REGS_OFFSET: str(self.offset), MBMAP_REGS_LEN: str(self.count),
                                           MBMAP_REGS_ACCESS: self.access})
    if no_data is False:
        e.text = ''.join('%02x' % d for d in self.data)

def not_equal(self, regs):
    if self.offset != regs.offset:
        return 'Offset mismatch: %d %d' % (self.offset, regs.offset)
    if self.count != regs.count:
        return 'Count mismatch for offset %d: %d %d' % (self.offset, self.count, regs.count)
    if self.data != regs.data:
        for i, byte in enumerate(self.data):
            if byte != regs.data[i]:
                return 'Data mismatch at offset %d' % (self.offset + (i / 2))
    if self.access != regs.access:
        return 'Access mismatch for offset %d' % (self.offset)
    return False
''')

rewrite('n3-toxml-optional', MAP3, MM, ModbusMap__to_xml='''
def to_xml(self, parent=None, no_data=False):
    optional = {MBMAP_NS: self.ns, MBMAP_LID: self.lid, MBMAP_MAPID: self.mapid, MBMAP_TIME: self.time}
    attr = {MBMAP_ADDR: str(self.base_addr), MBMAP_FUNC: func_name.get(self.func, MBMAP_FUNC_HOLDING),
            **{k: str(v) for k, v in optional.items() if v is not None}}
    if parent is None:
        element = ET.Element(MBMAP_ROOT, attrib=attr)
    else:
        element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
    for regs in self.regs:
        e = ET.SubElement(element, MBMAP_REGS)
        e.set(MBMAP_REGS_OFFSET, str(regs.offset))
        e.set(MBMAP_REGS_LEN, str(regs.count))
        e.set(MBMAP_REGS_ACCESS, regs.access)
        if no_data is False:
            e.text = regs.data.hex()
    return element
''')

rewrite('n3-regs-range', MAP3, MM, ModbusMapRegs__read='''
@property
def end(self):
    return self.offset + self.count

def __contains__(self, offset):
    return self.offset <= offset < self.end

def _bytes(self, offset, count):
    start = (offset - self.offset) * 2
    return slice(start, int(start + count * 2))

def read(self, offset, count):
    if offset not in self:
        raise ModbusMapError('Data read error')
    n = min(count, self.end - offset)
    if n > 0:
        return self.data[self._bytes(offset, n)]
''', ModbusMapRegs__write='''
def write(self, offset, data):
    count = len(data) / 2
    if offset < self.offset or offset + count > self.end:
        raise ModbusMapError('Data write error')
    where = self._bytes(offset, count)
    self.data = self.data[:where.start] + data + self.data[where.stop:]
''')

rewrite('n3-regs-add', MAP3, MM, ModbusMap__regs_add='''
def _tail(self):
    """last group of registers and the offset after it"""
    if not self.regs:
        return None, 0
    last = self.regs[-1]
    return last, last.offset + last.count

def regs_add(self, addr=None, offset=None, count=1, access=MBMAP_REGS_ACCESS_RW):
    if addr is not None:
        offset = addr - self.base_addr
        if offset < 0:
            raise ModbusMapError('Address out of range')
    regs, end = self._tail()
    if offset < end:
        raise ModbusMapError('Register offsets must be in ascending order with no overlap %d  %d' % (offset, end))
    data = bytes(count * 2)
    if regs is not None and offset == end:
        regs.append(offset, count, data, access)
    else:
        regs = ModbusMapRegs(offset, count, data, access)
        self.regs.append(regs)
    return regs
''')

rewrite('n3-ne', MAP3, MM, ModbusMap__not_equal='''
def not_equal(self, mbmap):
    for attr, text in (('base_addr', 'Base address'), ('func', 'Function')):
        mine, other = getattr(self, attr), getattr(mbmap, attr)
        if mine != other:
            return '{} mismatch: {} {}'.format(text, mine, other)
    if len(self.regs) != len(mbmap.regs):
        return 'Register group count mismatch'
    for mine, other in zip(self.regs, mbmap.regs):
        if (difference := mine.not_equal(other)):
            return difference
    return False
''')
rewrite('n3-ne-next', MAP3, MM, ModbusMap__not_equal='''
def not_equal(self, mbmap):
    if self.base_addr != mbmap.base_addr:
        return f'Base address mismatch: {self.base_addr} {mbmap.base_addr}'
    if self.func != mbmap.func:
        return f'Function mismatch: {self.func} {mbmap.func}'
    if len(self.regs) != len(mbmap.regs):
        return 'Register group count mismatch'
    differences = (a.not_equal(b) for a, b in zip(self.regs, mbmap.regs))
    return next((d for d in differences if d), False)
''')
rewrite('n3-spans-while', MAP3, MM, ModbusMap__write='''
def _split(self, offset, count):
    spans = []
    start = 0
    for regs in self.regs:
        if start >= count:
            break
        end = regs.offset + regs.count
        if regs.offset <= offset < end:
            n = min(end - offset, count - start)
            spans.append((regs, offset, slice(2 * start, 2 * (start + n))))
            start += n
            offset += n
    if start < count:
        raise ModbusMapError('Data write error')
    return spans

def write(self, addr, data):
    if len(data) % 2 != 0:
        raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, len(data)))
    for regs, offset, part in self._split(addr - int(self.base_addr), len(data) // 2):
        regs.write(offset, data[part])
''')
