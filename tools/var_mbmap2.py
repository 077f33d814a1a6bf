"""second round: register maps"""
MAP2 = 'map.*,regs.*,mapped.*'
rewrite('p2-map-read', MAP2, MM, ModbusMap__read='''
def read(self, addr, count, op=None):
    self._check_func(op)
    offset = addr - int(self.base_addr)
    remaining = count
    pieces = []
    for regs in self.regs:
        if remaining <= 0:
            break
        if not regs.offset <= offset < regs.offset + regs.count:
            continue
        n = min(remaining, regs.offset + regs.count - offset)
        pieces.append(regs.read(offset, n))
        offset += n
        remaining -= n
    data = b''.join(pieces)
    if len(data) == int(count) * 2:
        return data
    print(self)
    raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))

def _check_func(self, op):
    if op and op != self.func:
        raise ModbusMapError('Data read error - function mismatch: request func = {} map func = {}'.format(op, self.func))
''')
rewrite('p2-map-read-filter', MAP2, MM, ModbusMap__read='''
def read(self, addr, count, op=None):
    if op:
        if op != self.func:
            raise ModbusMapError('Data read error - function mismatch: request func = {} map func = {}'.format(str(op), str(self.func)))
    data = b''
    left = count
    pos = addr - int(self.base_addr)
    for regs in self.regs:
        if left <= 0:
            break
        end = regs.offset + regs.count
        inside = pos >= regs.offset and pos < end
        if inside:
            take = end - pos if left >= end - pos else left
            data = data + regs.read(pos, take)
            pos, left = pos + take, left - take
    if len(data) != 2 * int(count):
        print(self)
        raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))
    return data
''')
rewrite('p2-map-write', MAP2, MM, ModbusMap__write='''
def write(self, addr, data):
    size = len(data)
    if size & 1:
        raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, size))
    plan = self._plan(addr - int(self.base_addr), data)
    for regs, offset, part in plan:
        regs.write(offset, part)

def _plan(self, offset, data):
    remaining = len(data) // 2
    plan = []
    start = 0
    for regs in self.regs:
        if remaining <= 0:
            break
        end_offset = regs.offset + regs.count
        if offset < regs.offset or offset >= end_offset:
            continue
        n = min(end_offset - offset, remaining)
        stop = start + n * 2
        plan.append((regs, offset, data[start:stop]))
        start = stop
        offset += n
        remaining -= n
    if remaining > 0:
        raise ModbusMapError('Data write error')
    return plan
''')
rewrite('p2-map-write-index', MAP2, MM, ModbusMap__write='''
def write(self, addr, data):
    data_len = len(data)
    if data_len % 2:
        raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
    targets = []
    offset = addr - int(self.base_addr)
    first = offset
    last = offset + data_len // 2
    for regs in self.regs:
        if offset >= last:
            break
        regs_end = regs.offset + regs.count
        if regs.offset <= offset and offset < regs_end:
            upto = regs_end if regs_end < last else last
            targets.append((regs, offset, data[(offset - first) * 2:(upto - first) * 2]))
            offset = upto
    if offset < last:
        raise ModbusMapError('Data write error')
    for target in targets:
        target[0].write(target[1], target[2])
''')
rewrite('p2-map-toxml', MAP2, MM, ModbusMap__to_xml='''
def to_xml(self, parent=None, no_data=False):
    attr = {MBMAP_ADDR: str(self.base_addr), MBMAP_FUNC: func_name.get(self.func, MBMAP_FUNC_HOLDING)}
    for key, value in ((MBMAP_NS, self.ns), (MBMAP_LID, self.lid), (MBMAP_MAPID, self.mapid), (MBMAP_TIME, self.time)):
        if value is not None:
            attr[key] = str(value)
    element = ET.Element(MBMAP_ROOT, attrib=attr) if parent is None else ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
    for regs in self.regs:
        self._regs_to_xml(element, regs, no_data)
    return element

def _regs_to_xml(self, element, regs, no_data):
    e = ET.SubElement(element, MBMAP_REGS)
    e.set(MBMAP_REGS_OFFSET, str(regs.offset))
    e.set(MBMAP_REGS_LEN, str(regs.count))
    e.set(MBMAP_REGS_ACCESS, regs.access)
    if no_data is not False:
        return
    e.text = ''.join('{:02x}'.format(d) for d in regs.data)
''')
rewrite('p2-map-toxml-hex', MAP2, MM, ModbusMap__to_xml='''
def to_xml(self, parent=None, no_data=False):
    attr = {MBMAP_FUNC: func_name.get(self.func, MBMAP_FUNC_HOLDING)}
    attr[MBMAP_ADDR] = str(self.base_addr)
    if self.time is not None:
        attr[MBMAP_TIME] = str(self.time)
    if self.mapid is not None:
        attr[MBMAP_MAPID] = str(self.mapid)
    if self.lid is not None:
        attr[MBMAP_LID] = str(self.lid)
    if self.ns is not None:
        attr[MBMAP_NS] = str(self.ns)
    if parent is not None:
        element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
    else:
        element = ET.Element(MBMAP_ROOT, attrib=attr)
    for block in self.regs:
        entry = ET.SubElement(element, MBMAP_REGS, {MBMAP_REGS_OFFSET: str(block.offset),
                                                    MBMAP_REGS_LEN: str(block.count),
                                                    MBMAP_REGS_ACCESS: block.access})
        if no_data is False:
            entry.text = block.data.hex()
    return element
''')
rewrite('p2-map-regs-add', MAP2, MM, ModbusMap__regs_add='''
def regs_add(self, addr=None, offset=None, count=1, access=MBMAP_REGS_ACCESS_RW):
    if addr is not None:
        offset = addr - self.base_addr
        if offset < 0:
            raise ModbusMapError('Address out of range')
    last = self.regs[-1] if self.regs else None
    end = last.offset + last.count if last is not None else 0
    if offset < end:
        raise ModbusMapError('Register offsets must be in ascending order with no overlap %d  %d' % (offset, end))
    data = bytes(count * 2)
    if last is not None and offset == end:
        last.append(offset, count, data, access)
        return last
    regs = ModbusMapRegs(offset, count, data, access)
    self.regs.append(regs)
    return regs
''')
rewrite('p2-map-place', MAP2, MM, ModbusMap__regs_add='''
def regs_add(self, addr=None, offset=None, count=1, access=MBMAP_REGS_ACCESS_RW):
    if addr is not None:
        if addr < self.base_addr:
            raise ModbusMapError('Address out of range')
        offset = addr - self.base_addr
    last_regs, end = self._tail()
    if offset < end:
        raise ModbusMapError('Register offsets must be in ascending order with no overlap %d  %d' % (offset, end))
    return self._place(last_regs, end, offset, count, struct.pack('%ds' % (count * 2), b''), access)

def _tail(self):
    if not self.regs:
        return None, 0
    last_regs = self.regs[-1]
    return last_regs, last_regs.offset + last_regs.count

def _place(self, last_regs, end, offset, count, data, access):
    if last_regs is not None and offset <= end:
        last_regs.append(offset, count, data, access)
        return last_regs
    mmr = ModbusMapRegs(offset, count, data, access)
    self.regs.append(mmr)
    return mmr
''')
rewrite('p2-map-init', MAP2, MM, ModbusMap____init__='''
def __init__(self, slave_id=None, func=MBMAP_FUNC_HOLDING, base_addr=MBMAP_BASE_ADDR_DEFAULT, ns=None, lid=None,
             mapid=None, time=None):
    if func not in func_value:
        raise ModbusMapError('Unsupported function: %s' % (func))
    self.func = func_value[func]
    self.slave_id = slave_id
    self.base_addr = base_addr
    self.ns, self.lid, self.mapid, self.time = ns, lid, mapid, time
    self.regs = list()
''')
rewrite('p2-map-ne', MAP2, MM, ModbusMap__not_equal='''
def not_equal(self, mbmap):
    if self.base_addr == mbmap.base_addr:
        if self.func == mbmap.func:
            if len(self.regs) == len(mbmap.regs):
                for mine, other in zip(self.regs, mbmap.regs):
                    reason = mine.not_equal(other)
                    if reason:
                        return reason
                return False
            return 'Register group count mismatch'
        return 'Function mismatch: {} {}'.format(self.func, mbmap.func)
    return 'Base address mismatch: {} {}'.format(self.base_addr, mbmap.base_addr)
''', ModbusMapRegs__not_equal='''
def not_equal(self, regs):
    if self.offset != regs.offset:
        return 'Offset mismatch: %d %d' % (self.offset, regs.offset)
    elif self.count != regs.count:
        return 'Count mismatch for offset %d: %d %d' % (self.offset, self.count, regs.count)
    if self.data != regs.data:
        for i, value in enumerate(self.data):
            if value != regs.data[i]:
                return 'Data mismatch at offset %d' % (self.offset + i / 2)
    return False if self.access == regs.access else 'Access mismatch for offset %d' % self.offset
''')
rewrite('p2-map-ne-next', MAP2, MM, ModbusMap__not_equal='''
def not_equal(self, mbmap):
    if self.base_addr != mbmap.base_addr:
        return 'Base address mismatch: {} {}'.format(self.base_addr, mbmap.base_addr)
    if self.func != mbmap.func:
        return 'Function mismatch: {} {}'.format(self.func, mbmap.func)
    if len(self.regs) != len(mbmap.regs):
        return 'Register group count mismatch'
    for i, regs in enumerate(self.regs):
        result = regs.not_equal(mbmap.regs[i])
        if not result:
            continue
        return result
    return False
''')
rewrite('p2-regs-rw', MAP2, MM, ModbusMapRegs__read='''
def read(self, offset, count):
    index = offset - self.offset
    if index < 0 or index >= self.count:
        raise ModbusMapError('Data read error')
    n = min(count, self.count - index)
    if n > 0:
        return self.data[index * 2:(index + n) * 2]
''', ModbusMapRegs__write='''
def write(self, offset, data):
    index = offset - self.offset
    count = len(data) / 2
    if index < 0 or index + count > self.count:
        raise ModbusMapError('Data write error')
    before = self.data[:index * 2]
    after = self.data[int(index * 2 + count * 2):]
    self.data = before + data + after
''', ModbusMapRegs__append='''
def append(self, offset, count, data, access=MBMAP_REGS_ACCESS_R):
    self.count = self.count + count
    self.data = self.data + data
''')
rewrite('p2-regs-end', MAP2, MM, ModbusMapRegs__read='''
def read(self, offset, count):
    end = self._end()
    if not (self.offset <= offset < end):
        raise ModbusMapError('Data read error')
    if offset + count > end:
        count = end - offset
    if count <= 0:
        return None
    start = 2 * (offset - self.offset)
    return self.data[start:start + 2 * count]

def _end(self):
    return self.offset + self.count
''', ModbusMapRegs__write='''
def write(self, offset, data):
    if offset < self.offset or offset + len(data) / 2 > self._end():
        raise ModbusMapError('Data write error')
    start = (offset - self.offset) * 2
    self.data = b''.join((self.data[:start], data, self.data[start + len(data):]))
''')
rewrite('p2-mapped', MAP2, MC, ModbusClientDeviceMapped____init__='''
def __init__(self, slave_id, name, pathlist=None, max_count=None, ctx=None):
    if name is None:
        raise ModbusClientError('No modbus map file provided during initialization')
    self.slave_id = slave_id
    self.name = name
    self.ctx = ctx
    modbus_map = mbmap.ModbusMap(slave_id)
    try:
        modbus_map.from_xml(name, pathlist)
    except mbmap.ModbusMapError as e:
        raise ModbusClientError(str(e))
    self.modbus_map = modbus_map
''', ModbusClientDeviceMapped__read='''
def read(self, addr, count, op=None):
    modbus_map = self._map()
    try:
        data = modbus_map.read(addr, count, op)
    except mbmap.ModbusMapError as e:
        raise ModbusClientError(str(e))
    return data

def _map(self):
    if self.modbus_map is None:
        raise ModbusClientError('No modbus map set for device')
    return self.modbus_map
''', ModbusClientDeviceMapped__write='''
def write(self, addr, data):
    try:
        return self._map().write(addr, data)
    except mbmap.ModbusMapError as e:
        raise ModbusClientError(str(e))
''')
rewrite('p2-from-xml-dispatch', MAP2, MM, ModbusMap__from_xml='''
def from_xml(self, filename=None, pathlist=None, element=None):
    offset = next_offset = 0
    try:
        root = self._root(filename, pathlist, element)
        self._header(root)
        for r in root.findall(MBMAP_REGS):
            attr = r.attrib
            offset = int(attr[MBMAP_REGS_OFFSET]) if MBMAP_REGS_OFFSET in attr else next_offset
            rlen = int(attr.get(MBMAP_REGS_LEN, 0))
            rtype = attr.get(MBMAP_REGS_TYPE, MBMAP_REGS_TYPE_HEX_STRING)
            access = attr.get(MBMAP_REGS_ACCESS, MBMAP_REGS_ACCESS_R)
            last_regs = self.regs[-1] if len(self.regs) > 0 else None
            last_regs_next = 0 if last_regs is None else last_regs.offset + last_regs.count
            if offset < last_regs_next:
                raise ModbusMapError('Register offsets must be in ascending order with no overlap %d  %d' % (offset, last_regs_next))
            rlen, data = self._decode(rtype, r.text, rlen, offset)
            next_offset = offset + rlen
            if last_regs is not None and offset <= last_regs_next:
                last_regs.append(offset, rlen, data, access)
            else:
                self.regs.append(ModbusMapRegs(offset, rlen, data, access))
    except Exception as e:
        raise ModbusMapError('Error loading %s (%s) at offset %d - %s' % (filename, pathlist, offset, str(e)))

def _root(self, filename, pathlist, element):
    if filename is None:
        if element is None:
            raise ModbusMapError('Root element not provided')
        return element
    if pathlist is not None:
        return ET.fromstring(pathlist.read(filename))
    with open(filename, 'r') as f:
        return ET.fromstring(f.read())

def _header(self, root):
    func = root.attrib.get(MBMAP_FUNC, MBMAP_FUNC_HOLDING)
    if func_value.get(func) is None:
        raise ModbusMapError('Unsupported function: %s' % (func))
    self.func = func_value[func]
    self.base_addr = int(root.attrib.get(MBMAP_ADDR, MBMAP_BASE_ADDR_DEFAULT))
    self.ns = root.attrib.get(MBMAP_NS)
    self.lid = root.attrib.get(MBMAP_LID)
    self.mapid = root.attrib.get(MBMAP_MAPID)
    self.time = root.attrib.get(MBMAP_TIME)

def _decode(self, rtype, text, rlen, offset):
    is_text = rtype in (MBMAP_REGS_TYPE_STRING, MBMAP_REGS_TYPE_HEX_STRING)
    if not text:
        text = '' if is_text else '0'
    if rtype == MBMAP_REGS_TYPE_S16:
        return 1, struct.pack('>h', int(text, 0))
    if rtype == MBMAP_REGS_TYPE_U16:
        return 1, struct.pack('>H', int(text, 0))
    if rtype == MBMAP_REGS_TYPE_S32:
        return 2, struct.pack('>l', int(text, 0))
    if rtype == MBMAP_REGS_TYPE_U32:
        return 2, struct.pack('>L', int(text, 0))
    if rtype == MBMAP_REGS_TYPE_S64:
        return 4, struct.pack('>q', int(text, 0))
    if rtype == MBMAP_REGS_TYPE_U64:
        return 4, struct.pack('>Q', int(text, 0))
    if rtype == MBMAP_REGS_TYPE_F32:
        return 2, struct.pack('>f', float(text))
    if rtype == MBMAP_REGS_TYPE_F64:
        return 4, struct.pack('>d', float(text))
    if rtype == MBMAP_REGS_TYPE_STRING:
        rlen = rlen or (len(text) + 1) // 2
        return rlen, struct.pack('%ds' % (rlen * 2), text.encode('latin-1'))
    if rtype != MBMAP_REGS_TYPE_HEX_STRING:
        raise ModbusMapError('Unknown type at offset %d' % (offset))
    text = text.replace(' ', '')
    digits = len(text)
    if digits % 4:
        raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
    if rlen == 0:
        rlen = digits // 4
    if digits > rlen * 4:
        raise ModbusMapError('Hex string content is longer than the register length')
    data = None
    for i in range(0, digits, 2):
        c = struct.pack('B', int(text[i:i + 2], 16))
        data = c if data is None else data + c
    missing = 2 * (rlen - digits // 4)
    if missing > 0:
        data = (data or b'') + bytes(missing)
    return rlen, data
''')
