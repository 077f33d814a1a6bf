MAP = 'map.*,regs.*,mapped.*'

variant('map-pack-table', MAP,
        (MM, """                if rtype == MBMAP_REGS_TYPE_S16:
                    data = struct.pack('>h', int(text, 0))
                    rlen = 1
                elif rtype == MBMAP_REGS_TYPE_U16:
                    data = struct.pack('>H', int(text, 0))
                    rlen = 1
                elif rtype == MBMAP_REGS_TYPE_S32:
                    data = struct.pack('>l', int(text, 0))
                    rlen = 2
                elif rtype == MBMAP_REGS_TYPE_U32:
                    data = struct.pack('>L', long(text, 0))
                    rlen = 2
                elif rtype == MBMAP_REGS_TYPE_S64:
                    data = struct.pack('>q', long(text, 0))
                    rlen = 4
                elif rtype == MBMAP_REGS_TYPE_U64:
                    data = struct.pack('>Q', long(text, 0))
                    rlen = 4
                elif rtype == MBMAP_REGS_TYPE_F32:
""", """                if rtype in INT_TYPES:
                    fmt, rlen = INT_TYPES[rtype]
                    data = struct.pack(fmt, int(text, 0))
                elif rtype == MBMAP_REGS_TYPE_F32:
"""),
        (MM, "class ModbusMapError(Exception):", """INT_TYPES = {
    MBMAP_REGS_TYPE_S16: ('>h', 1),
    MBMAP_REGS_TYPE_U16: ('>H', 1),
    MBMAP_REGS_TYPE_S32: ('>l', 2),
    MBMAP_REGS_TYPE_U32: ('>L', 2),
    MBMAP_REGS_TYPE_S64: ('>q', 4),
    MBMAP_REGS_TYPE_U64: ('>Q', 4),
}

class ModbusMapError(Exception):"""))
variant('map-pack-table-get', MAP,
        (MM, """                if rtype == MBMAP_REGS_TYPE_S16:
                    data = struct.pack('>h', int(text, 0))
                    rlen = 1
                elif rtype == MBMAP_REGS_TYPE_U16:
                    data = struct.pack('>H', int(text, 0))
                    rlen = 1
                elif rtype == MBMAP_REGS_TYPE_S32:
                    data = struct.pack('>l', int(text, 0))
                    rlen = 2
                elif rtype == MBMAP_REGS_TYPE_U32:
                    data = struct.pack('>L', long(text, 0))
                    rlen = 2
                elif rtype == MBMAP_REGS_TYPE_S64:
                    data = struct.pack('>q', long(text, 0))
                    rlen = 4
                elif rtype == MBMAP_REGS_TYPE_U64:
                    data = struct.pack('>Q', long(text, 0))
                    rlen = 4
                elif rtype == MBMAP_REGS_TYPE_F32:
                    data = struct.pack('>f', float(text))
                    rlen = 2
                elif rtype == MBMAP_REGS_TYPE_F64:
                    data = struct.pack('>d', float(text))
                    rlen = 4
                elif rtype""", """                packing = {
                    's16': ('>h', lambda t: int(t, 0)), 'u16': ('>H', lambda t: int(t, 0)),
                    's32': ('>l', lambda t: int(t, 0)), 'u32': ('>L', lambda t: int(t, 0)),
                    's64': ('>q', lambda t: int(t, 0)), 'u64': ('>Q', lambda t: int(t, 0)),
                    'f32': ('>f', float), 'f64': ('>d', float),
                }.get(rtype)
                if packing is not None:
                    code, conv = packing
                    data = struct.pack(code, conv(text))
                    rlen = struct.calcsize(code) // 2
                elif rtype"""))
variant('map-hex-helper', MAP,
        (MM, """                    text_index = 0
                    while text_index < text_len:
                        c = struct.pack('B', int(text[text_index:text_index + 2], 16))
                        text_index += 2
                        if data is None:
                            data = c
                        else:
                            data += c
                    # fill remainder of string with nulls
                    padding_needed = 2 * int(rlen - text_len / 4)
                    if padding_needed > 0:
                        if data is None:
                            data = b''
                        data += struct.pack(str(padding_needed) + 's', b'')
""", """                    data = self._hex_data(text, text_len, rlen)
"""),
        (MM, "    def to_xml(self, parent=None, no", """    @staticmethod
    def _hex_data(text, text_len, rlen):
        data = None
        for text_index in range(0, text_len, 2):
            c = struct.pack('B', int(text[text_index:text_index + 2], 16))
            data = c if data is None else data + c
        padding_needed = 2 * int(rlen - text_len / 4)
        if padding_needed > 0:
            data = (data or b'') + struct.pack(str(padding_needed) + 's', b'')
        return data

    def to_xml(self, parent=None, no"""))
variant('map-hex-join', MAP,
        (MM, """                    text_index = 0
                    while text_index < text_len:
                        c = struct.pack('B', int(text[text_index:text_index + 2], 16))
                        text_index += 2
                        if data is None:
                            data = c
                        else:
                            data += c
                    # fill remainder of string with nulls
                    padding_needed = 2 * int(rlen - text_len / 4)
                    if padding_needed > 0:
                        if data is None:
                            data = b''
                        data += struct.pack(str(padding_needed) + 's', b'')
""", """                    octets = [int(text[i:i + 2], 16) for i in range(0, text_len, 2)]
                    if octets or rlen:
                        data = b''.join(struct.pack('B', o) for o in octets)
                        data += b'\\0' * (2 * rlen - text_len // 2)
"""))
variant('map-hex-ljust', MAP,
        (MM, """                    text_index = 0
                    while text_index < text_len:
                        c = struct.pack('B', int(text[text_index:text_index + 2], 16))
                        text_index += 2
                        if data is None:
                            data = c
                        else:
                            data += c
                    # fill remainder of string with nulls
                    padding_needed = 2 * int(rlen - text_len / 4)
                    if padding_needed > 0:
                        if data is None:
                            data = b''
                        data += struct.pack(str(padding_needed) + 's', b'')
""", """                    for text_index in range(0, text_len, 2):
                        octet = struct.pack('B', int(text[text_index:text_index + 2], 16))
                        data = octet if data is None else data + octet
                    padding_needed = 2 * rlen - text_len // 2
                    if padding_needed > 0:
                        data = (data if data is not None else b'').ljust(2 * rlen, b'\\0')
"""))
variant('map-place-helper', MAP,
        (MM, """                # if not contiguous, create a new register block
                if last_regs is None or offset > last_regs_next:
                    mmr = ModbusMapRegs(offset, rlen, data, access)
                    self.regs.append(mmr)
                # append to last register block
                else:
                    last_regs.append(offset, rlen, data, access)
""", """                self._place(offset, rlen, data, access)
"""),
        (MM, """        if last_regs is None or offset > last_regs_next:
            mmr = ModbusMapRegs(offset, count, data, access)
            self.regs.append(mmr)
        # append to last register block
        else:
            mmr = last_regs
            last_regs.append(offset, count, data, access)

        return mmr
""", """        return self._place(offset, count, data, access)

    def _place(self, offset, count, data, access):
        last_regs = self.regs[-1] if self.regs else None
        if last_regs is not None and offset <= last_regs.offset + last_regs.count:
            last_regs.append(offset, count, data, access)
            return last_regs
        mmr = ModbusMapRegs(offset, count, data, access)
        self.regs.append(mmr)
        return mmr
"""))
variant('map-last-helper', MAP,
        (MM, """                if len(self.regs) > 0:
                    last_regs = self.regs[-1]
                    last_regs_next = last_regs.offset + last_regs.count
                else:
                    last_regs = None
                    last_regs_next = 0
""", """                last_regs, last_regs_next = self._last()
"""),
        (MM, """        if len(self.regs) > 0:
            last_regs = self.regs[-1]
            last_regs_next = last_regs.offset + last_regs.count
        else:
            last_regs = None
            last_regs_next = 0
""", """        last_regs, last_regs_next = self._last()
"""),
        (MM, "    def regs_add(self, addr=None", """    def _last(self):
        if not self.regs:
            return None, 0
        last = self.regs[-1]
        return last, last.offset + last.count

    def regs_add(self, addr=None"""))
variant('map-attrs', MAP,
        (MM, """                offset = r.attrib.get(MBMAP_REGS_OFFSET)
                if offset is None:
                    offset = next_offset
                else:
                    offset = int(offset)
                rlen = int(r.attrib.get(MBMAP_REGS_LEN, 0))
""", """                attr = r.attrib
                offset = int(attr[MBMAP_REGS_OFFSET]) if MBMAP_REGS_OFFSET in attr else next_offset
                rlen = int(r.get(MBMAP_REGS_LEN, 0))
"""),
        (MM, "                fill = r.attrib.get(MBMAP_REGS_FILL, '\\0')\n", ""),
        (MM, """                if not text:
                    if rtype ==  MBMAP_REGS_TYPE_STRING or rtype == MBMAP_REGS_TYPE_HEX_STRING:
                        text = ''
                    else:
                        text = '0'
""", """                if not text:
                    text = '' if rtype in (MBMAP_REGS_TYPE_STRING, MBMAP_REGS_TYPE_HEX_STRING) else '0'
"""))
variant('map-xml-text', MAP,
        (MM, """                s = ''
                if sys.version_info > (3,):
                    # Iterating over python 3 bytes gives integers
                    for d in regs.data:
                        s += '%02x' % d
                else:
                    for d in regs.data:
                        s += '%02x' % ord(d)
                e.text = s
""", """                e.text = ''.join('%02x' % d for d in bytearray(regs.data))
"""),
        (MM, """        if self.ns is not None:
            attr[MBMAP_NS] = str(self.ns)
        if self.lid is not None:
            attr[MBMAP_LID] = str(self.lid)
        if self.mapid is not None:
            attr[MBMAP_MAPID] = str(self.mapid)
        if self.time is not None:
            attr[MBMAP_TIME] = str(self.time)
""", """        for key, value in ((MBMAP_NS, self.ns), (MBMAP_LID, self.lid), (MBMAP_MAPID, self.mapid), (MBMAP_TIME, self.time)):
            if value is not None:
                attr[key] = str(value)
"""))
variant('map-xml-binascii', MAP,
        (MM, """                s = ''
                if sys.version_info > (3,):
                    # Iterating over python 3 bytes gives integers
                    for d in regs.data:
                        s += '%02x' % d
                else:
                    for d in regs.data:
                        s += '%02x' % ord(d)
                e.text = s
""", """                e.text = binascii.hexlify(regs.data).decode('ascii')
"""), (MM, "import sys\n", "import binascii\nimport sys\n"))
variant('map-xml-getattr', MAP,
        (MM, """        if self.ns is not None:
            attr[MBMAP_NS] = str(self.ns)
        if self.lid is not None:
            attr[MBMAP_LID] = str(self.lid)
        if self.mapid is not None:
            attr[MBMAP_MAPID] = str(self.mapid)
        if self.time is not None:
            attr[MBMAP_TIME] = str(self.time)
""", """        for name in (MBMAP_NS, MBMAP_LID, MBMAP_MAPID, MBMAP_TIME):
            value = getattr(self, name)
            if value is not None:
                attr[name] = str(value)
"""),
        (MM, """            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
                                                                MBMAP_REGS_ACCESS: regs.access})

            if no_data is False:
""", """            e = ET.SubElement(element, MBMAP_REGS)
            e.set(MBMAP_REGS_OFFSET, str(regs.offset))
            e.set(MBMAP_REGS_LEN, '%d' % regs.count)
            e.attrib[MBMAP_REGS_ACCESS] = regs.access
            if not no_data is not False:
"""))
variant('map-read-guard', MAP,
        (MM, """        for regs in self.regs:
            if count_remaining > 0:
                regs_end_offset = regs.offset + regs.count
                if offset >= regs.offset and offset < regs_end_offset:
                    read_count = regs_end_offset - offset
                    if count_remaining < read_count:
                        read_count = count_remaining
                    data += regs.read(offset, read_count)
                    offset += read_count
                    count_remaining -= read_count
                else:
                    continue
            else:
                break
""", """        for regs in self.regs:
            if count_remaining <= 0:
                break
            regs_end_offset = regs.offset + regs.count
            if not (regs.offset <= offset < regs_end_offset):
                continue
            read_count = min(regs_end_offset - offset, count_remaining)
            data += regs.read(offset, read_count)
            offset += read_count
            count_remaining -= read_count
"""))
variant('map-read-chunks', MAP,
        (MM, """                    data += regs.read(offset, read_count)
                    offset += read_count
                    count_remaining -= read_count
""", """                    chunks.append(regs.read(offset, read_count))
                    offset += read_count
                    count_remaining -= read_count
"""),
        (MM, """        data = b''
        count_remaining = count

        if op""", """        chunks = []
        count_remaining = count

        if op"""),
        (MM, "        # must have all requested data for success\n", "        data = b''.join(chunks)\n        # must have all requested data for success\n"))
variant('map-read-end', MAP,
        (MM, """        offset = addr - int(self.base_addr)
        for regs in self.regs:
            if count_remaining > 0:
                regs_end_offset = regs.offset + regs.count
                if offset >= regs.offset and offset < regs_end_offset:
                    read_count = regs_end_offset - offset
                    if count_remaining < read_count:
                        read_count = count_remaining
                    data += regs.read(offset, read_count)
                    offset += read_count
                    count_remaining -= read_count
                else:
                    continue
            else:
                break
""", """        offset = addr - int(self.base_addr)
        end = offset + count
        for regs in self.regs:
            if offset >= end:
                break
            limit = regs.offset + regs.count
            if regs.offset <= offset < limit:
                stop = min(limit, end)
                data += regs.read(offset, stop - offset)
                offset = stop
"""))
variant('map-write-plan', MAP,
        (MM, """        data_offset = 0
        offset = addr - int(self.base_addr)
        for regs in self.regs:
            if count_remaining > 0:
                regs_end_offset = regs.offset + regs.count
                if offset >= regs.offset and offset < regs_end_offset:
                    write_count = regs_end_offset - offset
                    if count_remaining < write_count:
                        write_count = count_remaining
                    # regs
                    # data += regs.read(offset, read_count)
                    start = data_offset
                    end = int(data_offset + (write_count * 2))
                    writes.append((regs, offset, data[start:end]))
                    offset += write_count
                    data_offset += write_count * 2
                    count_remaining -= write_count
                else:
                    continue
            else:
                break

        # must have written all data for success
        if count_remaining > 0:
           raise ModbusMapError('Data write error')
        for regs, offset, regs_data in writes:
            regs.write(offset, regs_data)
""", """        start = 0
        offset = addr - int(self.base_addr)
        for regs in self.regs:
            if count_remaining <= 0:
                break
            available = regs.offset + regs.count - offset
            if offset < regs.offset or available <= 0:
                continue
            write_count = count_remaining if count_remaining < available else available
            end = start + write_count * 2
            writes.append((regs, offset, data[start:end]))
            start = end
            offset += write_count
            count_remaining -= write_count

        if count_remaining > 0:
            raise ModbusMapError('Data write error')
        for item in writes:
            item[0].write(item[1], item[2])
"""))
variant('map-write-generator', MAP,
        (MM, """        data_offset = 0
        offset = addr - int(self.base_addr)
        for regs in self.regs:
            if count_remaining > 0:
                regs_end_offset = regs.offset + regs.count
                if offset >= regs.offset and offset < regs_end_offset:
                    write_count = regs_end_offset - offset
                    if count_remaining < write_count:
                        write_count = count_remaining
                    # regs
                    # data += regs.read(offset, read_count)
                    start = data_offset
                    end = int(data_offset + (write_count * 2))
                    writes.append((regs, offset, data[start:end]))
                    offset += write_count
                    data_offset += write_count * 2
                    count_remaining -= write_count
                else:
                    continue
            else:
                break

        # must have written all data for success
        if count_remaining > 0:
           raise ModbusMapError('Data write error')
        for regs, offset, regs_data in writes:
            regs.write(offset, regs_data)
""", """        pos = 0
        for regs, offset, count in self._segments(addr, count_remaining):
            writes.append((regs, offset, data[pos:pos + 2 * count]))
            pos += 2 * count
        # must have written all data for success
        if 2 * count_remaining > pos:
            raise ModbusMapError('Data write error')
        for regs, offset, regs_data in writes:
            regs.write(offset, regs_data)

    def _segments(self, addr, count_remaining):
        offset = addr - int(self.base_addr)
        for regs in self.regs:
            if count_remaining <= 0:
                break
            regs_end_offset = regs.offset + regs.count
            if offset >= regs.offset and offset < regs_end_offset:
                n = regs_end_offset - offset
                if count_remaining < n:
                    n = count_remaining
                yield regs, offset, n
                offset += n
                count_remaining -= n
"""))
variant('map-ne-zip', MAP,
        (MM, """        for i in range(len(self.regs)):
            not_equal = self.regs[i].not_equal(mbmap.regs[i])
            if not_equal:
                return not_equal
        return False

    def __str__""", """        for mine, other in zip(self.regs, mbmap.regs):
            reason = mine.not_equal(other)
            if reason:
                return reason
        return False

    def __str__"""))
variant('map-init-lookup', MAP,
        (MM, """        value = func_value.get(func)
        if value is None:
            raise ModbusMapError('Unsupported function: %s' % (func))
        self.func = value

""", """        self.func = self._function(func)

    @staticmethod
    def _function(func):
        if func not in func_value:
            raise ModbusMapError('Unsupported function: %s' % (func))
        return func_value[func]
"""),
        (MM, """            value = func_value.get(func)
            if value is None:
                raise ModbusMapError('Unsupported function: %s' % (func))
            self.func = value
            self.base""", """            self.func = self._function(func)
            self.base"""))
variant('map-hexfile', MAP,
        (MM, """            f = open(name, 'r')
            for line in f:
                if line[0] != '#':
                    data_list = line.rstrip('\\r\\n').split()
                    data_len = len(data_list)/2
                    if data_len > 0:
                        # print(offset, data_list)
                        for b in data_list:
                            c = struct.pack('B', int(b, 16))
                            if data is None:
                                data = c
                            else:
                                data += c
""", """            f = open(name, 'r')
            for line in f:
                if line[0] == '#':
                    continue
                for b in line.rstrip('\\r\\n').split():
                    c = struct.pack('B', int(b, 16))
                    data = c if data is None else data + c
"""))
variant('regs-read-flat', MAP,
        (MM, """        regs_end_offset = self.offset + self.count
        end_offset = offset + count
        read_count = count
        if offset >= self.offset and offset < regs_end_offset:
            if offset < regs_end_offset and end_offset > regs_end_offset:
                read_count = regs_end_offset - offset
            if read_count > 0:
                start = (offset - self.offset) * 2
                end = start + (read_count * 2)
                return self.data[start:end]
        else:
            raise ModbusMapError('Data read error')
""", """        regs_end_offset = self.offset + self.count
        if not self.offset <= offset < regs_end_offset:
            raise ModbusMapError('Data read error')
        read_count = min(count, regs_end_offset - offset)
        if read_count <= 0:
            return None
        start = 2 * (offset - self.offset)
        return self.data[start:start + 2 * read_count]
"""))
variant('regs-write-guard', MAP,
        (MM, """        count = len(data)/2
        if (offset >= self.offset) and (offset + count <= self.offset + self.count):
            start = (offset - self.offset) * 2
            end = int(start + (count * 2))
            self.data = self.data[:start] + data + self.data[end:]
        else:
           raise ModbusMapError('Data write error')
""", """        size = len(data)
        start = (offset - self.offset) * 2
        end = start + size
        if start < 0 or end > 2 * self.count:
            raise ModbusMapError('Data write error')
        self.data = b''.join((self.data[:start], data, self.data[end:]))
"""))
variant('regs-add-early', MAP,
        (MM, """        data = struct.pack(str(count * 2) + 's', b'')

        if last_regs is None or offset > last_regs_next:
            mmr = ModbusMapRegs(offset, count, data, access)
            self.regs.append(mmr)
        # append to last register block
        else:
            mmr = last_regs
            last_regs.append(offset, count, data, access)

        return mmr
""", """        data = b'\\0' * (count * 2)

        if last_regs is not None and offset <= last_regs_next:
            # contiguous
            last_regs.append(offset, count, data, access)
            return last_regs

        self.regs.append(ModbusMapRegs(offset, count, data, access))
        return self.regs[-1]
"""))
variant('mapped-with', MAP,
        (MM, """                if pathlist is not None:
                    map_data = pathlist.read(filename)
                else:
                    f = open(filename, 'r')
                    map_data = f.read()
                    f.close()

                root = ET.fromstring(map_data)
""", """                root = ET.fromstring(self._load(filename, pathlist))
"""),
        (MM, "    def regs_add(self, addr=None", """    def _load(self, filename, pathlist):
        if pathlist is not None:
            return pathlist.read(filename)
        f = open(filename, 'r')
        text = f.read()
        f.close()
        return text

    def regs_add(self, addr=None"""))
