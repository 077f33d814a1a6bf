DATA = 'data.*'
variant('data-attr-table', DATA,
        (DA, """        if self.logger_id:
            attr[SDX_DEVICE_LOGGER_ID] = self.logger_id
        if self.namespace:
            attr[SDX_DEVICE_NAMESPACE] = self.namespace
        if self.device_id:
            attr[SDX_DEVICE_ID] = self.device_id
        if self.ifc:
            attr[SDX_DEVICE_IFC] = self.ifc
        if self.man:
            attr[SDX_DEVICE_MAN] = self.man
        if self.mod:
            attr[SDX_DEVICE_MOD] = self.mod
        if self.sn:
            attr[SDX_DEVICE_SN] = self.sn
        if self.timestamp:
            attr[SDX_DEVICE_TIME] = self.timestamp
        if self.cid:
            attr[SDX_DEVICE_CORRELATION_ID] = self.cid
""", """        for key, value in ((SDX_DEVICE_LOGGER_ID, self.logger_id),
                           (SDX_DEVICE_NAMESPACE, self.namespace),
                           (SDX_DEVICE_ID, self.device_id),
                           (SDX_DEVICE_IFC, self.ifc),
                           (SDX_DEVICE_MAN, self.man),
                           (SDX_DEVICE_MOD, self.mod),
                           (SDX_DEVICE_SN, self.sn),
                           (SDX_DEVICE_TIME, self.timestamp),
                           (SDX_DEVICE_CORRELATION_ID, self.cid)):
            if value:
                attr[key] = value
"""))
variant('data-attr-comp', DATA,
        (DA, """        if self.logger_id:
            attr[SDX_DEVICE_LOGGER_ID] = self.logger_id
        if self.namespace:
            attr[SDX_DEVICE_NAMESPACE] = self.namespace
        if self.device_id:
            attr[SDX_DEVICE_ID] = self.device_id
        if self.ifc:
            attr[SDX_DEVICE_IFC] = self.ifc
        if self.man:
            attr[SDX_DEVICE_MAN] = self.man
        if self.mod:
            attr[SDX_DEVICE_MOD] = self.mod
        if self.sn:
            attr[SDX_DEVICE_SN] = self.sn
        if self.timestamp:
            attr[SDX_DEVICE_TIME] = self.timestamp
        if self.cid:
            attr[SDX_DEVICE_CORRELATION_ID] = self.cid
""", """        pairs = [(SDX_DEVICE_LOGGER_ID, 'logger_id'),
                 (SDX_DEVICE_NAMESPACE, 'namespace'),
                 (SDX_DEVICE_ID, 'device_id'),
                 (SDX_DEVICE_IFC, 'ifc'),
                 (SDX_DEVICE_MAN, 'man'),
                 (SDX_DEVICE_MOD, 'mod'),
                 (SDX_DEVICE_SN, 'sn'),
                 (SDX_DEVICE_TIME, 'timestamp'),
                 (SDX_DEVICE_CORRELATION_ID, 'cid')]
        attr = {key: getattr(self, name) for key, name in pairs if getattr(self, name)}
"""))
variant('data-attr-helper', DATA,
        (DA, """        if self.logger_id:
            attr[SDX_DEVICE_LOGGER_ID] = self.logger_id
        if self.namespace:
            attr[SDX_DEVICE_NAMESPACE] = self.namespace
        if self.device_id:
            attr[SDX_DEVICE_ID] = self.device_id
        if self.ifc:
            attr[SDX_DEVICE_IFC] = self.ifc
        if self.man:
            attr[SDX_DEVICE_MAN] = self.man
        if self.mod:
            attr[SDX_DEVICE_MOD] = self.mod
        if self.sn:
            attr[SDX_DEVICE_SN] = self.sn
        if self.timestamp:
            attr[SDX_DEVICE_TIME] = self.timestamp
        if self.cid:
            attr[SDX_DEVICE_CORRELATION_ID] = self.cid
""", """        def put(key, value):
            if value:
                attr[key] = value
        put(SDX_DEVICE_LOGGER_ID, self.logger_id)
        put(SDX_DEVICE_NAMESPACE, self.namespace)
        put(SDX_DEVICE_ID, self.device_id)
        put(SDX_DEVICE_IFC, self.ifc)
        put(SDX_DEVICE_MAN, self.man)
        put(SDX_DEVICE_MOD, self.mod)
        put(SDX_DEVICE_SN, self.sn)
        put(SDX_DEVICE_TIME, self.timestamp)
        put(SDX_DEVICE_CORRELATION_ID, self.cid)
"""))
variant('data-fields-setattr', DATA,
        (DA, """        self.logger_id = element.attrib.get(SDX_DEVICE_LOGGER_ID)
        self.namespace = element.attrib.get(SDX_DEVICE_NAMESPACE)
        self.device_id = element.attrib.get(SDX_DEVICE_ID)
        self.ifc = element.attrib.get(SDX_DEVICE_IFC)
        self.man = element.attrib.get(SDX_DEVICE_MAN)
        self.mod = element.attrib.get(SDX_DEVICE_MOD)
        self.sn = element.attrib.get(SDX_DEVICE_SN)
        self.timestamp = self.time = element.attrib.get(SDX_DEVICE_TIME)
        self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
""", """        get = element.get
        self.logger_id = get(SDX_DEVICE_LOGGER_ID)
        self.namespace = get(SDX_DEVICE_NAMESPACE)
        self.device_id = get(SDX_DEVICE_ID)
        self.ifc = get(SDX_DEVICE_IFC)
        self.man = get(SDX_DEVICE_MAN)
        self.mod = get(SDX_DEVICE_MOD)
        self.sn = get(SDX_DEVICE_SN)
        self.cid = get(SDX_DEVICE_CORRELATION_ID)
        self.time = get(SDX_DEVICE_TIME)
        self.timestamp = self.time
"""))
variant('data-children-helper', DATA,
        (DA, """            for d in self.root.findall('*'):
                if d.tag != SDX_DEVICE:
                    raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(d.tag, self.root.tag))
                dd = DeviceData()
""", """            for d in _children(self.root, SDX_DEVICE):
                dd = DeviceData()
"""),
        (DA, """        for m in element.findall('*'):
            if m.tag != SDX_MODEL:
                raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(m.tag, element.tag))
            md = ModelData()
""", """        for m in _children(element, SDX_MODEL):
            md = ModelData()
"""),
        (DA, """        for p in element.findall('*'):
            if p.tag != SDX_POINT:
                raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
            pd = PointData()
""", """        for p in _children(element, SDX_POINT):
            pd = PointData()
"""),
        (DA, """class SunSpecData(object):
""", """def _children(parent, tag):
    for child in parent.findall('*'):
        if child.tag != tag:
            raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(child.tag, parent.tag))
        yield child

class SunSpecData(object):
"""))
variant('data-int-helper', DATA,
        (DA, """        index = element.attrib.get(SDX_POINT_INDEX)
        if index is not None:
            index = int(index)
        self.index = index
        sf = element.attrib.get(SDX_POINT_SF)
        if sf is not None:
            sf = int(sf)
        self.sf = sf
""", """        self.index = _int_or_none(element, SDX_POINT_INDEX)
        self.sf = _int_or_none(element, SDX_POINT_SF)
"""),
        (DA, """        index = element.attrib.get(SDX_MODEL_INDEX)
        if index is not None:
            index = int(index)
        self.index = index
""", """        self.index = _int_or_none(element, SDX_MODEL_INDEX)
"""),
        (DA, """class SunSpecData(object):
""", """def _int_or_none(element, key):
    text = element.attrib.get(key)
    return None if text is None else int(text)

class SunSpecData(object):
"""))
variant('data-toxml-share', DATA,
        (DA, """        attr = {}

        if self.version:
            attr[SDX_SUNSPEC_DATA_VERSION] = self.version

        self.root = ET.Element(SDX_SUNSPEC_DATA, attrib=attr)
        for d in self.device_data:
            d.to_xml(self.root)

        if pretty_print:
""", """        self.to_xml()

        if pretty_print:
"""))
variant('data-str-decode', DATA,
        (DA, """        if sys.version_info > (3,):
            temp = ""
            for i in out:
                temp += chr(i)
            out = temp

        return out
""", """        return out.decode('latin-1') if sys.version_info > (3,) else out
"""))
variant('data-early-return', DATA,
        (DA, """        if self.root is not None:
            if self.root.tag != SDX_SUNSPEC_DATA:
                raise SunSpecDataError("Unexpected root element: %s" % (self.root.tag))

            self.version = self.root.attrib.get(SDX_SUNSPEC_DATA_VERSION)

            for d in self.root.findall('*'):
                if d.tag != SDX_DEVICE:
                    raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(d.tag, self.root.tag))
                dd = DeviceData()
                dd.from_xml(d)
                self.device_data.append(dd)
""", """        root = self.root
        if root is None:
            return
        if root.tag != SDX_SUNSPEC_DATA:
            raise SunSpecDataError("Unexpected root element: {}".format(root.tag))

        self.version = root.get(SDX_SUNSPEC_DATA_VERSION)

        for child in root.findall('*'):
            if child.tag == SDX_DEVICE:
                record = DeviceData()
                record.from_xml(child)
                self.device_data.append(record)
            else:
                raise SunSpecDataError("Unexpected '%s' element in '%s' element" % (child.tag, root.tag))
"""))
variant('data-point-conditional', DATA,
        (DA, """        attr = {SDX_POINT_ID: str(self.point_id)}

        if self.index:
            attr[SDX_POINT_INDEX] = str(self.index)
        if self.sf is not None:
            attr[SDX_POINT_SF] = str(self.sf)
        if self.time:
            attr[SDX_POINT_TIME] = self.time

        e = ET.SubElement(parent, SDX_POINT, attrib=attr)
        if self.value is not None:
            e.text = str(self.value)
""", """        e = ET.SubElement(parent, SDX_POINT, {SDX_POINT_ID: str(self.point_id)})
        if self.index:
            e.set(SDX_POINT_INDEX, str(self.index))
        if self.sf is not None:
            e.set(SDX_POINT_SF, str(self.sf))
        if self.time:
            e.set(SDX_POINT_TIME, self.time)
        e.text = None if self.value is None else str(self.value)
"""))
variant('data-init-timestamp', DATA,
        (DA, """        self.sn = sn
        self.timestamp = timestamp
        self.cid = cid
        self.model_data = []

        if timestamp is not None:
            self.timestamp_add(timestamp)
""", """        self.sn = sn
        self.cid = cid
        self.model_data = []

        if timestamp is None:
            self.timestamp = None
        else:
            self.timestamp_add(timestamp)
"""))
variant('data-strftime-split', DATA,
        (DA, """        if timestamp is None:
            timestamp = time.time()
        self.timestamp = time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(timestamp))
""", """        when = time.gmtime(time.time() if timestamp is None else timestamp)
        self.timestamp = time.strftime('%Y-%m-%dT%H:%M:%SZ', when)
"""))
UTIL = 'util.*'
variant('util-any', UTIL,
        (UT, """    value = False
    for i in data:
        if i != 0:
            value = True
            break
    if value and len(data) == 16:
""", """    if any(data) and len(data) == 16:
"""),
        (UT, """    value = False
    for i in data:
        if i != 0:
            value = True
            break
    if value and len(data) == 8:
""", """    if len(data) == 8 and any(i != 0 for i in data):
"""))
variant('util-nonzero-helper', UTIL,
        (UT, """    value = False
    for i in data:
        if i != 0:
            value = True
            break
    if value and len(data) == 16:
""", """    if len(data) == 16 and _nonzero(data):
"""),
        (UT, """    value = False
    for i in data:
        if i != 0:
            value = True
            break
    if value and len(data) == 8:
""", """    if len(data) == 8 and _nonzero(data):
"""),
        (UT, """def data_to_ipv6addr(data):""", """def _nonzero(data):
    for octet in data:
        if octet:
            return True
    return False

def data_to_ipv6addr(data):"""))
variant('util-join-format', UTIL,
        (UT, """        return '{:02X}:{:02X}:{:02X}:{:02X}:{:02X}:{:02X}'.format(
            data[2], data[3], data[4], data[5], data[6], data[7])
""", """        return ':'.join('{:02X}'.format(octet) for octet in data[2:8])
"""))
variant('util-join-format6', UTIL,
        (UT, """        return '{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}'.format(
            data[0], data[1], data[2], data[3], data[4], data[5], data[6], data[7],
            data[8], data[9], data[10], data[11], data[12], data[13], data[14], data[15])
""", """        text = ''.join('%02X' % octet for octet in data)
        return ':'.join(text[i:i + 8] for i in range(0, 32, 8))
"""))
variant('util-format-star', UTIL,
        (UT, """        return '{:02X}:{:02X}:{:02X}:{:02X}:{:02X}:{:02X}'.format(
            data[2], data[3], data[4], data[5], data[6], data[7])
""", """        return '{:02X}:{:02X}:{:02X}:{:02X}:{:02X}:{:02X}'.format(*data[2:8])
"""),
        (UT, """        return '{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}'.format(
            data[0], data[1], data[2], data[3], data[4], data[5], data[6], data[7],
            data[8], data[9], data[10], data[11], data[12], data[13], data[14], data[15])
""", """        return '{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}:{:02X}{:02X}{:02X}{:02X}'.format(*data)
"""))
variant('util-unpack-helper', UTIL,
        (UT, """    s16 = struct.unpack('>h', data)
    return s16[0]
""", """    return _unpack('>h', data)
"""),
        (UT, """    u16 = struct.unpack('>H', data)
    return u16[0]
""", """    return _unpack('>H', data)
"""),
        (UT, """    u32 = struct.unpack('>L', data)
    return u32[0]
""", """    value, = struct.unpack('>L', data)
    return value
"""),
        (UT, """    u64 = struct.unpack('>Q', data)
    return u64[0]
""", """    (value,) = struct.unpack('!Q', data)
    return value
"""),
        (UT, """def data_to_s16(data):""", """def _unpack(fmt, data):
    return struct.unpack(fmt, data)[0]

def data_to_s16(data):"""))
variant('util-int-from-bytes', UTIL,
        (UT, """    u32 = struct.unpack('>L', data)
    return u32[0]
""", """    return struct.unpack_from('>L', data, 0)[0] if len(data) == 4 else struct.unpack('>L', data)[0]
"""))
variant('util-nan', UTIL,
        (UT, """    f = struct.unpack('>f', data)
    if str(f[0]) != str(float('nan')):
        return f[0]
""", """    f = struct.unpack('>f', data)[0]
    if f != f:
        return None
    return f
"""),
        (UT, """    d = struct.unpack('>d', data)
    if str(d[0]) != str(float('nan')):
        return d[0]
""", """    d, = struct.unpack('>d', data)
    return d if d == d else None
"""))
variant('util-str-pad', UTIL,
        (UT, """    if slen is None:
        slen = len(s)
        if slen < 16:
            s += b'\\x00'
            slen += 1
    return struct.pack(str(slen) + 's', s)
""", """    if slen is None:
        return s + b'\\x00' if len(s) < 16 else s
    return struct.pack('%ds' % slen, s)
"""))
variant('util-str-encode', UTIL,
        (UT, """    if sys.version_info > (3,):
        s = bytes(s, 'latin-1')
    if slen""", """    if sys.version_info > (3,):
        s = s.encode('latin-1')
    if slen"""),
        (UT, """        data = str(data, 'latin-1')

    if len(data) > 1:
        data = data[0] + data[1:].rstrip('\\0')
    return data
""", """        data = data.decode('latin-1')

    if len(data) <= 1:
        return data
    head, tail = data[:1], data[1:]
    return head + tail.rstrip('\\x00')
"""))
variant('util-str-while', UTIL,
        (UT, """    if len(data) > 1:
        data = data[0] + data[1:].rstrip('\\0')
    return data
""", """    end = len(data)
    while end > 1 and data[end - 1] == '\\0':
        end -= 1
    return data[:end]
"""))
variant('util-unhexlify', UTIL,
        (UT, """    return (b'\\x00\\x00' + base64.b16decode(eui48.replace(':', '')))
""", """    octets = base64.b16decode(''.join(eui48.split(':')))
    return b'\\x00' * 2 + octets
"""))
variant('util-indent-flat', UTIL,
        (UT, """    i = "\\n" + level*"  "
    if len(elem):
        if not elem.text or not elem.text.strip():
            elem.text = i + "  "
        if not elem.tail or not elem.tail.strip():
            elem.tail = i
        for elem in elem:
            indent(elem, level+1)
        if not elem.tail or not elem.tail.strip():
            elem.tail = i
    else:
        if level and (not elem.tail or not elem.tail.strip()):
            elem.tail = i
""", """    def blank(text):
        return not text or not text.strip()

    newline = "\\n" + "  " * level
    if len(elem) == 0:
        if level and blank(elem.tail):
            elem.tail = newline
        return
    if blank(elem.text):
        elem.text = newline + "  "
    if blank(elem.tail):
        elem.tail = newline
    for child in elem:
        indent(child, level + 1)
    if blank(child.tail):
        child.tail = newline
"""))
variant('util-path-helper', UTIL,
        (UT, """            if file_path and file_path != os.sep:
                file_path += sep
            file_path  += filename
            if zip_file_path:
                with zipfile.ZipFile(zip_file_path) as zip_file:
                    try:
                        zip_file.getinfo(file_path)
                    except Exception as e:
                        continue
                    return zip_file.read(file_path)
            else:
                if os.path.exists(file_path):
                    with open(file_path, 'rb') as f:
                        return f.read()
                else:
                    continue
""", """            if file_path and file_path != os.sep:
                file_path += sep
            file_path += filename
            if not zip_file_path:
                if os.path.exists(file_path):
                    with open(file_path, 'rb') as f:
                        return f.read()
                continue
            with zipfile.ZipFile(zip_file_path) as archive:
                try:
                    archive.getinfo(file_path)
                except Exception:
                    continue
                return archive.read(file_path)
"""))
variant('util-path-finally', UTIL,
        (UT, """                if os.path.exists(file_path):
                    with open(file_path, 'rb') as f:
                        return f.read()
                else:
                    continue
""", """                if not os.path.exists(file_path):
                    continue
                f = open(file_path, 'rb')
                try:
                    return f.read()
                finally:
                    f.close()
"""))
variant('util-path-str', UTIL,
        (UT, """        paths = []

        for p in self.path:
            paths.append(p)

        return str(paths)
""", """        return str([p for p in self.path])
"""))
variant('util-path-init', UTIL,
        (UT, """        self.path = []

        if path_list is not None:
            self.path = path_list
""", """        self.path = path_list if path_list is not None else []
"""))
variant('smdx-regex-free', 'smdx.*',
        (SM, """    model_id = None

    if filename[0:5] == 'smdx_' and filename[-4:] == '.xml':
        try:
            model_id = int(filename[5:-4])
        except Exception as e:
            pass

    return model_id""", """    if not (filename.startswith('smdx_') and filename.endswith('.xml')):
        return None
    try:
        return int(filename[5:-4])
    except Exception:
        return None"""))
variant('smdx-format', 'smdx.*',
        (SM, """    return 'smdx_%05d.xml' % (int(model_id))""", """    number = int(model_id)
    return 'smdx_{:05d}.xml'.format(number)"""))
