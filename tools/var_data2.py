"""second round: data documents, octets, search paths, point values"""
DATA2 = 'data.*,ddata.*,mdata.*,pdata.*'
UT2 = 'util.*,util_indent,path.*,type.*,smdx.*'
rewrite('e2-from-xml', DATA2, DA, SunSpecData__from_xml='''
def from_xml(self, element=None, data_record=None):
    if data_record is not None:
        self.root = ET.fromstring(data_record)
    elif element is not None:
        self.root = element
    root = self.root
    if root is None:
        return
    if root.tag != SDX_SUNSPEC_DATA:
        raise SunSpecDataError("Unexpected root element: %s" % (root.tag))
    self.version = root.attrib.get(SDX_SUNSPEC_DATA_VERSION)
    for d in root:
        if d.tag != SDX_DEVICE:
            raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(d.tag, root.tag))
        device = DeviceData()
        device.from_xml(d)
        self.device_data.append(device)
''')
rewrite('e2-to-xml', DATA2, DA, SunSpecData__to_xml='''
def to_xml(self, parent=None):
    attr = self._attr()
    if parent is not None:
        self.root = ET.SubElement(parent, SDX_SUNSPEC_DATA, attrib=attr)
    else:
        self.root = ET.Element(SDX_SUNSPEC_DATA, attrib=attr)
    for d in self.device_data:
        d.to_xml(self.root)

def _attr(self):
    if not self.version:
        return {}
    return {SDX_SUNSPEC_DATA_VERSION: self.version}
''', SunSpecData__to_xml_str='''
def to_xml_str(self, pretty_print=False):
    self.to_xml()
    if pretty_print:
        util.indent(self.root)
    out = ET.tostring(self.root)
    if isinstance(out, bytes):
        out = out.decode('latin-1')
    return out
''')
rewrite('e2-device-attrs', DATA2, DA, DeviceData__from_xml='''
def from_xml(self, element):
    attrib = element.attrib
    for field, name in DEVICE_FIELDS:
        setattr(self, field, attrib.get(name))
    self.time = self.timestamp
    for m in element.findall('*'):
        if m.tag != SDX_MODEL:
            raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(m.tag, element.tag))
        md = ModelData()
        md.from_xml(m)
        self.model_data.append(md)
''', DeviceData__to_xml='''
def to_xml(self, parent):
    attr = {}
    for field, name in DEVICE_FIELDS:
        value = getattr(self, field)
        if value:
            attr[name] = value
    e = ET.SubElement(parent, SDX_DEVICE, attr)
    for m in self.model_data:
        m.to_xml(e)
''', _top='''
DEVICE_FIELDS = (
    ('logger_id', SDX_DEVICE_LOGGER_ID),
    ('namespace', SDX_DEVICE_NAMESPACE),
    ('device_id', SDX_DEVICE_ID),
    ('ifc', SDX_DEVICE_IFC),
    ('man', SDX_DEVICE_MAN),
    ('mod', SDX_DEVICE_MOD),
    ('sn', SDX_DEVICE_SN),
    ('timestamp', SDX_DEVICE_TIME),
    ('cid', SDX_DEVICE_CORRELATION_ID),
)
''')
rewrite('e2-device-comp', DATA2, DA, DeviceData__to_xml='''
def to_xml(self, parent):
    pairs = [
        (SDX_DEVICE_LOGGER_ID, self.logger_id),
        (SDX_DEVICE_NAMESPACE, self.namespace),
        (SDX_DEVICE_ID, self.device_id),
        (SDX_DEVICE_IFC, self.ifc),
        (SDX_DEVICE_MAN, self.man),
        (SDX_DEVICE_MOD, self.mod),
        (SDX_DEVICE_SN, self.sn),
        (SDX_DEVICE_TIME, self.timestamp),
        (SDX_DEVICE_CORRELATION_ID, self.cid),
    ]
    e = ET.SubElement(parent, SDX_DEVICE, attrib={name: value for name, value in pairs if value})
    for m in self.model_data:
        m.to_xml(e)
''')
rewrite('e2-timestamp', DATA2, DA, DeviceData__timestamp_add='''
def timestamp_add(self, timestamp=None):
    moment = time.gmtime(time.time() if timestamp is None else timestamp)
    self.timestamp = time.strftime('%Y-%m-%dT%H:%M:%SZ', moment)
''')
rewrite('BUG-e2-timestamp', DATA2, DA, DeviceData__timestamp_add='''
def timestamp_add(self, timestamp=None):
    moment = time.localtime(timestamp or time.time())
    self.timestamp = time.strftime('%Y-%m-%dT%H:%M:%SZ', moment)
''')
rewrite('e2-model', DATA2, DA, ModelData__from_xml='''
def from_xml(self, element):
    attrib = element.attrib
    self.model_id = attrib.get(SDX_MODEL_ID)
    self.namespace = attrib.get(SDX_MODEL_NAMESPACE)
    self.index = _number(attrib.get(SDX_MODEL_INDEX))
    for p in element.findall('*'):
        if p.tag != SDX_POINT:
            raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
        self._point(p)

def _point(self, p):
    pd = PointData()
    pd.from_xml(p)
    self.point_data.append(pd)
''', ModelData__to_xml='''
def to_xml(self, parent):
    attr = {SDX_MODEL_ID: str(self.model_id)}
    if self.namespace:
        attr[SDX_MODEL_NAMESPACE] = self.namespace
    index = self.index
    if not (index is None or index <= 1):
        attr[SDX_MODEL_INDEX] = str(index)
    e = ET.SubElement(parent, SDX_MODEL, attrib=attr)
    for p in self.point_data:
        p.to_xml(e)
''', PointData__from_xml='''
def from_xml(self, element):
    attrib = element.attrib
    self.point_id = attrib.get(SDX_POINT_ID)
    self.index = _number(attrib.get(SDX_POINT_INDEX))
    self.sf = _number(attrib.get(SDX_POINT_SF))
    self.time = attrib.get(SDX_POINT_TIME)
    self.value = element.text
''', _top='''
def _number(text):
    return None if text is None else int(text)
''')
rewrite('e2-point', DATA2, DA, PointData__to_xml='''
def to_xml(self, parent):
    e = ET.SubElement(parent, SDX_POINT)
    e.set(SDX_POINT_ID, str(self.point_id))
    if self.index:
        e.set(SDX_POINT_INDEX, str(self.index))
    if self.sf is not None:
        e.set(SDX_POINT_SF, str(self.sf))
    if self.time:
        e.set(SDX_POINT_TIME, self.time)
    if self.value is not None:
        e.text = str(self.value)
''')
rewrite('e2-adders', DATA2, DA, SunSpecData__device_add='''
def device_add(self, logger_id=None, man=None, mod=None, sn=None, timestamp=None, cid=None, device_id=None, ifc=None, namespace=None):
    added = DeviceData(logger_id=logger_id, man=man, mod=mod, sn=sn, timestamp=timestamp, cid=cid, device_id=device_id, ifc=ifc,
                       namespace=namespace)
    self.device_data.append(added)
    return added
''', DeviceData__model_add='''
def model_add(self, model_id=None, index=None, namespace=None):
    self.model_data.append(ModelData(model_id, index=index, namespace=namespace))
    return self.model_data[-1]
''', ModelData__point_add='''
def point_add(self, point_id=None, value=None, index=None, sf=None, units=None, desc=None, time=None):
    self.point_data += [PointData(point_id, value, index, sf, units, desc, time)]
    return self.point_data[-1]
''')
rewrite('e2-octets', UT2, UT, data_to_s16='''
def data_to_s16(data):
    (value,) = struct.unpack('>h', data)
    return value
''', data_to_u32='''
def data_to_u32(data):
    return int.from_bytes(data, 'big') if len(data) == 4 else struct.unpack('>L', data)[0]
''', data_to_u16='''
def data_to_u16(data):
    return struct.unpack('!H', data)[0]
''', data_to_ipv6addr='''
def data_to_ipv6addr(data):
    octets = bytearray(data)
    if len(octets) != 16 or not any(octets):
        return None
    words = ['{:02X}{:02X}{:02X}{:02X}'.format(*octets[i:i + 4]) for i in (0, 4, 8, 12)]
    return ':'.join(words)
''', data_to_eui48='''
def data_to_eui48(data):
    if len(data) != 8 or not any(data):
        return None
    return ':'.join('%02X' % octet for octet in data[2:])
''', data_to_float='''
def data_to_float(data):
    value = struct.unpack('>f', data)[0]
    return None if value != value else value
''', data_to_double='''
def data_to_double(data):
    value, = struct.unpack('>d', data)
    if value == value:
        return value
''', data_to_str='''
def data_to_str(data):
    text = data.decode('latin-1')
    if len(text) <= 1:
        return text
    return text[:1] + text[1:].rstrip('\\0')
''', s32_to_data='''
def s32_to_data(s32, len=None):
    return struct.pack('!i', s32)
''', float_to_data32='''
def float_to_data32(f, len=None):
    return float32_to_data(f)
''')
rewrite('e2-str-to-data', UT2, UT, str_to_data='''
def str_to_data(s, slen=None):
    octets = s.encode('latin-1')
    if slen is None:
        slen = len(octets)
        if slen < 16:
            slen += 1
    return octets[:slen].ljust(slen, b'\\0')
''', ipv6addr_to_data='''
def ipv6addr_to_data(addr, slen=None):
    octets = base64.b16decode(addr.replace(':', ''))
    if slen is None:
        return octets
    return struct.pack('%ds' % slen, octets)
''', eui48_to_data='''
def eui48_to_data(eui48, len=None):
    octets = base64.b16decode(''.join(eui48.split(':')))
    return b'\\x00' * 2 + octets
''')
rewrite('e2-indent', UT2, UT, indent='''
def indent(elem, level=0):
    pad = "\\n" + "  " * level
    children = list(elem)
    if not children:
        if level and _blank(elem.tail):
            elem.tail = pad
        return
    if _blank(elem.text):
        elem.text = pad + "  "
    if _blank(elem.tail):
        elem.tail = pad
    for child in children:
        indent(child, level + 1)
    if _blank(child.tail):
        child.tail = pad

def _blank(text):
    return not text or not text.strip()
''')
rewrite('e2-path-read', UT2, UT, PathList__read='''
def read(self, filename):
    for p in self.path:
        found, content = self._read_from(p, filename)
        if found:
            return content
    raise NameError(filename)

def _read_from(self, p, filename):
    file_path = ''
    zip_file_path = ''
    sep = os.sep
    for e in p.split(os.sep):
        if e == '' or (file_path and file_path != sep):
            file_path += sep
        file_path += e
        if not e.endswith('.zip'):
            continue
        if not os.path.exists(file_path):
            zip_file_path = ''
            break
        zip_file_path, file_path, sep = file_path, '', '/'
    if file_path and file_path != os.sep:
        file_path += sep
    file_path += filename
    if zip_file_path:
        with zipfile.ZipFile(zip_file_path) as archive:
            try:
                archive.getinfo(file_path)
            except Exception:
                return False, None
            return True, archive.read(file_path)
    if not os.path.exists(file_path):
        return False, None
    with open(file_path, 'rb') as f:
        return True, f.read()
''')
rewrite('e2-filename', UT2, SM, model_id_to_filename='''
def model_id_to_filename(model_id):
    return 'smdx_{:05d}.xml'.format(int(model_id))
''', model_filename_to_id='''
def model_filename_to_id(filename):
    if not (filename.startswith('smdx_') and filename.endswith('.xml')):
        return None
    try:
        return int(filename[5:-4])
    except Exception:
        return None
''')
