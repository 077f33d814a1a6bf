"""third round: data documents with mixins, tables and generators"""
DATA3 = 'data.*,ddata.*,mdata.*,pdata.*'
UT3 = 'util.*,util_indent,path.*,type.*,smdx.*'
rewrite('o3-children', DATA3, DA, _top='''
def _optional_int(text):
    return None if text is None else int(text)


def _children(element, tag, cls):
    """elements below element, read; all of them must be tag"""
    for e in element.findall('*'):
        if e.tag != tag:
            raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(e.tag, element.tag))
        item = cls()
        item.from_xml(e)
        yield item
''', SunSpecData__from_xml='''
def from_xml(self, element=None, data_record=None):
    if data_record is not None:
        self.root = ET.fromstring(data_record)
    elif element is not None:
        self.root = element
    if self.root is None:
        return
    if self.root.tag != SDX_SUNSPEC_DATA:
        raise SunSpecDataError("Unexpected root element: %s" % (self.root.tag))
    self.version = self.root.attrib.get(SDX_SUNSPEC_DATA_VERSION)
    for device in _children(self.root, SDX_DEVICE, DeviceData):
        self.device_data.append(device)
''', DeviceData__from_xml='''
def from_xml(self, element):
    get = element.attrib.get
    self.logger_id = get(SDX_DEVICE_LOGGER_ID)
    self.namespace = get(SDX_DEVICE_NAMESPACE)
    self.device_id = get(SDX_DEVICE_ID)
    self.ifc = get(SDX_DEVICE_IFC)
    self.man, self.mod, self.sn = (get(k) for k in (SDX_DEVICE_MAN, SDX_DEVICE_MOD, SDX_DEVICE_SN))
    self.timestamp = self.time = get(SDX_DEVICE_TIME)
    self.cid = get(SDX_DEVICE_CORRELATION_ID)
    for model in _children(element, SDX_MODEL, ModelData):
        self.model_data.append(model)
''', ModelData__from_xml='''
def from_xml(self, element):
    self.model_id = element.attrib.get(SDX_MODEL_ID)
    self.namespace = element.attrib.get(SDX_MODEL_NAMESPACE)
    self.index = _optional_int(element.attrib.get(SDX_MODEL_INDEX))
    for point in _children(element, SDX_POINT, PointData):
        self.point_data.append(point)
''', PointData__from_xml='''
def from_xml(self, element):
    attrib = element.attrib
    self.point_id = attrib.get(SDX_POINT_ID)
    self.index = _optional_int(attrib.get(SDX_POINT_INDEX))
    self.sf = _optional_int(attrib.get(SDX_POINT_SF))
    self.time = attrib.get(SDX_POINT_TIME)
    self.value = element.text
''')
rewrite('BUG-o3-children', DATA3, DA, ModelData__from_xml='''
def from_xml(self, element):
    self.model_id = element.attrib.get(SDX_MODEL_ID)
    self.namespace = element.attrib.get(SDX_MODEL_NAMESPACE)
    index = element.attrib.get(SDX_MODEL_INDEX)
    self.index = int(index) if index else None
    found = (PointData() for p in element.findall('*') if p.tag == SDX_POINT)
    for p in element.findall('*'):
        pd = next(found)
        pd.from_xml(p)
        self.point_data.append(pd)
''')
rewrite('o3-extend', DATA3, DA, DeviceData__from_xml='''
_ATTRIBS = (('logger_id', SDX_DEVICE_LOGGER_ID), ('namespace', SDX_DEVICE_NAMESPACE), ('device_id', SDX_DEVICE_ID),
            ('ifc', SDX_DEVICE_IFC), ('man', SDX_DEVICE_MAN), ('mod', SDX_DEVICE_MOD), ('sn', SDX_DEVICE_SN),
            ('timestamp', SDX_DEVICE_TIME), ('cid', SDX_DEVICE_CORRELATION_ID))

def from_xml(self, element):
    for name, key in self._ATTRIBS:
        setattr(self, name, element.attrib.get(key))
    self.time = self.timestamp
    for m in element.findall('*'):
        self.model_data.append(ModelData.parse(m, element.tag))
''', DeviceData__to_xml='''
def to_xml(self, parent):
    present = ((key, getattr(self, name)) for name, key in self._ATTRIBS)
    e = ET.SubElement(parent, SDX_DEVICE, {key: value for key, value in present if value})
    for m in self.model_data:
        m.to_xml(e)
''', ModelData__from_xml='''
@classmethod
def parse(cls, element, parent_tag):
    if element.tag != SDX_MODEL:
        raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(element.tag, parent_tag))
    model = cls()
    model.from_xml(element)
    return model

def from_xml(self, element):
    self.model_id = element.attrib.get(SDX_MODEL_ID)
    self.namespace = element.attrib.get(SDX_MODEL_NAMESPACE)
    index = element.attrib.get(SDX_MODEL_INDEX)
    self.index = index if index is None else int(index)
    for p in element.findall('*'):
        if p.tag != SDX_POINT:
            raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
        self.point_data.append(PointData())
        self.point_data[-1].from_xml(p)
''')
rewrite('o3-to-xml', DATA3, DA, _top='''
def _attribs(*pairs):
    return dict((k, v) for k, v in pairs if v)
''', SunSpecData__to_xml='''
def to_xml(self, parent=None):
    self._build(parent)

def _build(self, parent=None):
    attrib = _attribs((SDX_SUNSPEC_DATA_VERSION, self.version))
    if parent is None:
        self.root = ET.Element(SDX_SUNSPEC_DATA, attrib)
    else:
        self.root = ET.SubElement(parent, SDX_SUNSPEC_DATA, attrib)
    for d in self.device_data:
        d.to_xml(self.root)
    return self.root
''', SunSpecData__to_xml_str='''
def to_xml_str(self, pretty_print=False):
    root = self._build()
    if pretty_print:
        util.indent(root)
    return ''.join(chr(c) for c in ET.tostring(root))
''', ModelData__to_xml='''
def to_xml(self, parent):
    attr = {SDX_MODEL_ID: str(self.model_id)}
    if (self.index or 0) > 1:
        attr[SDX_MODEL_INDEX] = str(self.index)
    attr.update(_attribs((SDX_MODEL_NAMESPACE, self.namespace)))
    e = ET.SubElement(parent, SDX_MODEL, attr)
    for p in self.point_data:
        p.to_xml(e)
''', PointData__to_xml='''
def to_xml(self, parent):
    attr = {SDX_POINT_ID: str(self.point_id)}
    if self.index:
        attr[SDX_POINT_INDEX] = f'{self.index}'
    if self.sf is not None:
        attr[SDX_POINT_SF] = f'{self.sf}'
    if self.time:
        attr[SDX_POINT_TIME] = self.time
    e = ET.SubElement(parent, SDX_POINT, attr)
    e.text = None if self.value is None else str(self.value)
''')
rewrite('o3-to-str-decode', DATA3, DA, SunSpecData__to_xml_str='''
def to_xml_str(self, pretty_print=False):
    self.root = ET.Element(SDX_SUNSPEC_DATA)
    if self.version:
        self.root.set(SDX_SUNSPEC_DATA_VERSION, self.version)
    for d in self.device_data:
        d.to_xml(self.root)
    if pretty_print:
        util.indent(self.root)
    return ET.tostring(self.root).decode('latin-1')
''')
rewrite('o3-init', DATA3, DA, DeviceData____init__='''
def __init__(self, logger_id=None, man=None, mod=None, sn=None, timestamp=None, cid=None, device_id=None, ifc=None, namespace=None):
    given = dict(logger_id=logger_id, namespace=namespace, device_id=device_id, ifc=ifc, man=man, mod=mod, sn=sn, cid=cid)
    for name, value in given.items():
        setattr(self, name, value)
    self.model_data = []
    self.timestamp = None
    if timestamp is not None:
        self.timestamp_add(timestamp)
''', DeviceData__timestamp_add='''
def timestamp_add(self, timestamp=None):
    when = time.gmtime(time.time() if timestamp is None else timestamp)
    self.timestamp = time.strftime('%Y-%m-%dT%H:%M:%SZ', when)
''')
rewrite('o3-init-update', DATA3, DA, PointData____init__='''
def __init__(self, point_id=None, value=None, index=None, sf=None, units=None, desc=None, time=None):
    self.__dict__.update(point_id=point_id, value=value, index=index, sf=sf, units=units, desc=desc, time=time)
''', ModelData____init__='''
def __init__(self, model_id=None, index=None, namespace=None):
    (self.model_id, self.index, self.namespace, self.point_data) = (str(model_id), index, namespace, [])
''')
rewrite('o3-codecs', UT3, UT, _top='''
def _unpacker(fmt):
    def unpack(data):
        return struct.unpack(fmt, data)[0]
    return unpack


def _packer(fmt):
    return lambda value, len=None: struct.pack(fmt, value)
''', data_to_float='''
def _number(fmt, data):
    value, = struct.unpack(fmt, data)
    return None if str(value) == str(float('nan')) else value

def data_to_float(data):
    return _number('>f', data)
''', data_to_double='''
def data_to_double(data):
    return _number('>d', data)
''', data_to_ipv6addr='''
def _is_set(data):
    return any(b != 0 for b in data)

def data_to_ipv6addr(data):
    if len(data) != 16 or not _is_set(data):
        return None
    return ':'.join(''.join('%02X' % b for b in data[i:i + 4]) for i in range(0, 16, 4))
''', data_to_eui48='''
def data_to_eui48(data):
    if len(data) == 8 and _is_set(data):
        return ':'.join('{:02X}'.format(b) for b in data[2:])
''', data_to_str='''
def data_to_str(data):
    text = data.decode('latin-1')
    return text if len(text) <= 1 else text[0] + text[1:].rstrip('\\0')
''', str_to_data='''
def str_to_data(s, slen=None):
    data = s.encode('latin-1')
    if slen is None:
        if len(data) < 16:
            return data + b'\\x00'
        return data
    return struct.pack('%ds' % slen, data)
''', eui48_to_data='''
def _octets(text):
    return base64.b16decode(text.replace(':', ''))

def eui48_to_data(eui48, len=None):
    return b'\\0\\0' + _octets(eui48)
''', ipv6addr_to_data='''
def ipv6addr_to_data(addr, slen=None):
    s = _octets(addr)
    return struct.pack('%ds' % (len(s) if slen is None else slen), s)
''')
rewrite('o3-codecs-closure', UT3, UT, _top='''
def _unpacker(fmt):
    def unpack(data):
        return struct.unpack(fmt, data)[0]
    return unpack


def _packer(fmt):
    return lambda value, len=None: struct.pack(fmt, value)
''', data_to_s16='''
data_to_s16 = _unpacker('>h')
''', data_to_u16='''
data_to_u16 = _unpacker('>H')
''', data_to_s32='''
data_to_s32 = _unpacker('>l')
''', u32_to_data='''
u32_to_data = _packer('>L')
''')
rewrite('o3-indent', UT3, UT, indent='''
def _blank(text):
    return not (text and text.strip())

def indent(elem, level=0):
    i = '\\n' + '  ' * level
    children = list(elem)
    if not children:
        if level and _blank(elem.tail):
            elem.tail = i
        return
    if _blank(elem.text):
        elem.text = i + '  '
    if _blank(elem.tail):
        elem.tail = i
    for child in children:
        indent(child, level + 1)
    last = children[-1]
    if _blank(last.tail):
        last.tail = i
''')
rewrite('o3-path', UT3, UT, PathList__read='''
def read(self, filename):
    for p in self.path:
        data = self._read_from(p, filename)
        if data is not None:
            return data
    raise NameError(filename)

def _locate(self, p):
    """(zip file, path in it or in the file system)"""
    path = ''
    zip_path = ''
    sep = os.sep
    for e in p.split(os.sep):
        if e == '' or (path and path != sep):
            path += sep
        path += e
        if e.endswith('.zip'):
            if not os.path.exists(path):
                return '', path, sep
            zip_path, path, sep = path, '', '/'
    return zip_path, path, sep

def _read_from(self, p, filename):
    zip_path, path, sep = self._locate(p)
    if path and path != os.sep:
        path += sep
    path += filename
    if zip_path:
        with zipfile.ZipFile(zip_path) as z:
            try:
                z.getinfo(path)
            except Exception:
                return None
            return z.read(path)
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()
''')
rewrite('o3-path-gen', UT3, UT, PathList__read='''
def read(self, filename):
    for zip_path, path in self._candidates(filename):
        if zip_path:
            with zipfile.ZipFile(zip_path) as archive:
                try:
                    archive.getinfo(path)
                except Exception:
                    continue
                return archive.read(path)
        elif os.path.exists(path):
            with open(path, 'rb') as f:
                return f.read()
    raise NameError(filename)

def _candidates(self, filename):
    for p in self.path:
        file_path, zip_file_path, sep = '', '', os.sep
        for e in p.split(os.sep):
            if e == '':
                file_path += sep
            elif file_path and file_path != sep:
                file_path += sep
            file_path += e
            if e.endswith('.zip'):
                zip_file_path = file_path
                if not os.path.exists(zip_file_path):
                    zip_file_path = ''
                    break
                file_path, sep = '', '/'
        if file_path and file_path != os.sep:
            file_path += sep
        yield zip_file_path, file_path + filename
''')
