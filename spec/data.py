"""Reference model: logged data documents (never executed, only analysed)."""
import time
import xml.etree.ElementTree as ET

import sunspec.core.data as data
import sunspec.core.util as util


def record_init(self, element=None, data_record=None):
    self.root = None
    self.version = None
    self.device_data = []
    self.from_xml(element, data_record)


def device_add(self, logger_id=None, man=None, mod=None, sn=None, timestamp=None, cid=None, device_id=None, ifc=None, namespace=None):
    d = data.DeviceData(logger_id, man, mod, sn, timestamp, cid, device_id, ifc, namespace)
    self.device_data.append(d)
    return d


def record_from_xml(self, element=None, data_record=None):
    if data_record is not None:
        self.root = ET.fromstring(data_record)
    elif element is not None:
        self.root = element
    if self.root is None:
        return
    if self.root.tag != 'sunSpecData':
        raise data.SunSpecDataError('')
    self.version = self.root.attrib.get('v')
    for e in self.root.findall('*'):
        if e.tag != 'd':
            raise data.SunSpecDataError('')
        d = data.DeviceData()
        d.from_xml(e)
        self.device_data.append(d)


def record_attributes(self):
    attributes = {}
    if self.version:
        attributes['v'] = self.version
    return attributes


def record_to_xml(self, parent=None):
    attributes = record_attributes(self)
    self.root = ET.Element('sunSpecData', attrib=attributes) if parent is None else ET.SubElement(parent, 'sunSpecData', attrib=attributes)
    for d in self.device_data:
        d.to_xml(self.root)


def record_to_xml_str(self, pretty_print=False):
    self.root = ET.Element('sunSpecData', attrib=record_attributes(self))
    for d in self.device_data:
        d.to_xml(self.root)
    if pretty_print:
        util.indent(self.root)
    text = ''
    for c in ET.tostring(self.root):
        text += chr(c)
    return text


def model_add(self, model_id=None, index=None, namespace=None):
    m = data.ModelData(model_id, index, namespace)
    self.model_data.append(m)
    return m


def stamp(self, timestamp=None):
    self.timestamp = time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(time.time() if timestamp is None else timestamp))


def device_init(self, logger_id=None, man=None, mod=None, sn=None, timestamp=None, cid=None, device_id=None, ifc=None, namespace=None):
    self.logger_id = logger_id
    self.man = man
    self.mod = mod
    self.sn = sn
    self.cid = cid
    self.device_id = device_id
    self.ifc = ifc
    self.namespace = namespace
    self.model_data = []
    self.timestamp = None if timestamp is None else time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(timestamp))


def device_from_xml(self, element):
    a = element.attrib
    self.logger_id = a.get('lid')
    self.namespace = a.get('ns')
    self.device_id = a.get('id')
    self.ifc = a.get('if')
    self.man = a.get('man')
    self.mod = a.get('mod')
    self.sn = a.get('sn')
    self.timestamp = a.get('t')
    self.time = a.get('t')
    self.cid = a.get('cid')
    for e in element.findall('*'):
        if e.tag != 'm':
            raise data.SunSpecDataError('')
        m = data.ModelData()
        m.from_xml(e)
        self.model_data.append(m)


def device_to_xml(self, parent):
    a = {}
    if self.logger_id:
        a['lid'] = self.logger_id
    if self.namespace:
        a['ns'] = self.namespace
    if self.device_id:
        a['id'] = self.device_id
    if self.ifc:
        a['if'] = self.ifc
    if self.man:
        a['man'] = self.man
    if self.mod:
        a['mod'] = self.mod
    if self.sn:
        a['sn'] = self.sn
    if self.timestamp:
        a['t'] = self.timestamp
    if self.cid:
        a['cid'] = self.cid
    e = ET.SubElement(parent, 'd', attrib=a)
    for m in self.model_data:
        m.to_xml(e)


def model_init(self, model_id=None, index=None, namespace=None):
    self.model_id = str(model_id)
    self.index = index
    self.namespace = namespace
    self.point_data = []


def point_add(self, point_id=None, value=None, index=None, sf=None, units=None, desc=None, time=None):
    p = data.PointData(point_id, value, index, sf, units, desc, time)
    self.point_data.append(p)
    return p


def number(text):
    return None if text is None else int(text)


def model_from_xml(self, element):
    self.model_id = element.attrib.get('id')
    self.namespace = element.attrib.get('ns')
    self.index = number(element.attrib.get('x'))
    for e in element.findall('*'):
        if e.tag != 'p':
            raise data.SunSpecDataError('')
        p = data.PointData()
        p.from_xml(e)
        self.point_data.append(p)


def model_to_xml(self, parent):
    a = {'id': str(self.model_id)}
    if self.index is not None and self.index > 1:
        a['x'] = str(self.index)
    if self.namespace:
        a['ns'] = self.namespace
    e = ET.SubElement(parent, 'm', attrib=a)
    for p in self.point_data:
        p.to_xml(e)


def point_init(self, point_id=None, value=None, index=None, sf=None, units=None, desc=None, time=None):
    self.point_id = point_id
    self.value = value
    self.index = index
    self.sf = sf
    self.units = units
    self.desc = desc
    self.time = time


def point_from_xml(self, element):
    self.point_id = element.attrib.get('id')
    self.index = number(element.attrib.get('index'))
    self.sf = number(element.attrib.get('sf'))
    self.time = element.attrib.get('t')
    self.value = element.text


def point_to_xml(self, parent):
    a = {'id': str(self.point_id)}
    if self.index:
        a['index'] = str(self.index)
    if self.sf is not None:
        a['sf'] = str(self.sf)
    if self.time:
        a['t'] = self.time
    e = ET.SubElement(parent, 'p', attrib=a)
    if self.value is not None:
        e.text = str(self.value)
