"""Reference model: devices, models, blocks and points (never executed)."""
import math
import os
import xml.etree.ElementTree as ET

import sunspec.core.device as device
import sunspec.core.suns as suns
import sunspec.core.util as util

MAX_READ = 125
ACCESS_RW = 'rw'
FIXED = 'fixed'
REPEATING = 'repeating'


# ------------------------------------------------------------- construction
def device_init(self, addr=40000):
    self.base_addr = addr
    self.models_list = []
    self.models = {}


def add_model(self, model):
    self.models_list.append(model)
    if model.id in self.models:
        self.models[model.id].append(model)
    else:
        self.models[model.id] = [model]


def block_init(self, model, addr, blen, block_type, index=1):
    self.points_sf = {}
    self.points = {}
    self.points_list = []
    self.model = model
    self.addr = addr
    self.len = blen
    self.index = index
    self.block_type = block_type
    self.type = block_type.type


def point_init(self, block=None, point_type=None, addr=None, sf_point=None, value=None):
    self.dirty = False
    self.impl = True
    self.value_base = value
    self.value_sf = None
    self.block = block
    self.point_type = point_type
    self.addr = addr
    self.sf_point = sf_point


def scale_factor_init(self, value=None):
    self.value_base = value


def model_init(self, device=None, mid=None, addr=0, mlen=0, index=1):
    self.id = int(mid)
    self.len = int(mlen)
    self.device = device
    self.addr = addr
    self.index = index
    self.model_type = None
    self.load_error = None
    self.blocks = []
    self.points_list = []
    self.points = {}
    self.points_sf = {}
    self.read_blocks = []


# ------------------------------------------------------------------- values
def value_get(self):
    if not self.value_sf or self.value_base is None:
        return self.value_base
    return self.value_base * math.pow(10, self.value_sf)


def value_set(self, v):
    if self.value_sf:
        raw = int(round(float(v) / math.pow(10, self.value_sf)))
    else:
        raw = self.point_type.to_value(v)
    self.value_base = raw
    self.dirty = True


# ------------------------------------------------------------------- layout
def model_load(self, block_class=device.Block, point_class=device.Point):
    self.read_blocks.append(self.addr)
    start = self.addr
    definition = device.model_type_get(self.id)
    self.model_type = definition
    if definition is None:
        raise device.SunSpecError('')
    if self.len == 0:
        self.len = definition.len
    top = self.addr + self.len
    kind = definition.fixed_block
    at = self.addr
    size = int(kind.len)
    if self.id == 1 and self.len == 65:
        size = self.len
    n = 0
    while True:
        if at + size > top:
            raise device.SunSpecError('')
        block = block_class(self, at, size, kind, n)
        self.blocks.append(block)
        for pt in kind.points_list:
            if pt.type == 'pad':
                continue
            where = int(at) + int(pt.offset)
            point = point_class(block=block, point_type=pt, addr=str(where))
            if where + point.point_type.len - start > MAX_READ:
                start = where
                self.read_blocks.append(start)
            if pt.type == 'sunssf':
                block.points_sf[pt.id] = point
            else:
                block.points[pt.id] = point
                block.points_list.append(point)
        for point in block.points_list:
            name = point.point_type.sf
            if name is None or point.sf_point is not None:
                continue
            try:
                point.sf_point = device.ScaleFactor(int(name))
            except Exception:
                pass
            if point.sf_point is None:
                point.sf_point = block.points_sf.get(name)
            if point.sf_point is None and n > 0:
                point.sf_point = self.blocks[0].points_sf.get(name)
            if point.sf_point is None:
                raise device.SunSpecError('')
        end = at + size
        at = end
        kind = definition.repeating_block
        if kind is None:
            break
        size = int(kind.len)
        n += 1
        if end == top:
            break
        if size <= 0:
            raise device.SunSpecError('')
    try:
        first = self.blocks[0]
        self.points_list = first.points_list
        self.points = first.points
        self.points_sf = first.points_sf
    except IndexError:
        pass


# --------------------------------------------------------------------- PICS
def point_from_pics(self, element):
    if element.attrib.get('impl') == 'false':
        self.impl = False
        self.value_base = None
        return
    if element.text:
        v = self.point_type.to_value(element.text)
        self.impl = self.point_type.is_impl(v)
        if self.impl and v is not None:
            self.value_base = v
    if not self.impl:
        self.value_base = None


def point_to_pics(self, parent):
    attr = {'id': str(self.point_type.id)}
    if self.value is None:
        attr['impl'] = 'false'
    elif self.point_type.access != 'r':
        attr['access'] = 'rw'
    e = ET.SubElement(parent, 'point', attrib=attr)
    if self.value_base is not None:
        e.text = str(self.value_base).rstrip('\0')


def block_from_pics(self, element):
    for p in element.findall('*'):
        if p.tag != 'point':
            raise device.SunSpecError('')
        pid = p.attrib.get('id')
        point = self.points.get(pid)
        if point is None:
            point = self.points_sf.get(pid)
        if point is not None:
            point.from_pics(p)
    for point in self.points_list:
        if point.sf_point is not None:
            point.value_sf = point.sf_point.value_base


def block_to_pics(self, parent):
    attr = {}
    if self.index > 1:
        attr['index'] = str(self.index)
    if self.block_type.type == REPEATING:
        attr['type'] = 'repeating'
    e = ET.SubElement(parent, 'block', attrib=attr)
    for pt in self.block_type.points_list:
        point = self.points.get(pt.id)
        if point is None:
            point = self.points_sf.get(pt.id)
        if point is not None:
            point.to_pics(e)


def model_from_pics(self, element):
    self.index = element.attrib.get('index', self.index)
    for b in element.findall('*'):
        if b.tag != 'block':
            raise device.SunSpecError('')
        kind = b.attrib.get('type', 'fixed')
        if kind == 'fixed':
            if len(self.blocks) > 0:
                self.blocks[0].from_pics(b)
        elif kind == 'repeating':
            n = b.attrib.get('index')
            if n is None:
                if len(self.blocks) > 1:
                    for block in self.blocks[1:]:
                        block.from_pics(b)
            else:
                n = int(n)
                if n <= 0 or n >= len(self.blocks):
                    raise device.SunSpecError('')
                self.blocks[n].from_pics(b)
        else:
            raise device.SunSpecError('')


def model_to_pics(self, parent, single_repeating=True):
    attr = {'id': str(self.id), 'len': str(self.len)}
    if self.index != 1:
        attr['index'] = str(self.index)
    e = ET.SubElement(parent, 'model', attrib=attr)
    for block in self.blocks:
        if block.index <= 1 or not single_repeating:
            block.to_pics(e)


def device_to_pics(self, parent, single_repeating=True):
    e = ET.SubElement(parent, 'device', attrib={'v': '1'})
    for model in self.models_list:
        model.to_pics(e, single_repeating=single_repeating)


def device_from_pics(self, element=None, filename=None, pathlist=None):
    try:
        d = element
        if d is None:
            text = ''
            if pathlist is not None:
                try:
                    text = pathlist.read(filename)
                except NameError:
                    pass
            if not text and device.file_pathlist is not None:
                try:
                    text = device.file_pathlist.read(filename)
                except NameError:
                    pass
            if not text:
                f = open(filename, 'r')
                text = f.read()
                f.close()
            root = ET.fromstring(text)
            if root.tag != 'sunSpecPics':
                raise device.SunSpecError('')
            d = root.find('device')
            if d is None:
                raise device.SunSpecError('')
        if d.tag != 'device':
            raise device.SunSpecError('')
        self.base_addr = int(d.attrib.get('addr', 40000))
        at = self.base_addr + 2
        for m in d.findall('*'):
            if m is None or m.tag != 'model':
                raise device.SunSpecError('')
            mid = m.attrib.get('id')
            if mid is None:
                raise device.SunSpecError('')
            model = device.Model(self, mid, at + 2, int(m.attrib.get('len', 0)))
            try:
                model.load()
            except Exception as e:
                model.load_error = str(e)
            model.from_pics(m)
            self.add_model(model)
            at += model.len + 2
    except Exception as e:
        raise device.SunSpecError('%s' % str(e))


# --------------------------------------------------------------- comparison
def device_not_equal(self, device):
    if len(self.models_list) != len(device.models_list):
        return 'differs'
    for i in range(len(self.models_list)):
        if self.models_list[i].not_equal(device.models_list[i]):
            return 'differs'
    return False


def model_not_equal(self, model):
    if len(self.blocks) != len(model.blocks):
        return 'differs'
    if self.model_type.not_equal(model.model_type):
        return 'differs'
    for i in range(len(self.blocks)):
        if self.blocks[i].not_equal(model.blocks[i]):
            return 'differs'
    return False


def block_not_equal(self, block):
    if self.block_type.not_equal(block.block_type):
        return 'differs'
    for point in self.points_list:
        if point.not_equal(block.points.get(point.point_type.id)):
            return 'differs'
    return False


def point_not_equal(self, point):
    if self.point_type.not_equal(point.point_type):
        return 'differs'
    if self.value_base is not None or point.value_base is not None:
        if self.value_base != point.value_base:
            return 'differs'
    if self.value_sf is not None or point.value_sf is not None:
        if self.value_sf != point.value_sf:
            return 'differs'
    return False


def model_type_not_equal(self, model_type):
    if self == model_type:
        return False
    if model_type is None:
        return 'differs'
    if self.id != model_type.id or self.len != model_type.len:
        return 'differs'
    if self.label != model_type.label or self.description != model_type.description or self.notes != model_type.notes:
        return 'differs'
    if self.fixed_block is None:
        if model_type.fixed_block is not None:
            return 'differs'
    elif self.fixed_block.not_equal(model_type.fixed_block):
        return 'differs'
    if self.repeating_block is None:
        if model_type.repeating_block is not None:
            return 'differs'
    elif self.repeating_block.not_equal(model_type.repeating_block):
        return 'differs'
    return False


def block_type_not_equal(self, block_type):
    if self == block_type:
        return False
    if block_type is None:
        return 'differs'
    if self.type != block_type.type or self.len != block_type.len:
        return 'differs'
    if len(self.points) != len(block_type.points):
        return 'differs'
    for name, pt in self.points.items():
        if pt.not_equal(block_type.points.get(name)):
            return 'differs'
    return False


# -------------------------------------------------------------- definitions
def model_type_init(self, mid=None):
    self.symbols = {}
    self.fixed_block = None
    self.repeating_block = None
    self.id = mid
    self.len = None
    self.name = None
    self.label = None
    self.description = None
    self.notes = None


def block_type_init(self, btype=None, blen=0, name=None, model_type=None):
    self.points = {}
    self.points_list = []
    self.type = btype
    self.len = blen
    self.name = name
    self.model_type = model_type


def point_type_init(self, pid=None, offset=None, ptype=None, plen=None, mandatory=None, access=None, sf=None, block_type=None):
    self.symbols = []
    self.id = pid
    self.offset = offset
    self.type = ptype
    self.len = plen
    self.mandatory = mandatory
    self.access = access
    self.sf = sf
    self.block_type = block_type
    self.units = None
    self.label = None
    self.description = None
    self.notes = None
    self.value_default = None
    self.is_impl = None
    self.data_to = None
    self.to_data = None
    self.to_value = None


def symbol_init(self, sid=None):
    self.value = None
    self.label = None
    self.description = None
    self.notes = None
    self.id = sid


def symbol_add(self, symbol, point_id):
    self.symbols[symbol.id, point_id] = symbol


def symbol_get(self, sid, point_id):
    return self.symbols.get((sid, point_id))


def point_symbol_get(self, sid):
    for s in self.symbols:
        if s.id == sid:
            return s
    return None


def symbol_from_smdx(self, element, strings=False):
    for e in element.findall('*'):
        if e.tag == 'label':
            self.label = e.text
        if e.tag == 'description':
            self.description = e.text
        if e.tag == 'notes':
            self.notes = e.text
    if strings is False:
        self.id = element.attrib.get('id')
        self.value = element.text
        if self.id is None:
            raise device.SunSpecError('')


def point_type_from_smdx(self, element, strings=False):
    if strings is False:
        a = element.attrib
        self.id = a.get('id')
        self.offset = int(a.get('offset'))
        kind = a.get('type')
        size = a.get('len')
        mandatory = a.get('mandatory', 'false')
        access = a.get('access', 'r')
        self.units = a.get('units')
        if self.id is None or kind is None:
            raise device.SunSpecError('')
        if kind == 'string' and size is None:
            raise device.SunSpecError('')
        self.type = device.smdx.smdx_point_types.get(kind)
        if self.type is None:
            raise device.SunSpecError('')
        self.mandatory = {'false': 'false', 'true': 'true'}.get(mandatory)
        if self.mandatory is None:
            raise device.SunSpecError('')
        self.access = {'r': 'r', 'rw': 'rw'}.get(access)
        if self.access is None:
            raise device.SunSpecError('')
        self.sf = a.get('sf')
        row = suns.suns_point_type_info.get(self.type)
        if row is not None:
            self.len = row[0]
            self.is_impl = row[1]
            self.data_to = row[2]
            self.to_data = row[3]
            self.to_value = row[4]
            self.value_default = row[5]
            if size is not None:
                self.len = int(size)
    for e in element.findall('*'):
        if e.tag == 'label':
            self.label = e.text
        elif e.tag == 'description':
            self.description = e.text
        elif e.tag == 'notes':
            self.notes = e.text
        elif e.tag == 'symbol':
            sid = e.attrib.get('id')
            known = self.block_type.model_type.symbol_get(sid=sid, point_id=self.id)
            if known is None:
                known = device.Symbol()
                known.from_smdx(e, strings)
                self.block_type.model_type.symbol_add(symbol=known, point_id=self.id)
            if self.symbol_get(sid) is None:
                self.symbols.append(known)
            known.from_smdx(e, strings)


def block_type_from_smdx(self, element):
    kind = element.attrib.get('type', 'fixed')
    if kind not in ('fixed', 'repeating'):
        raise device.SunSpecError('')
    self.type = kind
    self.len = element.attrib.get('len')
    if self.len is None:
        raise device.SunSpecError('')
    self.name = element.attrib.get('name')
    if self.name is None:
        self.name = self.type
    for e in element.findall('point'):
        pt = device.PointType(block_type=self)
        pt.from_smdx(e)
        if self.points.get(pt.id) is not None:
            ET.dump(e)
            raise device.SunSpecError('')
        self.points[pt.id] = pt
        self.points_list.append(pt)


def model_type_from_smdx(self, element):
    for m in element.findall('model'):
        self.id = int(m.attrib.get('id'))
        self.len = m.attrib.get('len')
        self.name = m.attrib.get('name')
        if self.name is None:
            self.name = 'model_' + str(self.id)
        if self.len is None:
            raise device.SunSpecError('')
        self.len = int(self.len)
        for b in m.findall('block'):
            block = device.BlockType(model_type=self)
            block.from_smdx(b)
            if block.type == FIXED:
                if self.fixed_block is not None:
                    raise device.SunSpecError('')
                self.fixed_block = block
            elif block.type == REPEATING:
                if self.repeating_block is not None:
                    raise device.SunSpecError('')
                self.repeating_block = block
        break
    for s in element.findall('strings'):
        if s.attrib.get('id') != str(self.id):
            continue
        m = s.find('model')
        if m is not None:
            for e in m.findall('*'):
                if e.tag == 'label':
                    self.label = e.text
                elif e.tag == 'description':
                    self.description = e.text
                elif e.tag == 'notes':
                    self.notes = e.text
        for e in s.findall('point'):
            pid = e.attrib.get('id')
            pt = None
            if self.fixed_block is not None:
                pt = self.fixed_block.points.get(pid)
            if pt is None and self.repeating_block is not None:
                pt = self.repeating_block.points.get(pid)
            if pt:
                pt.from_smdx(e, strings=True)
    if self.fixed_block is None:
        self.fixed_block = device.BlockType(FIXED, model_type=self)


def model_type_get(model_id):
    known = device.model_types.get(str(model_id))
    if known is not None:
        return known
    name = 'smdx_%05d.xml' % int(model_id)
    text = ''
    if device.file_pathlist is not None:
        try:
            text = device.file_pathlist.read(name)
        except NameError:
            pass
    if not text:
        if not os.path.exists(name):
            name = os.path.join(device.model_type_path_default, name)
        if os.path.exists(name):
            try:
                f = open(name, 'r')
                text = f.read()
                f.close()
            except Exception as e:
                raise device.SunSpecError('%s' % str(e))
    if not text:
        raise device.SunSpecError('')
    root = ET.fromstring(text)
    try:
        known = device.ModelType()
        known.from_smdx(root)
        device.model_types[known.id] = known
    except Exception as e:
        raise device.SunSpecError('%s' % str(e))
    return known


def id_to_filename(model_id):
    return 'smdx_%05d.xml' % int(model_id)


def filename_to_id(filename):
    if filename[:5] != 'smdx_' or filename[-4:] != '.xml':
        return None
    try:
        return int(filename[5:-4])
    except Exception:
        return None


def point_type_not_equal(self, point_type):
    if self == point_type:
        return False
    if point_type is None:
        return 'differs'
    mine = vars(self)
    other = vars(point_type)
    if len(mine) != len(other):
        return 'differs'
    for name, value in mine.items():
        if name == 'block_type':
            continue
        theirs = other.get(name)
        if value is None or theirs is None:
            continue
        if value != theirs:
            return 'differs'
    return False


def symbol_eq(self, symbol):
    if not isinstance(symbol, device.Symbol):
        return False
    return vars(self) == vars(symbol)


def symbol_ne(self, symbol):
    return not symbol_eq(self, symbol)


# ------------------------------------------------------------- search path
def fresh_file_pathlist(*paths):
    keep = device.file_pathlist
    device.file_pathlist = util.PathList()
    for path in paths:
        device.file_pathlist.add(device.fspath(path))
    try:
        yield device.file_pathlist
    finally:
        device.file_pathlist = keep
