"""third round: devices and definitions with helpers, generators, tables, mixins"""
DEV3 = 'device.*,block.*,point.*,sf.*,model.*,mtype.*,btype.*,ptype.*,symbol.*,model_type_get,cmodel.load'

rewrite('h2-from-pics-sources', DEV3, DV, Device__from_pics='''
def from_pics(self, element=None, filename=None, pathlist=None):
    try:
        if element is None:
            root = ET.fromstring(self._pics_source(filename, pathlist))
            if root.tag != pics.PICS_ROOT:
                raise SunSpecError("Unexpected root element: %s" % (root.tag))
            d = root.find(pics.PICS_DEVICE)
            if d is None:
                raise SunSpecError("No '{}' elements found in '{}' element".format(pics.PICS_DEVICE, root.tag))
        else:
            d = element
        if d.tag != pics.PICS_DEVICE:
            raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
        self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
        addr = self.base_addr + 2
        for m in d.findall('*'):
            addr += self._model_from_pics(m, d, addr + 2).len + 2
    except Exception as e:
        raise SunSpecError('Error loading PICS: %s' % str(e))

def _pics_source(self, filename, pathlist):
    for paths in (pathlist, file_pathlist):
        if paths is None:
            continue
        with contextlib.suppress(NameError):
            text = paths.read(filename)
            if text:
                return text
    with open(filename, 'r') as f:
        return f.read()

def _model_from_pics(self, m, d, addr):
    if m.tag != pics.PICS_MODEL:
        raise SunSpecError("Unexpected '{}' element in '{}' element".format(m.tag, d.tag))
    model_id = m.attrib.get(pics.PICS_ATTR_ID)
    if model_id is None:
        raise SunSpecError('Module id error')
    model = Model(self, model_id, addr, int(m.attrib.get(pics.PICS_ATTR_LEN, 0)))
    try:
        model.load()
    except Exception as e:
        model.load_error = str(e)
    model.from_pics(m)
    self.add_model(model)
    return model
''')
rewrite('h2-load-layout', DEV3, DV, Model__load='''
def load(self, block_class=Block, point_class=Point):
    self.read_blocks.append(self.addr)
    self.model_type = model_type_get(self.id)
    if self.model_type is None:
        raise SunSpecError('Unknown model type - id: %s' % str(self.id))
    if self.len == 0:
        self.len = self.model_type.len
    last_read_addr = self.addr
    for index, block_type, block_addr, block_len in self._layout(self.addr + self.len):
        block = block_class(self, block_addr, block_len, block_type, index)
        self.blocks.append(block)
        for point_type in block_type.points_list:
            if point_type.type == suns.SUNS_TYPE_PAD:
                continue
            point_addr = int(block_addr) + int(point_type.offset)
            point = point_class(block=block, point_type=point_type, addr=str(point_addr))
            if point_addr + point.point_type.len - last_read_addr > MAX_READ_COUNT:
                last_read_addr = point_addr
                self.read_blocks.append(last_read_addr)
            if point_type.type == suns.SUNS_TYPE_SUNSSF:
                block.points_sf[point_type.id] = point
            else:
                block.points_list.append(point)
                block.points[point_type.id] = point
        self._resolve(block, index)
    if self.blocks:
        fixed = self.blocks[0]
        self.points_list, self.points, self.points_sf = fixed.points_list, fixed.points, fixed.points_sf

def _layout(self, end_addr):
    index = 0
    block_type = self.model_type.fixed_block
    block_addr = self.addr
    block_len = self.len if (self.id, self.len) == (1, 65) else int(block_type.len)
    while True:
        block_end = block_addr + block_len
        if end_addr < block_end:
            raise SunSpecError(
                'Block (length {}, ending at {}) would exceed end of '
                'model reported by device ({}).'
                .format(block_len, block_end, end_addr)
            )
        yield index, block_type, block_addr, block_len
        block_type = self.model_type.repeating_block
        if block_type is None:
            return
        block_len = int(block_type.len)
        if end_addr == block_end:
            return
        if block_len <= 0:
            raise SunSpecError('Repeating block of model %s has no length' % (self.id))
        block_addr = block_end
        index += 1

def _resolve(self, block, index):
    for point in block.points_list:
        sf = point.point_type.sf
        if sf is None or point.sf_point is not None:
            continue
        try:
            point.sf_point = ScaleFactor(int(sf))
        except Exception:
            point.sf_point = block.points_sf.get(sf)
            if point.sf_point is None and index > 0:
                point.sf_point = self.blocks[0].points_sf.get(sf)
        if point.sf_point is None:
            raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
                (sf, point.point_type.id, self.id))
''')
rewrite('h2-resolve-tables', DEV3, DV, Model__load='''
def load(self, block_class=Block, point_class=Point):
    last_read_addr = self.addr
    self.read_blocks.append(last_read_addr)
    self.model_type = model_type_get(self.id)
    if self.model_type is None:
        raise SunSpecError('Unknown model type - id: %s' % str(self.id))
    if not self.len:
        self.len = self.model_type.len
    end_addr = self.addr + self.len
    index = 0
    block_type = self.model_type.fixed_block
    block_addr = self.addr
    block_len = int(block_type.len)
    if self.id == 1 and self.len == 65:
        block_len = self.len
    done = False
    while not done:
        block_end = block_addr + block_len
        if block_end > end_addr:
            raise SunSpecError(
                'Block (length {}, ending at {}) would exceed end of '
                'model reported by device ({}).'
                .format(block_len, block_end, end_addr)
            )
        block = block_class(self, block_addr, block_len, block_type, index)
        self.blocks.append(block)
        for point_type in block_type.points_list:
            if point_type.type != suns.SUNS_TYPE_PAD:
                last_read_addr = self._add_point(block, block_addr, point_type, point_class, last_read_addr)
        tables = [block.points_sf]
        if index > 0:
            tables.append(self.blocks[0].points_sf)
        for point in block.points_list:
            if point.point_type.sf is not None and point.sf_point is None:
                point.sf_point = self._scale_factor(point, tables)
        block_addr += block_len
        block_type = self.model_type.repeating_block
        if block_type is None:
            done = True
        else:
            index += 1
            block_len = int(block_type.len)
            if end_addr == block_end:
                done = True
            elif block_len <= 0:
                raise SunSpecError('Repeating block of model %s has no length' % (self.id))
    self.points_list = self.blocks[0].points_list
    self.points = self.blocks[0].points
    self.points_sf = self.blocks[0].points_sf

def _add_point(self, block, block_addr, point_type, point_class, last_read_addr):
    point_addr = int(block_addr) + int(point_type.offset)
    point = point_class(block=block, point_type=point_type, addr=str(point_addr))
    if point_addr + point.point_type.len - last_read_addr > MAX_READ_COUNT:
        last_read_addr = point_addr
        self.read_blocks.append(point_addr)
    if point_type.type == suns.SUNS_TYPE_SUNSSF:
        block.points_sf[point_type.id] = point
    else:
        block.points_list.append(point)
        block.points[point_type.id] = point
    return last_read_addr

def _scale_factor(self, point, tables):
    name = point.point_type.sf
    try:
        return ScaleFactor(int(name))
    except Exception:
        pass
    for table in tables:
        if table.get(name) is not None:
            return table.get(name)
    raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
        (name, point.point_type.id, self.id))
''')
rewrite('h2-model-pics-targets', DEV3, DV, Model__from_pics='''
def from_pics(self, element):
    if pics.PICS_ATTR_INDEX in element.attrib:
        self.index = element.attrib[pics.PICS_ATTR_INDEX]
    for b in element.findall('*'):
        if b.tag != pics.PICS_BLOCK:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(b.tag, element.tag))
        for block in self._pics_blocks(b):
            block.from_pics(b)

def _pics_blocks(self, b):
    kind = pics.pics_block_types.get(b.attrib.get(pics.PICS_ATTR_TYPE, pics.PICS_TYPE_FIXED))
    if kind == suns.SUNS_BLOCK_FIXED:
        return self.blocks[:1]
    if kind != suns.SUNS_BLOCK_REPEATING:
        raise SunSpecError('Unknown block type')
    index = b.attrib.get(pics.PICS_ATTR_INDEX)
    if index is None:
        return self.blocks[1:]
    index = int(index)
    if index <= 0 or index >= len(self.blocks):
        raise SunSpecError('Block index out of range: %s' % (str(index)))
    return [self.blocks[index]]
''')
rewrite('BUG-h2-model-pics-targets', DEV3, DV, Model__from_pics='''
def from_pics(self, element):
    if pics.PICS_ATTR_INDEX in element.attrib:
        self.index = element.attrib[pics.PICS_ATTR_INDEX]
    for b in element.findall('*'):
        if b.tag != pics.PICS_BLOCK:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(b.tag, element.tag))
        for block in self._pics_blocks(b):
            block.from_pics(b)

def _pics_blocks(self, b):
    kind = pics.pics_block_types.get(b.attrib.get(pics.PICS_ATTR_TYPE, pics.PICS_TYPE_FIXED))
    if kind == suns.SUNS_BLOCK_FIXED:
        return self.blocks[:1]
    if kind != suns.SUNS_BLOCK_REPEATING:
        raise SunSpecError('Unknown block type')
    index = b.attrib.get(pics.PICS_ATTR_INDEX)
    if index is None:
        return self.blocks[1:]
    index = int(index)
    if index <= 0 or index > len(self.blocks):
        raise SunSpecError('Block index out of range: %s' % (str(index)))
    return self.blocks[index:index + 1]
''')
rewrite('h2-mtype-split', DEV3, DV, ModelType__from_smdx='''
def from_smdx(self, element):
    m = element.find(smdx.SMDX_MODEL)
    if m is not None:
        self._definition(m)
    for s in element.findall(smdx.SMDX_STRINGS):
        if s.attrib.get(smdx.SMDX_ATTR_ID) == str(self.id):
            self._strings(s)
    if self.fixed_block is None:
        self.fixed_block = BlockType(suns.SUNS_BLOCK_FIXED, model_type=self)

def _definition(self, m):
    self.id = int(m.attrib.get(smdx.SMDX_ATTR_ID))
    length = m.attrib.get(smdx.SMDX_ATTR_LEN)
    name = m.attrib.get(smdx.SMDX_ATTR_NAME)
    self.name = name if name is not None else 'model_' + str(self.id)
    self.len = length
    if length is None:
        raise SunSpecError('Module len error')
    self.len = int(length)
    for b in m.findall(smdx.SMDX_BLOCK):
        block = BlockType(model_type=self)
        block.from_smdx(b)
        self._block_add(block)

def _block_add(self, block):
    if block.type == suns.SUNS_BLOCK_FIXED:
        if self.fixed_block is not None:
            raise SunSpecError('Duplicate fixed block type definition')
        self.fixed_block = block
    elif block.type == suns.SUNS_BLOCK_REPEATING:
        if self.repeating_block is not None:
            raise SunSpecError('Duplicate repeating block type definition')
        self.repeating_block = block

def _point_type(self, pid):
    for block in (self.fixed_block, self.repeating_block):
        if block is not None:
            point_type = block.points.get(pid)
            if point_type is not None:
                return point_type
    return None

def _strings(self, s):
    m = s.find(smdx.SMDX_MODEL)
    if m is not None:
        _set_texts(self, m)
    for e in s.findall(smdx.SMDX_POINT):
        point_type = self._point_type(e.attrib.get(smdx.SMDX_ATTR_ID))
        if point_type is not None:
            point_type.from_smdx(e, strings=True)
''', _top='''
_text_fields = {smdx.SMDX_LABEL: 'label', smdx.SMDX_DESCRIPTION: 'description', smdx.SMDX_NOTES: 'notes'}


def _set_texts(target, element):
    for e in element.findall('*'):
        if e.tag in _text_fields:
            setattr(target, _text_fields[e.tag], e.text)
''')
rewrite('h2-symbol-mixin', DEV3, DV, Symbol____init__='''
def __init__(self, sid=None):
    self.id = sid
    self.value = None
    _Texts.__init__(self)
''', Symbol__from_smdx='''
def from_smdx(self, element, strings=False):
    self.texts_from(element)
    if strings is False:
        self.id = element.attrib.get(smdx.SMDX_ATTR_ID)
        self.value = element.text
        if self.id is None:
            raise SunSpecError('Missing point id attribute')
''', _top='''
class _Texts(object):
    label = description = notes = None

    def __init__(self):
        self.label = None
        self.description = None
        self.notes = None

    def texts_from(self, element):
        for e in element.findall('*'):
            self.text_from(e)

    def text_from(self, e):
        if e.tag == smdx.SMDX_LABEL:
            self.label = e.text
        elif e.tag == smdx.SMDX_DESCRIPTION:
            self.description = e.text
        elif e.tag == smdx.SMDX_NOTES:
            self.notes = e.text
''')
n, k, e = V[-1]
V[-1] = (n, k, e + [(DV, 'class Symbol(object):', 'class Symbol(_Texts):', 1)])
rewrite('h2-ptype-split', DEV3, DV, PointType__from_smdx='''
def from_smdx(self, element, strings=False):
    if strings is False:
        self._attributes(element.attrib)
    for e in element.findall('*'):
        self._child(e, strings)

def _attributes(self, attrib):
    self.id = attrib.get(smdx.SMDX_ATTR_ID)
    self.offset = int(attrib.get(smdx.SMDX_ATTR_OFFSET))
    self.units = attrib.get(smdx.SMDX_ATTR_UNITS)
    ptype = attrib.get(smdx.SMDX_ATTR_TYPE)
    plen = attrib.get(smdx.SMDX_ATTR_LEN)
    if self.id is None:
        raise SunSpecError('Missing point id attribute')
    if ptype is None:
        raise SunSpecError('Missing type attribute for point: %s' % self.id)
    if ptype == smdx.SMDX_TYPE_STRING and plen is None:
        raise SunSpecError('Missing len attribute for point: %s' % self.id)
    self.type = self._known(smdx.smdx_point_types, ptype, 'Unknown point type: %s')
    self.mandatory = self._known(smdx.smdx_mandatory_types, attrib.get(smdx.SMDX_ATTR_MANDATORY, smdx.SMDX_MANDATORY_FALSE),
                                 'Unknown mandatory type: %s')
    self.access = self._known(smdx.smdx_access_types, attrib.get(smdx.SMDX_ATTR_ACCESS, smdx.SMDX_ACCESS_R), 'Unknown access type: %s')
    self.sf = attrib.get(smdx.SMDX_ATTR_SF)
    info = suns.suns_point_type_info.get(self.type)
    if info is None:
        return
    self.len, self.is_impl, self.data_to, self.to_data, self.to_value, self.value_default = info
    if plen is not None:
        self.len = int(plen)

@staticmethod
def _known(table, key, message):
    value = table.get(key)
    if value is None:
        raise SunSpecError(message % key)
    return value

def _child(self, e, strings):
    if e.tag == smdx.SMDX_SYMBOL:
        sid = e.attrib.get(smdx.SMDX_ATTR_ID)
        owner = self.block_type.model_type
        symbol = owner.symbol_get(sid, self.id)
        if symbol is None:
            symbol = Symbol()
            symbol.from_smdx(e, strings)
            owner.symbol_add(symbol, self.id)
        if not any(s.id == sid for s in self.symbols):
            self.symbols.append(symbol)
        symbol.from_smdx(e, strings)
    elif e.tag == smdx.SMDX_LABEL:
        self.label = e.text
    elif e.tag == smdx.SMDX_DESCRIPTION:
        self.description = e.text
    elif e.tag == smdx.SMDX_NOTES:
        self.notes = e.text
''')
rewrite('h2-btype', DEV3, DV, BlockType__from_smdx='''
def from_smdx(self, element):
    attrib = element.attrib
    btype = attrib.get(smdx.SMDX_ATTR_TYPE, smdx.SMDX_ATTR_TYPE_FIXED)
    if btype not in (smdx.SMDX_ATTR_TYPE_FIXED, smdx.SMDX_ATTR_TYPE_REPEATING):
        raise SunSpecError('Invalid block type')
    self.type = smdx.smdx_block_types[btype]
    self.len = attrib.get(smdx.SMDX_ATTR_LEN)
    if self.len is None:
        raise SunSpecError('Block len error')
    name = attrib.get(smdx.SMDX_ATTR_NAME)
    self.name = self.type if name is None else name
    for e in element.findall(smdx.SMDX_POINT):
        self._point_add(e)

def _point_add(self, e):
    pt = PointType(block_type=self)
    pt.from_smdx(e)
    if pt.id in self.points:
        ET.dump(e)
        raise SunSpecError('Duplicate point definition: %s' % (pt.id))
    self.points[pt.id] = pt
    self.points_list.append(pt)
''')
rewrite('h2-mtype-ne-loop', DEV3, DV, ModelType__not_equal='''
def not_equal(self, model_type):
    if self is model_type:
        return False
    if model_type is None:
        return "ModelType is None"
    for name in ('id', 'len', 'label', 'description', 'notes'):
        mine, other = getattr(self, name), getattr(model_type, name)
        if mine != other:
            return "ModelType attribute '{}' not equal: {}  {}".format(name, str(mine), str(other))
    for kind, mine, other in (('fixed', self.fixed_block, model_type.fixed_block),
                              ('repeating', self.repeating_block, model_type.repeating_block)):
        if mine is not None:
            not_equal = mine.not_equal(other)
            if not_equal:
                return not_equal
        elif other is not None:
            return "ModelType {} block is None".format(kind)
    return False
''')
rewrite('h2-mtg-early', DEV3, DV, model_type_get='''
def model_type_get(model_id):
    key = str(model_id)
    model_type = model_types.get(key)
    if model_type is not None:
        return model_type
    filename, text = _model_source(model_id)
    if not text:
        raise SunSpecError('Model file for model %s not found' % key)
    root = ET.fromstring(text)
    try:
        model_type = ModelType()
        model_type.from_smdx(root)
    except Exception as e:
        raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
    model_types[model_type.id] = model_type
    return model_type


def _model_source(model_id):
    filename = smdx.model_id_to_filename(model_id)
    text = ''
    if file_pathlist is not None:
        try:
            text = file_pathlist.read(filename)
        except NameError:
            pass
    if text:
        return filename, text
    if not os.path.exists(filename):
        filename = os.path.join(model_type_path_default, filename)
    if os.path.exists(filename):
        try:
            with open(filename, 'r') as f:
                text = f.read()
        except Exception as e:
            raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
    return filename, text
''')
rewrite('h2-block-lookup', DEV3, DV, Block__from_pics='''
def from_pics(self, element):
    for p in element.findall('*'):
        if p.tag != pics.PICS_POINT:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
        point = self._point(p.attrib.get(pics.PICS_ATTR_ID))
        if point is not None:
            point.from_pics(p)
    for point in self.points_list:
        sf = point.sf_point
        if sf is not None:
            point.value_sf = sf.value_base

def _point(self, pid):
    return self.points[pid] if pid in self.points else self.points_sf.get(pid)
''', Block__to_pics='''
def to_pics(self, parent):
    repeating = self.block_type.type == suns.SUNS_BLOCK_REPEATING
    attr = {}
    if self.index > 1:
        attr[pics.PICS_ATTR_INDEX] = str(self.index)
    if repeating:
        attr[pics.PICS_ATTR_TYPE] = pics.PICS_TYPE_REPEATING
    e = ET.SubElement(parent, pics.PICS_BLOCK, attr)
    found = (self._point(pt.id) for pt in self.block_type.points_list)
    for point in found:
        if point is not None:
            point.to_pics(e)
''')
rewrite('h2-point-pics-early', DEV3, DV, Point__from_pics='''
def from_pics(self, element):
    if element.attrib.get(pics.PICS_ATTR_IMPLEMENTED) == pics.PICS_IMPLEMENTED_FALSE:
        self.impl = False
        self.value_base = None
        return
    value = None
    if element.text:
        value = self.point_type.to_value(element.text)
        self.impl = self.point_type.is_impl(value)
    if not self.impl:
        self.value_base = None
    elif value is not None:
        self.value_base = value
''')
rewrite('h2-point-ne', DEV3, DV, Point__not_equal='''
def not_equal(self, point):
    s = self.point_type.not_equal(point.point_type)
    if s:
        return 'point {} not equal - point type not equal: {}'.format(self.point_type.id, s)
    if self.value_base == point.value_base and self.value_sf == point.value_sf:
        return False
    if self.value_base is not None:
        print('self.value_base')
    if point.value_base is not None:
        print('point.value_base', type(point.value_base), point.value_base)
    return 'point {} not equal: {} {} - {} {}'.format(self.point_type.id, self.value_base, self.value_sf, point.value_base, point.value_sf)
''')
