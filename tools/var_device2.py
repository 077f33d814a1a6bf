"""second round: devices, blocks, points, models and their definitions"""
DEV2 = 'device.*,block.*,point.*,sf.*,model.*,mtype.*,btype.*,ptype.*,symbol.*,model_type_get'

rewrite('d2-add-model', DEV2, DV, Device__add_model='''
def add_model(self, model):
    self.models.setdefault(model.id, []).append(model)
    self.models_list.append(model)
''')
rewrite('d2-add-model-in', DEV2, DV, Device__add_model='''
def add_model(self, model):
    mid = model.id
    if mid not in self.models:
        self.models[mid] = []
    self.models[mid].append(model)
    self.models_list.append(model)
''')
rewrite('BUG-d2-add-model-get', DEV2, DV, Device__add_model='''
def add_model(self, model):
    models = self.models.get(model.id, [])
    models.append(model)
    self.models_list.append(model)
''')
rewrite('d2-from-pics', DEV2, DV, Device__from_pics='''
def from_pics(self, element=None, filename=None, pathlist=None):
    try:
        d = element
        if d is None:
            d = _device_element(_pics_text(filename, pathlist))
        if d.tag != pics.PICS_DEVICE:
            raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
        self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
        addr = self.base_addr + 4
        for m in d.findall('*'):
            model = self._model_from_pics(m, addr)
            self.add_model(model)
            addr = addr + 2 + model.len
    except Exception as e:
        raise SunSpecError('Error loading PICS: %s' % str(e))

def _model_from_pics(self, m, addr):
    if m.tag != pics.PICS_MODEL:
        raise SunSpecError("Unexpected '{}' element in '{}' element".format(m.tag, pics.PICS_DEVICE))
    if pics.PICS_ATTR_ID not in m.attrib:
        raise SunSpecError('Module id error')
    model = Model(self, m.attrib[pics.PICS_ATTR_ID], addr, int(m.attrib.get(pics.PICS_ATTR_LEN, 0)))
    try:
        model.load()
    except Exception as e:
        model.load_error = str(e)
    model.from_pics(m)
    return model
''', _top='''
def _pics_text(filename, pathlist):
    for paths in (pathlist, file_pathlist):
        if paths is not None:
            try:
                text = paths.read(filename)
            except NameError:
                continue
            if text:
                return text
    with open(filename, 'r') as f:
        return f.read()

def _device_element(text):
    root = ET.fromstring(text)
    if root.tag != pics.PICS_ROOT:
        raise SunSpecError("Unexpected root element: %s" % (root.tag))
    d = root.find(pics.PICS_DEVICE)
    if d is None:
        raise SunSpecError("No '{}' elements found in '{}' element".format(pics.PICS_DEVICE, root.tag))
    return d
''')
rewrite('d2-not-equal-zip', DEV2, DV, Device__not_equal='''
def not_equal(self, device):
    if len(self.models_list) != len(device.models_list):
        return 'Devices not equal - model counts: %d  %d' % (len(self.models_list), len(device.models_list))
    for mine, other in zip(self.models_list, device.models_list):
        s = mine.not_equal(other)
        if s:
            return 'Devices not equal - %s' % (s)
    return False
''')
rewrite('d2-not-equal-next', DEV2, DV, Device__not_equal='''
def not_equal(self, device):
    count = len(self.models_list)
    if count != len(device.models_list):
        return 'Devices not equal - model counts: %d  %d' % (count, len(device.models_list))
    i = 0
    while i < count:
        difference = self.models_list[i].not_equal(device.models_list[i])
        if difference:
            return 'Devices not equal - ' + str(difference)
        i += 1
    return False
''')
rewrite('d2-block-from-pics', DEV2, DV, Block__from_pics='''
def from_pics(self, element):
    for p in element.findall('*'):
        if p.tag != pics.PICS_POINT:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
        point = self._find(p.attrib.get(pics.PICS_ATTR_ID))
        if point is not None:
            point.from_pics(p)
    for point in self.points_list:
        sf_point = point.sf_point
        if sf_point is None:
            continue
        point.value_sf = sf_point.value_base

def _find(self, pid):
    for points in (self.points, self.points_sf):
        if pid in points:
            return points[pid]
    return None
''', Block__to_pics='''
def to_pics(self, parent):
    attr = {}
    if self.index > 1:
        attr[pics.PICS_ATTR_INDEX] = str(self.index)
    if self.block_type.type == suns.SUNS_BLOCK_REPEATING:
        attr[pics.PICS_ATTR_TYPE] = pics.PICS_TYPE_REPEATING
    e = ET.SubElement(parent, pics.PICS_BLOCK, attrib=attr)
    for pt in self.block_type.points_list:
        point = self._find(pt.id)
        if point is not None:
            point.to_pics(e)
''')
rewrite('d2-block-from-pics-map', DEV2, DV, Block__from_pics='''
def from_pics(self, element):
    for p in element.findall('*'):
        if p.tag == pics.PICS_POINT:
            pid = p.attrib.get(pics.PICS_ATTR_ID)
            point = self.points.get(pid, self.points_sf.get(pid))
            if point is None:
                continue
            point.from_pics(p)
        else:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
    for point in self.points_list:
        if point.sf_point is not None:
            point.value_sf = point.sf_point.value_base
''')
rewrite('d2-block-not-equal', DEV2, DV, Block__not_equal='''
def not_equal(self, block):
    s = self.block_type.not_equal(block.block_type)
    if s:
        return 'block {} not equal - block type not equal: {}'.format(self.block_type.type, s)
    others = block.points
    for mine in self.points_list:
        s = mine.not_equal(others.get(mine.point_type.id))
        if not s:
            continue
        return 'block %d not equal - %s' % (self.index, s)
    return False
''')
rewrite('d2-point-get', DEV2, DV, Point__value_getter='''
def value_getter(self):
    base = self.value_base
    exponent = self.value_sf
    if base is None or not exponent:
        return base
    return base * math.pow(10, exponent)
''')
rewrite('d2-point-set', DEV2, DV, Point__value_setter='''
def value_setter(self, v):
    exponent = self.value_sf
    if not exponent:
        base = self.point_type.to_value(v)
    else:
        scaled = float(v) / math.pow(10, exponent)
        base = int(round(scaled))
    self.value_base = base
    self.dirty = True
''')
rewrite('d2-point-set-none', DEV2, DV, Point__value_setter='''
def value_setter(self, v):
    if self.value_sf is None or self.value_sf == 0:
        self.value_base = self.point_type.to_value(v)
    else:
        self.value_base = int(round(float(v) / math.pow(10, self.value_sf)))
    self.dirty = True
''')
rewrite('BUG-d2-point-set-mul', DEV2, DV, Point__value_setter='''
def value_setter(self, v):
    exponent = self.value_sf
    if not exponent:
        base = self.point_type.to_value(v)
    else:
        base = int(round(float(v) * math.pow(10, -exponent)))
    self.value_base = base
    self.dirty = True
''')
rewrite('d2-point-from-pics', DEV2, DV, Point__from_pics='''
def from_pics(self, element):
    if element.attrib.get(pics.PICS_ATTR_IMPLEMENTED) == pics.PICS_IMPLEMENTED_FALSE:
        self.impl = False
        self.value_base = None
        return
    value = None
    text = element.text
    if text:
        value = self.point_type.to_value(text)
        self.impl = self.point_type.is_impl(value)
    if not self.impl:
        self.value_base = None
    elif value is not None:
        self.value_base = value
''')
rewrite('d2-point-to-pics', DEV2, DV, Point__to_pics='''
def to_pics(self, parent):
    attr = {pics.PICS_ATTR_ID: str(self.point_type.id)}
    if self.value is None:
        attr[pics.PICS_ATTR_IMPLEMENTED] = str(pics.PICS_IMPLEMENTED_FALSE)
    elif self.point_type.access != suns.SUNS_ACCESS_R:
        attr[pics.PICS_ATTR_ACCESS] = 'rw'
    e = ET.SubElement(parent, pics.PICS_POINT, attrib=attr)
    if self.value_base is None:
        return
    e.text = str(self.value_base).rstrip(chr(0))
''')
rewrite('d2-point-to-pics-rev', DEV2, DV, Point__to_pics='''
def to_pics(self, parent):
    base = self.value_base
    e = ET.SubElement(parent, pics.PICS_POINT)
    e.set(pics.PICS_ATTR_ID, str(self.point_type.id))
    if base is None:
        e.set(pics.PICS_ATTR_IMPLEMENTED, pics.PICS_IMPLEMENTED_FALSE)
        return
    if self.point_type.access != suns.SUNS_ACCESS_R:
        for key, value in pics.pics_access_types.items():
            if value == suns.SUNS_ACCESS_RW:
                e.set(pics.PICS_ATTR_ACCESS, str(key))
                break
    e.text = str(base).rstrip('\\0')
''')
rewrite('d2-point-not-equal', DEV2, DV, Point__not_equal='''
def not_equal(self, point):
    s = self.point_type.not_equal(point.point_type)
    if s:
        return 'point {} not equal - point type not equal: {}'.format(self.point_type.id, s)
    base_differs = (self.value_base is not None or point.value_base is not None) and self.value_base != point.value_base
    if not base_differs:
        sf_differs = (self.value_sf is not None or point.value_sf is not None) and self.value_sf != point.value_sf
        if not sf_differs:
            return False
    if self.value_base is not None:
        print('self.value_base')
    if point.value_base is not None:
        print('point.value_base', type(point.value_base), point.value_base)
    return 'point {} not equal: {} {} - {} {}'.format(self.point_type.id, self.value_base, self.value_sf, point.value_base, point.value_sf)
''')
rewrite('d2-point-not-equal-tuple', DEV2, DV, Point__not_equal='''
def not_equal(self, point):
    s = self.point_type.not_equal(point.point_type)
    if s:
        return 'point {} not equal - point type not equal: {}'.format(self.point_type.id, s)
    if self.value_base == point.value_base and self.value_sf == point.value_sf:
        return False
    return 'point {} not equal: {} {} - {} {}'.format(self.point_type.id, self.value_base, self.value_sf, point.value_base, point.value_sf)
''')
LOAD = '''
def load(self, block_class=Block, point_class=Point):
    self._limit = None
    last_read_addr = self.addr
    self.read_blocks.append(last_read_addr)
'''
rewrite('d2-load-for', DEV2 + ',cmodel.load', DV, Model__load='''
def load(self, block_class=Block, point_class=Point):
    last_read_addr = self.addr
    self.read_blocks.append(last_read_addr)
    self.model_type = model_type_get(self.id)
    if self.model_type is None:
        raise SunSpecError('Unknown model type - id: %s' % str(self.id))
    if not self.len:
        self.len = self.model_type.len
    end_addr = self.addr + self.len
    index = 0
    block_type = self.model_type.fixed_block
    block_addr = self.addr
    block_len = int(block_type.len)
    if self.id == 1 and self.len == 65:
        block_len = 65
    while True:
        block_end = block_addr + block_len
        if block_end > end_addr:
            raise SunSpecError(
                'Block (length {}, ending at {}) would exceed end of '
                'model reported by device ({}).'
                .format(block_len, block_end, end_addr)
            )
        block = block_class(self, block_addr, block_len, block_type, index)
        self.blocks.append(block)
        for point_type in block_type.points_list:
            if point_type.type == suns.SUNS_TYPE_PAD:
                continue
            point_addr = int(block_addr) + int(point_type.offset)
            point = point_class(block=block, point_type=point_type, addr=str(point_addr))
            if point_addr + point.point_type.len - last_read_addr > MAX_READ_COUNT:
                last_read_addr = point_addr
                self.read_blocks.append(last_read_addr)
            if point_type.type == suns.SUNS_TYPE_SUNSSF:
                block.points_sf[point_type.id] = point
            else:
                block.points_list.append(point)
                block.points[point_type.id] = point
        self._resolve(block, index)
        block_addr = block_end
        block_type = self.model_type.repeating_block
        if block_type is None:
            break
        block_len = int(block_type.len)
        if block_end == end_addr:
            break
        if block_len <= 0:
            raise SunSpecError('Repeating block of model %s has no length' % (self.id))
        index += 1
    first = self.blocks[0]
    self.points_list = first.points_list
    self.points = first.points
    self.points_sf = first.points_sf

def _resolve(self, block, index):
    for point in block.points_list:
        name = point.point_type.sf
        if name is None or point.sf_point is not None:
            continue
        try:
            point.sf_point = ScaleFactor(int(name))
            continue
        except Exception:
            pass
        point.sf_point = block.points_sf.get(name)
        if point.sf_point is None and index > 0:
            point.sf_point = self.blocks[0].points_sf.get(name)
        if point.sf_point is None:
            raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
                (name, point.point_type.id, self.id))
''')
rewrite('d2-model-from-pics', DEV2, DV, Model__from_pics='''
def from_pics(self, element):
    if pics.PICS_ATTR_INDEX in element.attrib:
        self.index = element.attrib[pics.PICS_ATTR_INDEX]
    for b in element.findall('*'):
        if b.tag != pics.PICS_BLOCK:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(b.tag, element.tag))
        block_type = pics.pics_block_types.get(b.attrib.get(pics.PICS_ATTR_TYPE, pics.PICS_TYPE_FIXED))
        if block_type is None:
            raise SunSpecError('Unknown block type')
        for block in self._targets(b, block_type):
            block.from_pics(b)

def _targets(self, b, block_type):
    if block_type == suns.SUNS_BLOCK_FIXED:
        return self.blocks[:1]
    block_index = b.attrib.get(pics.PICS_ATTR_INDEX)
    if block_index is None:
        return self.blocks[1:]
    block_index = int(block_index)
    if block_index <= 0 or block_index >= len(self.blocks):
        raise SunSpecError('Block index out of range: %s' % (str(block_index)))
    return [self.blocks[block_index]]
''')
rewrite('d2-model-from-pics-flat', DEV2, DV, Model__from_pics='''
def from_pics(self, element):
    self.index = element.attrib.get(pics.PICS_ATTR_INDEX, self.index)
    for b in element.findall('*'):
        if b.tag != pics.PICS_BLOCK:
            raise SunSpecError("Unexpected '{}' element in '{}' element".format(b.tag, element.tag))
        kind = b.attrib.get(pics.PICS_ATTR_TYPE, pics.PICS_TYPE_FIXED)
        if kind not in pics.pics_block_types:
            raise SunSpecError('Unknown block type')
        if pics.pics_block_types[kind] == suns.SUNS_BLOCK_FIXED:
            if self.blocks:
                self.blocks[0].from_pics(b)
            continue
        number = b.attrib.get(pics.PICS_ATTR_INDEX)
        if number is None:
            for block in self.blocks[1:]:
                block.from_pics(b)
            continue
        number = int(number)
        if 1 <= number <= len(self.blocks) - 1:
            self.blocks[number].from_pics(b)
        else:
            raise SunSpecError('Block index out of range: %s' % (str(number)))
''')
rewrite('d2-model-to-pics', DEV2, DV, Model__to_pics='''
def to_pics(self, parent, single_repeating=True):
    attr = {pics.PICS_ATTR_ID: str(self.id), pics.PICS_ATTR_LEN: str(self.len)}
    if self.index != 1:
        attr[pics.PICS_ATTR_INDEX] = str(self.index)
    e = ET.SubElement(parent, pics.PICS_MODEL, attr)
    for block in self.blocks:
        if block.index > 1 and single_repeating != False:
            continue
        block.to_pics(e)
''')
rewrite('d2-model-not-equal', DEV2, DV, Model__not_equal='''
def not_equal(self, model):
    if len(self.blocks) != len(model.blocks):
        return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
    s = self.model_type.not_equal(model.model_type)
    if s:
        return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
    for i, block in enumerate(self.blocks):
        s = block.not_equal(model.blocks[i])
        if s:
            return 'model {} not equal - {}'.format(self.model_type.id, s)
    return False
''')
rewrite('d2-mtg', DEV2, DV, model_type_get='''
def model_type_get(model_id):
    cached = model_types.get(str(model_id))
    if cached is not None:
        return cached
    filename = smdx.model_id_to_filename(model_id)
    smdx_data = ''
    if file_pathlist is not None:
        try:
            smdx_data = file_pathlist.read(filename)
        except NameError:
            smdx_data = ''
    if not smdx_data:
        if not os.path.exists(filename):
            filename = os.path.join(model_type_path_default, filename)
        if os.path.exists(filename):
            try:
                with open(filename, 'r') as f:
                    smdx_data = f.read()
            except Exception as e:
                raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
    if not smdx_data:
        raise SunSpecError('Model file for model %s not found' % (str(model_id)))
    root = ET.fromstring(smdx_data)
    try:
        model_type = ModelType()
        model_type.from_smdx(root)
        model_types[model_type.id] = model_type
    except Exception as e:
        raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
    return model_type
''')
rewrite('d2-mtype-from-smdx', DEV2, DV, ModelType__from_smdx='''
def from_smdx(self, element):
    m = element.find(smdx.SMDX_MODEL)
    if m is not None:
        self._definition(m)
    for s in element.findall(smdx.SMDX_STRINGS):
        if s.attrib.get(smdx.SMDX_ATTR_ID) == str(self.id):
            self._strings(s)
    if self.fixed_block is None:
        self.fixed_block = BlockType(suns.SUNS_BLOCK_FIXED, model_type=self)

def _definition(self, m):
    self.id = int(m.attrib.get(smdx.SMDX_ATTR_ID))
    self.len = m.attrib.get(smdx.SMDX_ATTR_LEN)
    self.name = m.attrib.get(smdx.SMDX_ATTR_NAME)
    if self.name is None:
        self.name = 'model_' + str(self.id)
    if self.len is None:
        raise SunSpecError('Module len error')
    self.len = int(self.len)
    for b in m.findall(smdx.SMDX_BLOCK):
        block = BlockType(model_type=self)
        block.from_smdx(b)
        if block.type == suns.SUNS_BLOCK_FIXED:
            if self.fixed_block is not None:
                raise SunSpecError('Duplicate fixed block type definition')
            self.fixed_block = block
        elif block.type == suns.SUNS_BLOCK_REPEATING:
            if self.repeating_block is not None:
                raise SunSpecError('Duplicate repeating block type definition')
            self.repeating_block = block

def _strings(self, s):
    m = s.find(smdx.SMDX_MODEL)
    if m is not None:
        for e in m.findall('*'):
            if e.tag == smdx.SMDX_LABEL:
                self.label = e.text
            elif e.tag == smdx.SMDX_DESCRIPTION:
                self.description = e.text
            elif e.tag == smdx.SMDX_NOTES:
                self.notes = e.text
    for e in s.findall(smdx.SMDX_POINT):
        pid = e.attrib.get(smdx.SMDX_ATTR_ID)
        point_type = self._point_type(pid)
        if point_type:
            point_type.from_smdx(e, strings=True)

def _point_type(self, pid):
    for block in (self.fixed_block, self.repeating_block):
        if block is not None:
            point_type = block.points.get(pid)
            if point_type is not None:
                return point_type
    return None
''')
rewrite('d2-mtype-not-equal', DEV2, DV, ModelType__not_equal='''
def not_equal(self, model_type):
    if self == model_type:
        return False
    if model_type is None:
        return "ModelType is None"
    for name in ('id', 'len', 'label', 'description', 'notes'):
        mine = getattr(self, name)
        other = getattr(model_type, name)
        if mine != other:
            return "ModelType attribute '{}' not equal: {}  {}".format(name, mine, other)
    for name, what in (('fixed_block', 'fixed'), ('repeating_block', 'repeating')):
        mine = getattr(self, name)
        other = getattr(model_type, name)
        if mine is not None:
            difference = mine.not_equal(other)
            if difference:
                return difference
        elif other is not None:
            return "ModelType %s block is None" % what
    return False
''')
rewrite('d2-btype-from-smdx', DEV2, DV, BlockType__from_smdx='''
def from_smdx(self, element):
    btype = element.attrib.get(smdx.SMDX_ATTR_TYPE, smdx.SMDX_ATTR_TYPE_FIXED)
    if btype not in (smdx.SMDX_ATTR_TYPE_FIXED, smdx.SMDX_ATTR_TYPE_REPEATING):
        raise SunSpecError('Invalid block type')
    self.type = smdx.smdx_block_types[btype]
    self.len = element.attrib.get(smdx.SMDX_ATTR_LEN)
    if self.len is None:
        raise SunSpecError('Block len error')
    self.name = element.attrib.get(smdx.SMDX_ATTR_NAME, self.type)
    for e in element.findall(smdx.SMDX_POINT):
        pt = PointType(block_type=self)
        pt.from_smdx(e)
        self._add(pt, e)

def _add(self, pt, e):
    if pt.id in self.points:
        ET.dump(e)
        raise SunSpecError('Duplicate point definition: %s' % (pt.id))
    self.points_list.append(pt)
    self.points[pt.id] = pt
''')
rewrite('d2-btype-not-equal', DEV2, DV, BlockType__not_equal='''
def not_equal(self, block_type):
    if self is block_type:
        return False
    if block_type is None:
        return "BlockType '%s' is none" % (str(self.type))
    if self.type != block_type.type:
        return "BlockType attribute 'type' not equal: {}  {}".format(str(self.type), str(block_type.type))
    if self.len != block_type.len:
        return "BlockType attribute 'len' not equal: {}  {}".format(str(self.len), str(block_type.len))
    if len(self.points) != len(block_type.points):
        return "BlockType '%s' point count not equal" % (str(self.type))
    for pid in self.points:
        difference = self.points[pid].not_equal(block_type.points.get(pid))
        if difference:
            return difference
    return False
''')
rewrite('d2-ptype-from-smdx', DEV2, DV, PointType__from_smdx='''
def from_smdx(self, element, strings=False):
    if strings is False:
        self._attributes(element.attrib)
    for e in element.findall('*'):
        if e.tag == smdx.SMDX_SYMBOL:
            self._symbol(e, strings)
        elif e.tag == smdx.SMDX_LABEL:
            self.label = e.text
        elif e.tag == smdx.SMDX_DESCRIPTION:
            self.description = e.text
        elif e.tag == smdx.SMDX_NOTES:
            self.notes = e.text

def _attributes(self, attrib):
    self.id = attrib.get(smdx.SMDX_ATTR_ID)
    self.offset = int(attrib.get(smdx.SMDX_ATTR_OFFSET))
    ptype = attrib.get(smdx.SMDX_ATTR_TYPE)
    plen = attrib.get(smdx.SMDX_ATTR_LEN)
    mandatory = attrib.get(smdx.SMDX_ATTR_MANDATORY, smdx.SMDX_MANDATORY_FALSE)
    access = attrib.get(smdx.SMDX_ATTR_ACCESS, smdx.SMDX_ACCESS_R)
    self.units = attrib.get(smdx.SMDX_ATTR_UNITS)
    if self.id is None:
        raise SunSpecError('Missing point id attribute')
    if ptype is None:
        raise SunSpecError('Missing type attribute for point: %s' % self.id)
    if ptype == smdx.SMDX_TYPE_STRING and plen is None:
        raise SunSpecError('Missing len attribute for point: %s' % self.id)
    self.type = smdx.smdx_point_types.get(ptype)
    if self.type is None:
        raise SunSpecError('Unknown point type: %s' % ptype)
    self.mandatory = smdx.smdx_mandatory_types.get(mandatory)
    if self.mandatory is None:
        raise SunSpecError('Unknown mandatory type: %s' % mandatory)
    self.access = smdx.smdx_access_types.get(access)
    if self.access is None:
        raise SunSpecError('Unknown access type: %s' % access)
    self.sf = attrib.get(smdx.SMDX_ATTR_SF)
    info = suns.suns_point_type_info.get(self.type)
    if info is None:
        return
    self.len, self.is_impl, self.data_to, self.to_data, self.to_value, self.value_default = info
    if plen is not None:
        self.len = int(plen)

def _symbol(self, e, strings):
    sid = e.attrib.get(smdx.SMDX_ATTR_ID)
    owner = self.block_type.model_type
    symbol = owner.symbol_get(sid=sid, point_id=self.id)
    if symbol is None:
        symbol = Symbol()
        symbol.from_smdx(e, strings)
        owner.symbol_add(symbol=symbol, point_id=self.id)
    if self.symbol_get(sid) is None:
        self.symbols.append(symbol)
    symbol.from_smdx(e, strings)
''')
rewrite('d2-ptype-symbol-get', DEV2, DV, PointType__symbol_get='''
def symbol_get(self, sid):
    return next((symbol for symbol in self.symbols if symbol.id == sid), None)
''')
rewrite('d2-ptype-not-equal', DEV2, DV, PointType__not_equal='''
def not_equal(self, point_type):
    if self == point_type:
        return False
    if point_type is None:
        return "PointType '%s' is None" % (str(self.id))
    mine = self.__dict__
    other = point_type.__dict__
    if len(mine) != len(other):
        return "PointType '%s' attribute count not equal: %d  %d" % (str(self.id), len(mine), len(other))
    for k in mine:
        if k == 'block_type':
            continue
        v = mine[k]
        value = other.get(k)
        if v is None or value is None or v == value:
            continue
        return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
    return False
''')
rewrite('d2-symbol-from-smdx', DEV2, DV, Symbol__from_smdx='''
def from_smdx(self, element, strings=False):
    if strings is False:
        self.id = element.attrib.get(smdx.SMDX_ATTR_ID)
        self.value = element.text
        if self.id is None:
            raise SunSpecError('Missing point id attribute')
    names = {smdx.SMDX_LABEL: 'label', smdx.SMDX_DESCRIPTION: 'description', smdx.SMDX_NOTES: 'notes'}
    for e in element.findall('*'):
        if e.tag in names:
            setattr(self, names[e.tag], e.text)
''')
rewrite('d2-symbol-eq', DEV2, DV, Symbol____eq__='''
def __eq__(self, symbol):
    if not isinstance(symbol, Symbol):
        return False
    return vars(self) == vars(symbol)
''', Symbol____ne__='''
def __ne__(self, symbol):
    if isinstance(symbol, Symbol):
        return self.__dict__ != symbol.__dict__
    return True
''')
rewrite('d2-pathlist', DEV2 + ',device.search_path', DV, fresh_file_pathlist='''
@contextlib.contextmanager
def fresh_file_pathlist(*paths):
    global file_pathlist
    previous, current = file_pathlist, util.PathList()
    file_pathlist = current
    for path in paths:
        current.add(fspath(path))
    try:
        yield current
    finally:
        file_pathlist = previous
''')
