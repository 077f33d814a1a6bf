DEV = 'device.*,block.*,point.*,sf.*,model.*,mtype.*,btype.*,ptype.*,symbol.*,model_type_get'
variant('dev-setdefault', DEV,
        (DV, """        models = self.models.get(model.id)
        if models is None:
            self.models[model.id] = []
            models = self.models.get(model.id)
        models.append(model)
        self.models_list.append(model)
""", """        self.models_list.append(model)
        self.models.setdefault(model.id, []).append(model)
"""))
variant('dev-in-dict', DEV,
        (DV, """        models = self.models.get(model.id)
        if models is None:
            self.models[model.id] = []
            models = self.models.get(model.id)
        models.append(model)
        self.models_list.append(model)
""", """        if model.id not in self.models:
            self.models[model.id] = []
        self.models[model.id].append(model)
        self.models_list.append(model)
"""))
variant('dev-getnew', DEV,
        (DV, """        models = self.models.get(model.id)
        if models is None:
            self.models[model.id] = []
            models = self.models.get(model.id)
        models.append(model)
        self.models_list.append(model)
""", """        models = self.models.get(model.id)
        if models is None:
            models = self.models[model.id] = []
        for target in (models, self.models_list):
            target.append(model)
"""))
variant('dev-try-keyerror', DEV,
        (DV, """        models = self.models.get(model.id)
        if models is None:
            self.models[model.id] = []
            models = self.models.get(model.id)
        models.append(model)
""", """        try:
            models = self.models[model.id]
        except KeyError:
            models = self.models[model.id] = []
        models.append(model)
"""))
variant('dev-pics-search', DEV,
        (DV, """                # try supplied path list
                if pathlist is not None:
                    try:
                        pics_data = pathlist.read(filename)
                    except NameError:
                        pass

                # try device file path list
                if not pics_data and file_pathlist is not None:
                    try:
                        pics_data = file_pathlist.read(filename)
                    except NameError:
                        pass

                # try local directory
                if not pics_data:
                    f = open(filename, 'r')
                    pics_data = f.read()
                    f.close()
""", """                for candidate in (pathlist, file_pathlist):
                    if not pics_data and candidate is not None:
                        try:
                            pics_data = candidate.read(filename)
                        except NameError:
                            pass

                # try local directory
                if not pics_data:
                    f = open(filename, 'r')
                    pics_data = f.read()
                    f.close()
"""))
variant('dev-pics-helper', DEV,
        (DV, """                # try supplied path list
                if pathlist is not None:
                    try:
                        pics_data = pathlist.read(filename)
                    except NameError:
                        pass

                # try device file path list
                if not pics_data and file_pathlist is not None:
                    try:
                        pics_data = file_pathlist.read(filename)
                    except NameError:
                        pass

""", """                pics_data = _read_from(pathlist, filename)
                if not pics_data:
                    pics_data = _read_from(file_pathlist, filename)

"""),
        (DV, """MAX_READ_COUNT = 125
""", """def _read_from(pathlist, filename):
    if pathlist is None:
        return ''
    try:
        return pathlist.read(filename)
    except NameError:
        return ''

MAX_READ_COUNT = 125
"""))
variant('dev-pics-root-helper', DEV,
        (DV, """                root = ET.fromstring(pics_data)
                if root.tag != pics.PICS_ROOT:
                    raise SunSpecError("Unexpected root element: %s" % (root.tag))

                d = root.find(pics.PICS_DEVICE)
                if d is None:
                    raise SunSpecError("No '{}' elements found in '{}' element".format(pics.PICS_DEVICE, root.tag))
""", """                d = self._pics_device(ET.fromstring(pics_data))
"""),
        (DV, """    def not_equal(self, device):
""", """    @staticmethod
    def _pics_device(root):
        if root.tag != pics.PICS_ROOT:
            raise SunSpecError("Unexpected root element: %s" % (root.tag))
        device = root.find(pics.PICS_DEVICE)
        if device is None:
            raise SunSpecError("No '{}' elements found in '{}' element".format(pics.PICS_DEVICE, root.tag))
        return device

    def not_equal(self, device):
"""))
variant('dev-pics-addr', DEV,
        (DV, """            addr = self.base_addr + 2

            for m in d.findall('*'):
                if m is None:
                    raise SunSpecError("No '{}' elements found in '{}' element".format(pics.PICS_MODEL, d.tag))
""", """            addr = self.base_addr + 4

            for m in d.findall('*'):
                if m is None:
                    raise SunSpecError("No '{}' elements found in '{}' element".format(pics.PICS_MODEL, d.tag))
"""), (DV, """                model = Model(self, model_id, addr + 2, model_len)
                try:
                    model.load()
                except Exception as e:
                    model.load_error = str(e)
                model.from_pics(m)
                self.add_model(model)

                addr += model.len + 2
""", """                model = Model(device=self, mid=model_id, addr=addr, mlen=model_len)
                try:
                    model.load()
                except Exception as exc:
                    model.load_error = str(exc)
                model.from_pics(m)
                self.add_model(model)

                addr = model.addr + model.len + 2
"""))
variant('dev-ne-zip', DEV,
        (DV, """        for i in range(len(self.models_list)):
            s = self.models_list[i].not_equal(device.models_list[i])
            if s:
                return 'Devices not equal - %s' % (s)
        return False
""", """        for mine, other in zip(self.models_list, device.models_list):
            s = mine.not_equal(other)
            if s:
                return 'Devices not equal - {}'.format(s)
        return False
"""),
        (DV, """        for i in range(len(self.blocks)):
            s = self.blocks[i].not_equal(model.blocks[i])
            if s:
""", """        for block, other in zip(self.blocks, model.blocks):
            s = block.not_equal(other)
            if s:
"""))
variant('dev-ne-enumerate', DEV,
        (DV, """        for i in range(len(self.models_list)):
            s = self.models_list[i].not_equal(device.models_list[i])
            if s:
                return 'Devices not equal - %s' % (s)
        return False
""", """        reason = False
        for i, mine in enumerate(self.models_list):
            reason = mine.not_equal(device.models_list[i])
            if reason:
                reason = 'Devices not equal - %s' % reason
                break
        return reason or False
"""))
variant('block-from-pics-or', DEV,
        (DV, """            pid = p.attrib.get(pics.PICS_ATTR_ID)
            point = self.points.get(pid)
            if point is None:
                point = self.points_sf.get(pid)
            if point is not None:
                point.from_pics(p)
""", """            point = self._find(p.attrib.get(pics.PICS_ATTR_ID))
            if point is not None:
                point.from_pics(p)
"""),
        (DV, """            point = self.points.get(pt.id)
            if point is None:
                point = self.points_sf.get(pt.id)
            if point is not None:
                point.to_pics(e)

    def not_equal(self, block):
""", """            point = self._find(pt.id)
            if point is not None:
                point.to_pics(e)

    def _find(self, pid):
        point = self.points.get(pid)
        return self.points_sf.get(pid) if point is None else point

    def not_equal(self, block):
"""))
variant('block-get-default', DEV,
        (DV, """            point = self.points.get(pt.id)
            if point is None:
                point = self.points_sf.get(pt.id)
            if point is not None:
                point.to_pics(e)
""", """            point = self.points.get(pt.id, self.points_sf.get(pt.id))
            if point is not None:
                point.to_pics(e)
"""))
variant('block-sf-comp', DEV,
        (DV, """        for point in self.points_list:
            if point.sf_point is not None:
                point.value_sf = point.sf_point.value_base
""", """        for point in [p for p in self.points_list if p.sf_point is not None]:
            point.value_sf = point.sf_point.value_base
"""))
variant('block-sf-continue', DEV,
        (DV, """        for point in self.points_list:
            if point.sf_point is not None:
                point.value_sf = point.sf_point.value_base
""", """        for point in self.points_list:
            sf_point = point.sf_point
            if sf_point is None:
                continue
            point.value_sf = sf_point.value_base
"""))
variant('block-topics-attr', DEV,
        (DV, """        attr = {}

        if self.index > 1:
            attr[pics.PICS_ATTR_INDEX] = str(self.index)

        if self.block_type.type == suns.SUNS_BLOCK_REPEATING:
            attr[pics.PICS_ATTR_TYPE] = pics.PICS_TYPE_REPEATING

        e = ET.SubElement(parent, pics.PICS_BLOCK, attrib=attr)
""", """        e = ET.SubElement(parent, pics.PICS_BLOCK)
        if self.block_type.type == suns.SUNS_BLOCK_REPEATING:
            e.set(pics.PICS_ATTR_TYPE, pics.PICS_TYPE_REPEATING)
        if self.index > 1:
            e.set(pics.PICS_ATTR_INDEX, str(self.index))
"""))
variant('block-ne-any', DEV,
        (DV, """        for point in self.points_list:
            s = point.not_equal(block.points.get(point.point_type.id))
            if s:
                return 'block %d not equal - %s' % (self.index, s)
        return False
""", """        reasons = (point.not_equal(block.points.get(point.point_type.id)) for point in self.points_list)
        reason = next((r for r in reasons if r), None)
        if reason is None:
            return False
        return 'block %d not equal - %s' % (self.index, reason)
"""))
variant('point-value-early', DEV,
        (DV, """        if self.value_sf and self.value_base is not None:
            return self.value_base * math.pow(10, self.value_sf)
        else:
            return self.value_base

    def value_setter""", """        if not self.value_sf or self.value_base is None:
            return self.value_base
        return self.value_base * math.pow(10, self.value_sf)

    def value_setter"""))
variant('point-value-factor', DEV,
        (DV, """        if self.value_sf:
            self.value_base = int(round(float(v) / math.pow(10, self.value_sf)))
        else:
            self.value_base = self.point_type.to_value(v)

        self.dirty = True
""", """        if self.value_sf:
            factor = math.pow(10, self.value_sf)
            value = int(round(float(v) / factor))
        else:
            value = self.point_type.to_value(v)
        self.value_base = value
        self.dirty = True
"""))
variant('point-value-decorator', DEV,
        (DV, """    def value_getter(self):

        if""", """    @property
    def value(self):

        if"""),
        (DV, """    def value_setter(self, v):

        if""", """    @value.setter
    def value(self, v):

        if"""),
        (DV, """    value = property(value_getter, value_setter, None)
""", """"""))
variant('point-impl-flat', DEV,
        (DV, """        impl = True
        impl_attr = element.attrib.get(pics.PICS_ATTR_IMPLEMENTED)
        if impl_attr:
            if impl_attr == pics.PICS_IMPLEMENTED_FALSE:
                impl = False

        value = None
        if impl:
            if element.text:
                value = self.point_type.to_value(element.text)
                self.impl = self.point_type.is_impl(value)
        else:
            self.impl = False

        if not self.impl:
            self.value_base = None
        elif value is not None:
            self.value_base = value
""", """        value = None
        if element.get(pics.PICS_ATTR_IMPLEMENTED) == pics.PICS_IMPLEMENTED_FALSE:
            self.impl = False
        elif element.text:
            value = self.point_type.to_value(element.text)
            self.impl = self.point_type.is_impl(value)

        if not self.impl:
            self.value_base = None
        elif value is not None:
            self.value_base = value
"""))
variant('point-access-next', DEV,
        (DV, """                access =  [key for key, value in pics.pics_access_types.items() if value == suns.SUNS_ACCESS_RW][0]
                attr[pics.PICS_ATTR_ACCESS] = str(access)
""", """                attr[pics.PICS_ATTR_ACCESS] = pics.PICS_ACCESS_RW
"""))
variant('point-access-elif', DEV,
        (DV, """        if self.value is None:
            attr[pics.PICS_ATTR_IMPLEMENTED] = str(pics.PICS_IMPLEMENTED_FALSE)
        else:
            if self.point_type.access != suns.SUNS_ACCESS_R:
                access =  [key for key, value in pics.pics_access_types.items() if value == suns.SUNS_ACCESS_RW][0]
                attr[pics.PICS_ATTR_ACCESS] = str(access)
""", """        if self.value is None:
            attr[pics.PICS_ATTR_IMPLEMENTED] = pics.PICS_IMPLEMENTED_FALSE
        elif self.point_type.access != suns.SUNS_ACCESS_R:
            access = next(key for key, value in pics.pics_access_types.items() if value == suns.SUNS_ACCESS_RW)
            attr[pics.PICS_ATTR_ACCESS] = access
"""))
variant('point-ne-helper', DEV,
        (DV, """        if (((self.value_base is not None or point.value_base is not None) and (self.value_base != point.value_base)) or
            ((self.value_sf is not None or point.value_sf is not None) and (self.value_sf != point.value_sf))):
            if self.value_base""", """        if self.value_base != point.value_base or self.value_sf != point.value_sf:
            if self.value_base"""))
variant('point-ne-tuple', DEV,
        (DV, """        if (((self.value_base is not None or point.value_base is not None) and (self.value_base != point.value_base)) or
            ((self.value_sf is not None or point.value_sf is not None) and (self.value_sf != point.value_sf))):
            if self.value_base""", """        mine, other = (self.value_base, self.value_sf), (point.value_base, point.value_sf)
        if mine != other:
            if self.value_base"""))
variant('model-load-sf-helper', DEV,
        (DV, """                for point in block.points_list:
                    if point.point_type.sf is not None and point.sf_point is None:
                        # check for constant scale factor
                        try:
                            sf_value = int(point.point_type.sf)
                            point.sf_point = ScaleFactor(sf_value)
                        except Exception:
                            pass
                        # try local repeating block first
                        if point.sf_point is None:
                            point.sf_point = block.points_sf.get(point.point_type.sf)
                        if point.sf_point is None:
                            # if repeating block, try fixed block
                            if index > 0:
                                point.sf_point = self.blocks[0].points_sf.get(point.point_type.sf)
                        if point.sf_point is None:
                            # ### what state should model be left in on exception
                            raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
                                (point.point_type.sf, point.point_type.id, self.id))
""", """                for point in block.points_list:
                    if point.point_type.sf is not None and point.sf_point is None:
                        self._resolve_sf(point, block, index)
"""),
        (DV, """    def from_pics(self, element):
        \"\"\" Sets the model contents""", """    def _resolve_sf(self, point, block, index):
        sf = point.point_type.sf
        # check for constant scale factor
        try:
            point.sf_point = ScaleFactor(int(sf))
        except Exception:
            pass
        # try local repeating block first
        if point.sf_point is None:
            point.sf_point = block.points_sf.get(sf)
        # if repeating block, try fixed block
        if point.sf_point is None and index > 0:
            point.sf_point = self.blocks[0].points_sf.get(sf)
        if point.sf_point is None:
            # ### what state should model be left in on exception
            raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
                (sf, point.point_type.id, self.id))

    def from_pics(self, element):
        \"\"\" Sets the model contents"""))
variant('model-load-sf-lookup', DEV,
        (DV, """                for point in block.points_list:
                    if point.point_type.sf is not None and point.sf_point is None:
                        # check for constant scale factor
                        try:
                            sf_value = int(point.point_type.sf)
                            point.sf_point = ScaleFactor(sf_value)
                        except Exception:
                            pass
                        # try local repeating block first
                        if point.sf_point is None:
                            point.sf_point = block.points_sf.get(point.point_type.sf)
                        if point.sf_point is None:
                            # if repeating block, try fixed block
                            if index > 0:
                                point.sf_point = self.blocks[0].points_sf.get(point.point_type.sf)
                        if point.sf_point is None:
                            # ### what state should model be left in on exception
                            raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
                                (point.point_type.sf, point.point_type.id, self.id))
""", """                for point in block.points_list:
                    sf = point.point_type.sf
                    if sf is None or point.sf_point is not None:
                        continue
                    try:
                        point.sf_point = ScaleFactor(int(sf))
                        continue
                    except Exception:
                        pass
                    found = block.points_sf.get(sf)
                    if found is None and index > 0:
                        found = self.blocks[0].points_sf.get(sf)
                    point.sf_point = found
                    if found is None:
                        raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
                            (sf, point.point_type.id, self.id))
"""))
variant('model-load-add-point', DEV,
        (DV, """                for point_type in block_type.points_list:
                    if point_type.type != suns.SUNS_TYPE_PAD:
                        point_addr = int(block_addr) + int(point_type.offset)
                        point = point_class(block=block, point_type=point_type, addr=str(point_addr))
                        if point_addr + point.point_type.len - last_read_addr > MAX_READ_COUNT:
                            last_read_addr = point_addr
                            self.read_blocks.append(last_read_addr)
                        if point_type.type == suns.SUNS_TYPE_SUNSSF:
                            block.points_sf[point_type.id] = point
                        else:
                            block.points_list.append(point)
                            block.points[point_type.id] = point
""", """                for point_type in block_type.points_list:
                    if point_type.type == suns.SUNS_TYPE_PAD:
                        continue
                    start = int(block_addr) + int(point_type.offset)
                    point = point_class(block=block, point_type=point_type, addr=str(start))
                    if start + point_type.len > self.read_blocks[-1] + MAX_READ_COUNT:
                        self.read_blocks.append(start)
                    if point_type.type != suns.SUNS_TYPE_SUNSSF:
                        block.points[point_type.id] = point
                        block.points_list.append(point)
                    else:
                        block.points_sf[point_type.id] = point
"""), (DV, """        last_read_addr = self.addr
        self.read_blocks.append(last_read_addr)
""", """        self.read_blocks.append(self.addr)
"""))
variant('model-load-loop-cond', DEV,
        (DV, """                block_addr += block_len
                block_type = self.model_type.repeating_block
                if block_type is None:
                    ### check for extra registers?
                    break
                index += 1
                block_len = int(block_type.len)
                if end_addr == block_end:
                    break
                if block_len <= 0:
                    raise SunSpecError""", """                block_addr = block_end
                block_type = self.model_type.repeating_block
                if block_type is None:
                    break
                block_len = int(block_type.len)
                if block_end == end_addr:
                    break
                index += 1
                if block_len <= 0:
                    raise SunSpecError"""))
variant('model-load-expose', DEV,
        (DV, """        try:
            self.points_list = self.blocks[0].points_list
            self.points = self.blocks[0].points
            self.points_sf = self.blocks[0].points_sf
        except IndexError:
            pass
""", """        if self.blocks:
            fixed = self.blocks[0]
            self.points_list = fixed.points_list
            self.points, self.points_sf = fixed.points, fixed.points_sf
"""))
variant('model-frompics-slice', DEV,
        (DV, """                if block_index is None:
                    if len(self.blocks) > 1:
                        for block in self.blocks[1:]:
                            block.from_pics(b)
                else:
                    block_index = int(block_index)
                    if not 0 < block_index < len(self.blocks):
                        raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                    self.blocks[block_index].from_pics(b)
""", """                if block_index is not None:
                    block_index = int(block_index)
                    if block_index <= 0 or block_index >= len(self.blocks):
                        raise SunSpecError('Block index out of range: {}'.format(block_index))
                    targets = [self.blocks[block_index]]
                else:
                    targets = self.blocks[1:]
                for block in targets:
                    block.from_pics(b)
"""))
variant('model-frompics-range', DEV,
        (DV, """                if block_index is None:
                    if len(self.blocks) > 1:
                        for block in self.blocks[1:]:
                            block.from_pics(b)
""", """                if block_index is None:
                    for i in range(1, len(self.blocks)):
                        self.blocks[i].from_pics(b)
"""))
variant('model-frompics-helper', DEV,
        (DV, """                block_index = b.attrib.get(pics.PICS_ATTR_INDEX)
                # if no index specified, apply to all repeating blocks
                if block_index is None:
                    if len(self.blocks) > 1:
                        for block in self.blocks[1:]:
                            block.from_pics(b)
                else:
                    block_index = int(block_index)
                    if not 0 < block_index < len(self.blocks):
                        raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                    self.blocks[block_index].from_pics(b)
""", """                for block in self._selected(b.attrib.get(pics.PICS_ATTR_INDEX)):
                    block.from_pics(b)
"""),
        (DV, """    def to_pics(self, parent, single_repeating=True):
        \"\"\" Adds the model""", """    def _selected(self, index):
        # if no index specified, apply to all repeating blocks
        if index is None:
            return self.blocks[1:]
        index = int(index)
        if not 0 < index < len(self.blocks):
            raise SunSpecError('Block index out of range: %s' % (str(index)))
        return [self.blocks[index]]

    def to_pics(self, parent, single_repeating=True):
        \"\"\" Adds the model"""))
variant('model-topics-filter', DEV,
        (DV, """        for block in self.blocks:
            if single_repeating == False or block.index <= 1:
                block.to_pics(e)
""", """        for block in self.blocks:
            if single_repeating != False and block.index > 1:
                continue
            block.to_pics(e)
"""))
variant('model-topics-comp', DEV,
        (DV, """        for block in self.blocks:
            if single_repeating == False or block.index <= 1:
                block.to_pics(e)
""", """        wanted = [block for block in self.blocks if single_repeating == False or block.index <= 1]
        for block in wanted:
            block.to_pics(e)
"""))
STR3 = """                    for e in m.findall('*'):
                        if e.tag == smdx.SMDX_LABEL:
                            self.label = e.text
                        elif e.tag == smdx.SMDX_DESCRIPTION:
                            self.description = e.text
                        elif e.tag == smdx.SMDX_NOTES:
                            self.notes = e.text
"""
variant('mtype-strings-helper', DEV,
        (DV, STR3, """                    for e in m.findall('*'):
                        _set_string(self, e)
"""),
        (DV, """        for e in element.findall('*'):
            if e.tag == smdx.SMDX_LABEL:
                self.label = e.text
            elif e.tag == smdx.SMDX_DESCRIPTION:
                self.description = e.text
            elif e.tag == smdx.SMDX_NOTES:
                self.notes = e.text

        if strings is False:
""", """        for e in element.findall('*'):
            _set_string(self, e)

        if strings is False:
"""),
        (DV, """class ModelType(object):
""", """def _set_string(target, element):
    if element.tag == smdx.SMDX_LABEL:
        target.label = element.text
    elif element.tag == smdx.SMDX_DESCRIPTION:
        target.description = element.text
    elif element.tag == smdx.SMDX_NOTES:
        target.notes = element.text

class ModelType(object):
"""))
variant('mtype-first-model', DEV,
        (DV, """        for m in element.findall(smdx.SMDX_MODEL):
            if True:
                self.id""", """        for m in element.findall(smdx.SMDX_MODEL)[:1]:
            if True:
                self.id"""),)
variant('mtype-block-helper', DEV,
        (DV, """                    if block.type == suns.SUNS_BLOCK_FIXED:
                        if self.fixed_block is None:
                            self.fixed_block = block
                        else:
                            raise SunSpecError('Duplicate fixed block type definition')
                    elif block.type == suns.SUNS_BLOCK_REPEATING:
                        if self.repeating_block is None:
                            self.repeating_block = block
                        else:
                            raise SunSpecError('Duplicate repeating block type definition')
""", """                    self._set_block(block)
"""),
        (DV, """    def symbol_add(self, symbol, point_id):
""", """    def _set_block(self, block):
        if block.type == suns.SUNS_BLOCK_FIXED:
            if self.fixed_block is not None:
                raise SunSpecError('Duplicate fixed block type definition')
            self.fixed_block = block
        elif block.type == suns.SUNS_BLOCK_REPEATING:
            if self.repeating_block is not None:
                raise SunSpecError('Duplicate repeating block type definition')
            self.repeating_block = block

    def symbol_add(self, symbol, point_id):
"""))
variant('mtype-point-lookup', DEV,
        (DV, """                    point_type = None
                    if self.fixed_block is not None:
                        point_type = self.fixed_block.points.get(pid)
                    if point_type is None and self.repeating_block is not None:
                        point_type = self.repeating_block.points.get(pid)
                    if point_type:
                        point_type.from_smdx(e, strings=True)
""", """                    point_type = None
                    for block in (self.fixed_block, self.repeating_block):
                        if point_type is None and block is not None:
                            point_type = block.points.get(pid)
                    if point_type:
                        point_type.from_smdx(e, True)
"""))
variant('mtype-point-break', DEV,
        (DV, """                    point_type = None
                    if self.fixed_block is not None:
                        point_type = self.fixed_block.points.get(pid)
                    if point_type is None and self.repeating_block is not None:
                        point_type = self.repeating_block.points.get(pid)
                    if point_type:
                        point_type.from_smdx(e, strings=True)
""", """                    for block in (self.fixed_block, self.repeating_block):
                        point_type = block.points.get(pid) if block is not None else None
                        if point_type is not None:
                            point_type.from_smdx(e, strings=True)
                            break
"""))
variant('mtype-ne-loop', DEV,
        (DV, """        if self.id != model_type.id:
            return "ModelType attribute 'id' not equal: {}  {}".format(str(self.id), str(model_type.id))
        if self.len != model_type.len:
            return "ModelType attribute 'len' not equal: {}  {}".format(str(self.len), str(model_type.len))
        if self.label != model_type.label:
            return "ModelType attribute 'label' not equal: {}  {}".format(str(self.label), str(model_type.label))
        if self.description != model_type.description:
            return "ModelType attribute 'description' not equal: {}  {}".format(str(self.description), str(model_type.description))
        if self.notes != model_type.notes:
            return "ModelType attribute 'notes' not equal: {}  {}".format(str(self.notes), str(model_type.notes))
""", """        for name in ('id', 'len', 'label', 'description', 'notes'):
            mine = getattr(self, name)
            other = getattr(model_type, name)
            if mine != other:
                return "ModelType attribute '{}' not equal: {}  {}".format(name, mine, other)
"""))
variant('mtype-ne-is', DEV,
        (DV, """        if self == model_type:
            return False

        if model_type is None:
            return "ModelType is None"
""", """        if model_type is None:
            return "ModelType is None"
        if self is model_type:
            return False
"""))
variant('btype-info-helper', DEV,
        (DV, """            if self.points.get(pt.id) is not None:
                ET.dump(e)
                raise SunSpecError('Duplicate point definition: %s' % (pt.id))

            self.points_list.append(pt)
            self.points[pt.id] = pt
""", """            if pt.id in self.points:
                ET.dump(e)
                raise SunSpecError('Duplicate point definition: {}'.format(pt.id))
            self.points[pt.id] = pt
            self.points_list.append(pt)
"""))
variant('btype-type-map', DEV,
        (DV, """        btype = element.attrib.get(smdx.SMDX_ATTR_TYPE, smdx.SMDX_ATTR_TYPE_FIXED)

        if btype != smdx.SMDX_ATTR_TYPE_FIXED and btype != smdx.SMDX_ATTR_TYPE_REPEATING:
            raise SunSpecError('Invalid block type')

        self.type = smdx.smdx_block_types.get(btype)
""", """        btype = element.get(smdx.SMDX_ATTR_TYPE, smdx.SMDX_ATTR_TYPE_FIXED)
        if btype not in smdx.smdx_block_types:
            raise SunSpecError('Invalid block type')
        self.type = smdx.smdx_block_types[btype]
"""))
variant('btype-ne-all', DEV,
        (DV, """        for k, v in self.points.items():
            value = block_type.points.get(k)
            not_equal =  v.not_equal(value)
            if not_equal:
                return not_equal

        return False
""", """        for k in self.points:
            not_equal = self.points[k].not_equal(block_type.points.get(k))
            if not_equal:
                return not_equal
        return False
"""))
variant('ptype-required', DEV,
        (DV, """            self.type = smdx.smdx_point_types.get(ptype)
            if self.type is None:
                raise SunSpecError('Unknown point type: %s' % ptype)
            self.mandatory = smdx.smdx_mandatory_types.get(mandatory)
            if self.mandatory is None:
                raise SunSpecError('Unknown mandatory type: %s' % mandatory)
            self.access = smdx.smdx_access_types.get(access)
            if self.access is None:
                raise SunSpecError('Unknown access type: %s' % access)
""", """            self.type = self._known('point', smdx.smdx_point_types, ptype)
            self.mandatory = self._known('mandatory', smdx.smdx_mandatory_types, mandatory)
            self.access = self._known('access', smdx.smdx_access_types, access)
"""),
        (DV, """    def symbol_get(self, sid):
""", """    @staticmethod
    def _known(what, table, key):
        value = table.get(key)
        if value is None:
            raise SunSpecError('Unknown %s type: %s' % (what, key))
        return value

    def symbol_get(self, sid):
"""))
variant('ptype-info-index', DEV,
        (DV, """                self.len, self.is_impl, self.data_to, self.to_data, self.to_value, self.value_default = info
                if plen is not None:
                    self.len = int(plen)
""", """                self.len = info[0] if plen is None else int(plen)
                self.is_impl = info[1]
                self.data_to = info[2]
                self.to_data = info[3]
                self.to_value = info[4]
                self.value_default = info[5]
"""))
variant('ptype-symbol-next', DEV,
        (DV, """        for symbol in self.symbols:
            if symbol.id == sid:
                return symbol
""", """        return next((symbol for symbol in self.symbols if symbol.id == sid), None)
"""))
variant('ptype-symbol-split', DEV,
        (DV, """            elif e.tag == smdx.SMDX_SYMBOL:
                sid = e.attrib.get(smdx.SMDX_ATTR_ID)
                symbol = self.block_type.model_type.symbol_get(
                    sid=sid,
                    point_id=self.id,
                )
                if symbol is None:
                    symbol = Symbol()
                    symbol.from_smdx(e, strings)
                    self.block_type.model_type.symbol_add(
                        symbol=symbol,
                        point_id=self.id,
                    )
                if self.symbol_get(sid) is None:
                    self.symbols.append(symbol)
                symbol.from_smdx(e, strings)
""", """            elif e.tag == smdx.SMDX_SYMBOL:
                self._symbol_from_smdx(e, strings)
"""),
        (DV, """    def symbol_get(self, sid):
""", """    def _symbol_from_smdx(self, element, strings):
        model_type = self.block_type.model_type
        sid = element.attrib.get(smdx.SMDX_ATTR_ID)
        symbol = model_type.symbol_get(sid, self.id)
        if symbol is None:
            symbol = Symbol()
            symbol.from_smdx(element, strings)
            model_type.symbol_add(symbol, self.id)
        if self.symbol_get(sid) is None:
            self.symbols.append(symbol)
        symbol.from_smdx(element, strings)

    def symbol_get(self, sid):
"""))
variant('ptype-ne-flat', DEV,
        (DV, """        for k, v in self.__dict__.items():
            if k != 'block_type':
                value = point_type.__dict__.get(k)
                if v is not None and value is not None:
                    if value is None or v != value:
                        return""", """        for k, v in self.__dict__.items():
            if k == 'block_type':
                continue
            value = point_type.__dict__.get(k)
            if v is not None and value is not None:
                if v != value:
                        return"""))
variant('symbol-eq', DEV,
        (DV, """        return isinstance(symbol, Symbol) and self.__dict__ == symbol.__dict__
""", """        if not isinstance(symbol, Symbol):
            return False
        return self.__dict__ == symbol.__dict__
"""))
variant('mtget-with', DEV,
        (DV, """                try:
                    f = open(filename, 'r')
                    smdx_data = f.read()
                    f.close()
                except Exception as e:
                    raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
""", """                try:
                    with open(filename) as f:
                        smdx_data = f.read()
                except Exception as e:
                    raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, e))
"""))
variant('mtget-read-helper', DEV,
        (DV, """        # check in file path list if set
        if file_pathlist is not None:
            try:
                smdx_data = file_pathlist.read(filename)
            except NameError:
                pass
""", """        smdx_data = _from_pathlist(filename)
"""),
        (DV, """def check_for_models(pathlist):
""", """def _from_pathlist(filename):
    if file_pathlist is not None:
        try:
            return file_pathlist.read(filename)
        except NameError:
            pass
    return ''

def check_for_models(pathlist):
"""))
variant('mtype-find2', DEV,
        (DV, """        for m in element.findall(smdx.SMDX_MODEL):
            if True:
                self.id = int""", """        m = element.find(smdx.SMDX_MODEL)
        if m is not None:
            if True:
                self.id = int"""),
        (DV, """                            raise SunSpecError('Duplicate repeating block type definition')
                break
            else:
                raise SunSpecError('Unexpected smdx element: %s' % m.tag)
""", """                            raise SunSpecError('Duplicate repeating block type definition')
"""))
variant('mtget-early2', DEV,
        (DV, """    model_type = model_types.get(str(model_id))
    if model_type is None:
        smdx_data = ''
""", """    model_type = model_types.get(str(model_id))
    if model_type is not None:
        return model_type

    if True:
        smdx_data = ''
"""))
variant('dev-pics-split', DEV,
        (DV, """        global file_pathlist

        pics_data = ''

        try:
            if element is None:
                # try supplied path list
""", """        try:
            self._from_pics(element, filename, pathlist)
        except Exception as e:
            raise SunSpecError('Error loading PICS: %s' % str(e))

    def _from_pics(self, element, filename, pathlist):
        global file_pathlist

        pics_data = ''

        if True:
            if element is None:
                # try supplied path list
"""),
        (DV, """                addr += model.len + 2

        except Exception as e:
            raise SunSpecError('Error loading PICS: %s' % str(e))

    \"\"\"
""", """                addr += model.len + 2

    \"\"\"
"""))
variant('model-load-guard', DEV,
        (DV, """        if self.model_type is not None:
            if self.len == 0:""", """        if self.model_type is None:
            raise SunSpecError('Unknown model type - id: %s' % str(self.id))
        else:
            if self.len == 0:"""),
        (DV, """                if block_len <= 0:
                    raise SunSpecError('Repeating block of model %s has no length' % (self.id))
        else:
            raise SunSpecError('Unknown model type - id: %s' % str(self.id))
""", """                if block_len <= 0:
                    raise SunSpecError('Repeating block of model %s has no length' % (self.id))
"""))
