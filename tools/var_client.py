CLI = 'cdev.*,cmodel.*,cblock.*,cpoint.*,view.*,bview.*,dev.*'

variant('cl-scan-helper', CLI,
        (CL, """        error = ''

        if self.base_addr is None:
            for addr in self.base_addr_list:
                # print('trying base address %s' % (addr))
                try:
                    data = self.read(addr, 3)
                    if data[:4] == b'SunS':
                        self.base_addr = addr
                        # print('device base address = %d' % self.base_addr)
                        break
                    else:
                        error = 'Device responded - not SunSpec register map'
                except SunSpecClientError as e:
                    if not error:
                        error = str(e)

                if delay is not None:
                    time.sleep(delay)
        else:
            data = self.read(self.base_addr, 3)
""", """        if self.base_addr is None:
            data, error = self._find_base(delay)
        else:
            data, error = self.read(self.base_addr, 3), ''
"""),
        (CL, """    def _scan(self, progress=None, delay=None):
""", """    def _find_base(self, delay):
        error = ''
        for addr in self.base_addr_list:
            try:
                data = self.read(addr, 3)
                if data[:4] == b'SunS':
                    self.base_addr = addr
                    return data, error
                error = 'Device responded - not SunSpec register map'
            except SunSpecClientError as e:
                error = error or str(e)
            if delay is not None:
                time.sleep(delay)
        return None, error

    def _scan(self, progress=None, delay=None):
"""))
variant('cl-scan-early-raise', CLI,
        (CL, """        if self.base_addr is not None:
            # print('base address = %s' % (self.base_addr))
            model_id = util.data_to_u16(data[4:6])
            addr = self.base_addr + 2

            while model_id""", """        if self.base_addr is None:
            raise SunSpecClientError(error or 'Unknown error')
        if True:
            # print('base address = %s' % (self.base_addr))
            model_id = util.data_to_u16(data[4:6])
            addr = self.base_addr + 2

            while model_id"""),
        (CL, """        else:
            if not error:
                error = 'Unknown error'
            raise SunSpecClientError(error)
""", ""))
variant('cl-walk-while-true', CLI,
        (CL, """            while model_id != suns.SUNS_END_MODEL_ID:
                # read""", """            while True:
                if model_id == suns.SUNS_END_MODEL_ID:
                    break
                # read"""))
variant('cl-walk-guard', CLI,
        (CL, """                data = self.read(addr + 1, 1)
                if data and len(data) == 2:
                    if progress is not None:
                        cont = progress('Scanning model %s' % (model_id))
                        if not cont:
                            raise SunSpecClientError('Device scan terminated')
                    model_len = util.data_to_u16(data)
                    # print('model_id = %s  model_len = %s' % (model_id, model_len))

                    # move address past model id and length
                    model = ClientModel(self, model_id, addr + 2, model_len)
                    # print('loading model %s at %d' % (model_id, addr + 2))
                    try:
                        model.load()
                    except Exception as e:
                        model.load_error = str(e)
                    self.add_model(model)

                    addr += model_len + 2
                    data = self.read(addr, 1)
                    if data and len(data) == 2:
                        model_id = util.data_to_u16(data)
                    else:
                        break
                else:
                    break
""", """                data = self.read(addr + 1, 1)
                if not data or len(data) != 2:
                    break
                if progress is not None and not progress('Scanning model %s' % (model_id)):
                    raise SunSpecClientError('Device scan terminated')
                model_len = util.data_to_u16(data)
                start = addr + 2
                self._load_model(model_id, start, model_len)

                addr = start + model_len
                data = self.read(addr, 1)
                if not (data and len(data) == 2):
                    break
                model_id = util.data_to_u16(data)
"""),
        (CL, """    def _scan(self, progress=None, delay=None):
""", """    def _load_model(self, model_id, addr, model_len):
        model = ClientModel(self, model_id, addr, model_len)
        try:
            model.load()
        except Exception as e:
            model.load_error = str(e)
        self.add_model(model)

    def _scan(self, progress=None, delay=None):
"""))
variant('cl-walk-word', CLI,
        (CL, """                data = self.read(addr + 1, 1)
                if data and len(data) == 2:
                    if progress""", """                model_len = self._word(addr + 1)
                if model_len is not None:
                    if progress"""),
        (CL, """                    model_len = util.data_to_u16(data)
                    # print('model_id = ""","""                    # print('model_id = """),
        (CL, """                    data = self.read(addr, 1)
                    if data and len(data) == 2:
                        model_id = util.data_to_u16(data)
                    else:
                        break
""", """                    model_id = self._word(addr)
                    if model_id is None:
                        break
"""),
        (CL, """    def _scan(self, progress=None, delay=None):
""", """    def _word(self, addr):
        data = self.read(addr, 1)
        if data and len(data) == 2:
            return util.data_to_u16(data)
        return None

    def _scan(self, progress=None, delay=None):
"""))
variant('cl-walk-split', CLI,
        (CL, """        if self.base_addr is not None:
            # print('base address = %s' % (self.base_addr))
            model_id""", """        if self.base_addr is not None:
            self._walk(data, progress, delay)
        else:
            if not error:
                error = 'Unknown error'
            raise SunSpecClientError(error)

    def _walk(self, data, progress, delay):
        if True:
            # print('base address = %s' % (self.base_addr))
            model_id"""),
        (CL, """                if delay is not None:
                    time.sleep(delay)

        else:
            if not error:
                error = 'Unknown error'
            raise SunSpecClientError(error)
""", """                if delay is not None:
                    time.sleep(delay)
"""))
variant('cl-scan-connect', CLI,
        (CL, """        connect = False
        if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
            try:
                self.modbus_device.connect()
            except modbus.ModbusClientError as e:
                raise SunSpecClientError('Modbus error: %s' % str(e))
            connect = True

            if delay""", """        connect = type(self.modbus_device) is modbus.ModbusClientDeviceTCP
        if connect:
            try:
                self.modbus_device.connect()
            except modbus.ModbusClientError as e:
                raise SunSpecClientError('Modbus error: %s' % str(e))

            if delay"""))
variant('cl-scan-split', CLI,
        (CL, """        connect = False
        if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
            try:
                self.modbus_device.connect()
            except modbus.ModbusClientError as e:
                raise SunSpecClientError('Modbus error: %s' % str(e))
            connect = True

            if delay is not None:
                time.sleep(delay)

        try:
            self._scan(progress, delay)
        finally:
            if connect:
                self.modbus_device.disconnect()
""", """        dev = self.modbus_device
        if not isinstance(dev, modbus.ModbusClientDeviceTCP):
            return self._scan(progress, delay)

        try:
            dev.connect()
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus error: %s' % str(e))

        if delay is not None:
            time.sleep(delay)

        try:
            self._scan(progress, delay)
        finally:
            dev.disconnect()
"""))
variant('cl-base-for-else', CLI,
        (CL, """                    if data[:4] == b'SunS':
                        self.base_addr = addr
                        # print('device base address = %d' % self.base_addr)
                        break
                    else:
                        error = 'Device responded - not SunSpec register map'
                except""", """                    if data.startswith(b'SunS'):
                        self.base_addr = addr
                        break
                    error = 'Device responded - not SunSpec register map'
                except"""))
variant('cl-read-guard', CLI,
        (CL, """        try:
            if self.modbus_device is not None:
                return self.modbus_device.read(addr, count)
            else:
                raise SunSpecClientError('No modbus device set for SunSpec device')
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus read error: %s' % str(e))
""", """        if self.modbus_device is None:
            raise SunSpecClientError('No modbus device set for SunSpec device')
        try:
            data = self.modbus_device.read(addr, count)
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus read error: %s' % e)
        return data
"""), (CL, """        try:
            if self.modbus_device is not None:
                return self.modbus_device.write(addr, data)
            else:
                raise SunSpecClientError('No modbus device set for SunSpec device')
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus write error: %s' % str(e))
""", """        if self.modbus_device is None:
            raise SunSpecClientError('No modbus device set for SunSpec device')
        try:
            return self.modbus_device.write(addr, data)
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus write error: {}'.format(e))
"""))
variant('cl-access-helper', CLI,
        (CL, """        try:
            if self.modbus_device is not None:
                return self.modbus_device.read(addr, count)
            else:
                raise SunSpecClientError('No modbus device set for SunSpec device')
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus read error: %s' % str(e))
""", """        return self._access('read', lambda dev: dev.read(addr, count))
"""), (CL, """        try:
            if self.modbus_device is not None:
                return self.modbus_device.write(addr, data)
            else:
                raise SunSpecClientError('No modbus device set for SunSpec device')
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus write error: %s' % str(e))
""", """        return self._access('write', lambda dev: dev.write(addr, data))

    def _access(self, what, operation):
        if self.modbus_device is None:
            raise SunSpecClientError('No modbus device set for SunSpec device')
        try:
            return operation(self.modbus_device)
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus %s error: %s' % (what, str(e)))
"""))
variant('cl-init-kw', CLI,
        (CL, """                self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
""", """                self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate=baudrate, parity=parity, timeout=timeout, ctx=self, trace_func=trace)
"""), (CL, """                if name is not None:
                    self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
                else:
                    if self.modbus_device is not None:
                        self.modbus_device.close()
                    raise SunSpecClientError('Map file required for mapped device')
        except modbus.ModbusClientError as e:
            if self.modbus_device is not None:
                self.modbus_device.close()
            raise SunSpecClientError('Modbus error: %s' % str(e))
""", """                if name is None:
                    raise SunSpecClientError('Map file required for mapped device')
                self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus error: %s' % str(e))
"""))
variant('cl-init-make', CLI,
        (CL, """        try:
            if device_type == RTU:
                self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
            elif device_type == TCP:
                self.modbus_device = modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout, self, trace, tls, cafile, certfile, keyfile, insecure_skip_tls_verify)
            elif device_type == MAPPED:
                if name is not None:
                    self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
                else:
                    if self.modbus_device is not None:
                        self.modbus_device.close()
                    raise SunSpecClientError('Map file required for mapped device')
        except modbus.ModbusClientError as e:
            if self.modbus_device is not None:
                self.modbus_device.close()
            raise SunSpecClientError('Modbus error: %s' % str(e))
""", """        if device_type == MAPPED and name is None:
            raise SunSpecClientError('Map file required for mapped device')

        makers = {
            RTU: lambda: modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace),
            TCP: lambda: modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout, self, trace, tls, cafile, certfile, keyfile, insecure_skip_tls_verify),
            MAPPED: lambda: modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self),
        }
        make = makers.get(device_type)
        try:
            if make is not None:
                self.modbus_device = make()
        except modbus.ModbusClientError as e:
            raise SunSpecClientError('Modbus error: %s' % str(e))
"""))
variant('cl-rp-chunks', CLI,
        (CL, """                end_index = len(self.read_blocks)
                if end_index == 1:
                    data = self.device.read(self.addr, self.len)
                else:
                    data = b''
                    index = 0
                    while index < end_index:
                        addr = self.read_blocks[index]
                        index += 1
                        if index < end_index:
                            read_len = self.read_blocks[index] - addr
                        else:
                            read_len = self.addr + self.len - addr
                        data += self.device.read(addr, read_len)
""", """                if len(self.read_blocks) == 1:
                    data = self.device.read(self.addr, self.len)
                else:
                    data = b''
                    end_addr = self.addr + self.len
                    for i, addr in enumerate(self.read_blocks):
                        if i + 1 < len(self.read_blocks):
                            next_addr = self.read_blocks[i + 1]
                        else:
                            next_addr = end_addr
                        data += self.device.read(addr, next_addr - addr)
"""))
variant('cl-rp-zip', CLI,
        (CL, """                end_index = len(self.read_blocks)
                if end_index == 1:
                    data = self.device.read(self.addr, self.len)
                else:
                    data = b''
                    index = 0
                    while index < end_index:
                        addr = self.read_blocks[index]
                        index += 1
                        if index < end_index:
                            read_len = self.read_blocks[index] - addr
                        else:
                            read_len = self.addr + self.len - addr
                        data += self.device.read(addr, read_len)
""", """                if len(self.read_blocks) == 1:
                    data = self.device.read(self.addr, self.len)
                else:
                    data = b''
                    ends = self.read_blocks[1:] + [self.addr + self.len]
                    for start, end in zip(self.read_blocks, ends):
                        data += self.device.read(start, end - start)
"""))
variant('cl-rp-helper', CLI,
        (CL, """                end_index = len(self.read_blocks)
                if end_index == 1:
                    data = self.device.read(self.addr, self.len)
                else:
                    data = b''
                    index = 0
                    while index < end_index:
                        addr = self.read_blocks[index]
                        index += 1
                        if index < end_index:
                            read_len = self.read_blocks[index] - addr
                        else:
                            read_len = self.addr + self.len - addr
                        data += self.device.read(addr, read_len)
                if""", """                data = self._read_registers()
                if"""),
        (CL, """    def write_points(self):
""", """    def _read_registers(self):
        count = len(self.read_blocks)
        if count == 1:
            return self.device.read(self.addr, self.len)
        parts = []
        for n in range(count):
            first = self.read_blocks[n]
            last = self.read_blocks[n + 1] if n < count - 1 else self.addr + self.len
            parts.append(self.device.read(first, last - first))
        return b''.join(parts)

    def write_points(self):
"""))
variant('cl-rp-point-helper', CLI,
        (CL, """                        for pname, point in block.points_sf.items():
                            offset = int(point.addr) - int(self.addr)
                            if point.point_type.data_to is not None:
                                byte_offset = offset * 2
                                # print(pname, point, offset, byte_offset, (byte_offset + (int(point.point_type.len) * 2)), point.point_type.len)
                                point.value_base = point.point_type.data_to(data[byte_offset:byte_offset + (int(point.point_type.len) * 2)])
                                if not point.point_type.is_impl(point.value_base):
                                    point.value_base = None
                            else:
                                raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
""", """                        for pname, point in block.points_sf.items():
                            value = self._decode(pname, point, data)
                            if not point.point_type.is_impl(value):
                                value = None
                            point.value_base = value
"""),
        (CL, """                            offset = int(point.addr) - int(self.addr)
                            if point.point_type.data_to is not None:
                                byte_offset = offset * 2
                                # print(pname, point, offset, byte_offset, (byte_offset + (int(point.point_type.len) * 2)), point.point_type.len)
                                point.value_base = point.point_type.data_to(data[byte_offset:byte_offset + (int(point.point_type.len) * 2)])
                                if (type(point.value_base) == bytes and
                                        sys.version_info > (3,)):
                                    point.value_base = str(point.value_base, 'latin-1')
                                if point.point_type.is_impl(point.value_base):
                                    if point.sf_point is not None:
                                        point.value_sf = point.sf_point.value_base
                                else:
                                    point.value_base = None
                                    point.value_sf = None
                            else:
                                raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
""", """                            value = self._decode(pname, point, data)
                            if isinstance(value, bytes):
                                value = value.decode('latin-1')
                            if not point.point_type.is_impl(value):
                                point.value_base = point.value_sf = None
                                continue
                            point.value_base = value
                            if point.sf_point is not None:
                                point.value_sf = point.sf_point.value_base
"""),
        (CL, """    def write_points(self):
""", """    def _decode(self, name, point, data):
        point_type = point.point_type
        if point_type.data_to is None:
            raise SunSpecClientError('No data_to function set for {} : {}'.format(name, point_type))
        start = (int(point.addr) - int(self.addr)) * 2
        return point_type.data_to(data[start:start + int(point_type.len) * 2])

    def write_points(self):
"""))
variant('cl-rp-guard', CLI,
        (CL, """                if data is not None:
                    # print('data len = ', len(data))
                    data_len = len(data)/2
                    if data_len != self.len:
                        raise""", """                if data is not None:
                    # print('data len = ', len(data))
                    if len(data) != self.len * 2:
                        raise"""))
variant('cl-rp-noexc', CLI,
        (CL, """            except modbus.ModbusClientError as e:
                raise SunSpecClientError('Modbus error: %s' % str(e))
            except:
                raise

    def write_points""", """            except modbus.ModbusClientError as e:
                raise SunSpecClientError('Modbus error: %s' % e)

    def write_points"""))
variant('cl-wp-flush', CLI,
        (CL, """                    else:
                        if point_addr != next_addr:
                            block.model.device.write(addr, data)
                            for written in pending:
                                written.dirty = False
                            pending = []
                            addr = point_addr
                            data = b''
""", """                    elif point_addr != next_addr:
                        self._flush(block, addr, data, pending)
                        pending = []
                        addr = point_addr
                        data = b''
"""), (CL, """            if addr is not None:
                block.model.device.write(addr, data)
                for written in pending:
                    written.dirty = False
                pending = []
                addr = None
""", """            if addr is not None:
                self._flush(block, addr, data, pending)
                pending = []
                addr = None

    @staticmethod
    def _flush(block, addr, data, pending):
        block.model.device.write(addr, data)
        for written in pending:
            written.dirty = False
"""))
variant('cl-wp-continue', CLI,
        (CL, """                if point.dirty:
                    point_addr = int(point.addr)
                    point_len = int(point.point_type.len)
                    point_data = point.point_type.to_data(point.value_base, (point_len * 2))
                    if addr is None:
                        addr = point_addr
                        data = b''
                    else:
                        if point_addr != next_addr:
                            block.model.device.write(addr, data)
                            for written in pending:
                                written.dirty = False
                            pending = []
                            addr = point_addr
                            data = b''
                    next_addr = point_addr + point_len
                    data += point_data
                    pending.append(point)
""", """                if not point.dirty:
                    continue
                point_addr = int(point.addr)
                point_len = int(point.point_type.len)
                point_data = point.point_type.to_data(point.value_base, 2 * point_len)
                if addr is not None and point_addr != next_addr:
                    block.model.device.write(addr, data)
                    for written in pending:
                        written.dirty = False
                    pending = []
                    addr = None
                if addr is None:
                    addr = point_addr
                    data = b''
                next_addr = point_addr + point_len
                data += point_data
                pending.append(point)
"""))
variant('cl-wp-dirtylist', CLI,
        (CL, """            for point in block.points_list:
                if point.dirty:
                    point_addr""", """            for point in [p for p in block.points_list if p.dirty]:
                if True:
                    point_addr"""))
variant('cl-point-write', CLI,
        (CL, """        data = self.point_type.to_data(self.value_base, (int(self.point_type.len) * 2))
        self.block.model.device.write(int(self.addr), data)
        self.dirty = False
""", """        size = 2 * int(self.point_type.len)
        device = self.block.model.device
        device.write(int(self.addr), self.point_type.to_data(self.value_base, size))
        self.dirty = False
"""))
variant('cl-super', CLI,
        (CL, "        device.Model.__init__(self, device=dev, mid=mid, addr=addr, mlen=mlen, index=index)\n",
         "        super(ClientModel, self).__init__(dev, mid, addr, mlen, index)\n"),
        (CL, "        device.Model.load(self, block_class=ClientBlock, point_class=ClientPoint)\n",
         "        super(ClientModel, self).load(block_class=ClientBlock, point_class=ClientPoint)\n"),
        (CL, "        device.Block.__init__(self, model, addr, blen, block_type, index)\n",
         "        super().__init__(model, addr, blen, block_type, index)\n"),
        (CL, "        device.Point.__init__(self, block, point_type, addr, sf_point, value)\n",
         "        super().__init__(block=block, point_type=point_type, addr=addr, sf_point=sf_point, value=value)\n"))
variant('cl-view-common', CLI,
        (CL, """    def _get_property(self, name):
        point = self.model.points.get(name)
        if point:
            return point.value

    def _set_property(self, name, value):
        point = self.model.points.get(name)
        if point:
            point.value = value
""", """    def _get_property(self, name):
        point = self.model.points.get(name)
        return None if point is None else point.value

    def _set_property(self, name, value):
        if name in self.model.points:
            self.model.points[name].value = value
"""),
        (CL, """    def _get_property(self, name):
        point = self.block.points.get(name)
        if point:
            return point.value

    def _set_property(self, name, value):
        point = self.block.points.get(name)
        if point:
            point.value = value
""", """    def _get_property(self, name):
        return point_value_get(self.block.points, name)

    def _set_property(self, name, value):
        point_value_set(self.block.points, name, value)
"""), (CL, """class SunSpecClientModelBase(object):
""", """def point_value_get(points, name):
    point = points.get(name)
    if point is not None:
        return point.value
    return None

def point_value_set(points, name, value):
    point = points.get(name)
    if point is None:
        return
    point.value = value

class SunSpecClientModelBase(object):
"""))
variant('cl-view-base', CLI,
        (CL, """    def _get_property(self, name):
        point = self.block.points.get(name)
        if point:
            return point.value

    def _set_property(self, name, value):
        point = self.block.points.get(name)
        if point:
            point.value = value

    def __getitem__(self, name):
        return self._get_property(name)
        # return self.__dict__.get(name, None)

    def __setitem__(self, name, item):
        return self._set_property(name, item)
        # self.__dict__.set(name, item)

""", ""),
        (CL, """    def _get_property(self, name):
        point = self.model.points.get(name)
        if point:
            return point.value

    def _set_property(self, name, value):
        point = self.model.points.get(name)
        if point:
            point.value = value

    def __getitem__(self, name):
        return self._get_property(name)
        # return self.__dict__.get(name, None)

    def __setitem__(self, name, item):
        return self._set_property(name, item)
        # self.__dict__.set(name, item)

""", """    def _points(self):
        return self.model.points

"""), (CL, """class SunSpecClientModelBase(object):
""", """class _PointView(object):

    def _get_property(self, name):
        point = self._points().get(name)
        if point:
            return point.value

    def _set_property(self, name, value):
        point = self._points().get(name)
        if point:
            point.value = value

    def __getitem__(self, name):
        return self._get_property(name)

    def __setitem__(self, name, item):
        return self._set_property(name, item)

class SunSpecClientModelBase(_PointView):
"""), (CL, "class SunSpecClientBlockBase(object):", "class SunSpecClientBlockBase(_PointView):"),
        (CL, """        self.block = block
        self.name = name

""", """        self.block = block
        self.name = name

    def _points(self):
        return self.block.points

"""))
variant('cl-view-init', CLI,
        (CL, """        if len(model.blocks) > 1:
            block_class_name = self.__class__.__name__ + 'Repeating'
            for block in model.blocks[1:]:
                # set repeating block name and attribute if present
                if block.block_type.name != self.repeating_name:
                    self.repeating_name = block.block_type.name
                    setattr(self, self.repeating_name, self.repeating)
                # block_class_ = globals().get(block_class_name)
                block_class = globals().get(block_class_name)
                c = block_class(block, self.repeating_name)
                self.repeating.append(c)
""", """        block_class = globals().get(type(self).__name__ + 'Repeating')
        for block in model.blocks[1:]:
            # set repeating block name and attribute if present
            block_name = block.block_type.name
            if block_name != self.repeating_name:
                self.repeating_name = block_name
                setattr(self, block_name, self.repeating)
            self.repeating.append(block_class(block, self.repeating_name))
"""))
variant('cl-dev-attach', CLI,
        (CL, """                model_class = c(model, name)
                existing = getattr(self, name, None)
                # if model id already defined
                if existing:
                    # if model id definition is not a list, turn it into a list and add existing model
                    if type(self[name]) is not list:
                        # model instance index starts at 1 so first first list element is None
                        setattr(self, name, [None])
                        self[name].append(existing)
                    # add new model to the list
                    self[name].append(model_class)
                # if first model id instance, set attribute as model
                else:
                    setattr(self, name, model_class)
                    self.models.append(name)
""", """                self._attach(name, c(model, name))
"""), (CL, """    def close(self):
        \"\"\"Release resources""", """    def _attach(self, name, model_class):
        existing = getattr(self, name, None)
        if not existing:
            # first instance of the model
            setattr(self, name, model_class)
            self.models.append(name)
            return
        if type(self[name]) is not list:
            # instances are counted from 1
            setattr(self, name, [None])
            self[name].append(existing)
        self[name].append(model_class)

    def close(self):
        \"\"\"Release resources"""))
variant('cl-dev-list', CLI,
        (CL, """                    if type(self[name]) is not list:
                        # model instance index starts at 1 so first first list element is None
                        setattr(self, name, [None])
                        self[name].append(existing)
                    # add new model to the list
                    self[name].append(model_class)
""", """                    if not isinstance(existing, list):
                        # model instance index starts at 1 so first first list element is None
                        existing = [None, existing]
                        setattr(self, name, existing)
                    # add new model to the list
                    existing.append(model_class)
"""))
variant('cl-dev-name', CLI,
        (CL, """                if model.model_type is not None:
                    name = model.model_type.name
                else:
                    name = 'model_' + model_id
""", """                name = model.model_type.name if model.model_type is not None else 'model_%s' % model_id
"""), (CL, """        except Exception as e:
            if self.device is not None:
                self.device.close()
            raise

    def close""", """        except Exception:
            self.device.close()
            raise

    def close"""))
variant('cl-str-join', CLI,
        (CL, """        s = ''
        for model in self.models:
            s += str(self[model])

        return s
""", """        return ''.join(str(self[name]) for name in self.models)
"""))

LOOP1 = """        for point_type in model_type.fixed_block.points_list:
            if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
                add_property(class_, point_type.id, None)
                class_.points.append(point_type.id)
            ### check for writable point?
"""
LOOP2 = """            setattr(block_class, 'points', [])
            for point_type in block_type.points_list:
                if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
                    add_property(block_class, point_type.id, None)
                    block_class.points.append(point_type.id)
"""
variant('cl-class-helper', 'class_get',
        (CL, LOOP1, "        add_points(class_, model_type.fixed_block.points_list)\n"),
        (CL, LOOP2, "            setattr(block_class, 'points', [])\n            add_points(block_class, block_type.points_list)\n"),
        (CL, """    def class_init(self, model, name):
        SunSpec""", """    def add_points(cls, points_list):
        for point_type in points_list:
            if point_type.type not in (suns.SUNS_TYPE_SUNSSF, suns.SUNS_TYPE_PAD):
                add_property(cls, point_type.id, None)
                cls.points.append(point_type.id)

    def class_init(self, model, name):
        SunSpec"""))
variant('cl-class-noinit', 'class_get',
        (CL, """    def class_init(self, model, name):
        SunSpecClientModelBase.__init__(self, model, name)

    def block_class_init(self, block, name):
        SunSpecClientBlockBase.__init__(self, block, name)

""", ""), (CL, "{'__init__' : class_init}", "{}"), (CL, "{'__init__' : block_class_init}", "{}"))
variant('cl-class-dict', 'class_get',
        (CL, """{'__init__' : block_class_init})
            globals()[block_class_name] = block_class

            setattr(block_class, 'points', [])
""", """{'__init__' : block_class_init, 'points': []})
            globals()[block_class_name] = block_class
"""))
variant('cl-class-defaults', 'class_get',
        (CL, """                add_property(class_, point_type.id, None)
                class_.points""", """                prop = property(lambda self, n=point_type.id: self._get_property(n), lambda self, value, n=point_type.id: self._set_property(n, value))
                setattr(class_, point_type.id, prop)
                class_.points"""))
variant('cl-class-def', 'class_get',
        (CL, """        fget = lambda self: self._get_property(name)
        fset = lambda self, value: self._set_property(name, value)
        setattr(self, name, property(fget, fset))
""", """        def fget(obj):
            return obj._get_property(name)

        def fset(obj, value):
            obj._set_property(name, value)
        setattr(self, name, property(fget=fget, fset=fset))
"""))
variant('cl-class-comp', 'class_get',
        (CL, LOOP2, """            block_class.points = [p.id for p in block_type.points_list if p.type != suns.SUNS_TYPE_SUNSSF and p.type != suns.SUNS_TYPE_PAD]
            for point_id in block_class.points:
                add_property(block_class, point_id, None)
"""))
variant('cl-class-continue', 'class_get',
        (CL, LOOP1, """        for point_type in model_type.fixed_block.points_list:
            if point_type.type == suns.SUNS_TYPE_SUNSSF or point_type.type == suns.SUNS_TYPE_PAD:
                continue
            point_id = point_type.id
            class_.points.append(point_id)
            add_property(class_, point_id, None)
"""))
variant('cl-class-early', 'class_get',
        (CL, """    if model_type is not None:
        for point_type in model_type.fixed""", """    if model_type is None:
        return class_
    if True:
        for point_type in model_type.fixed"""))
# bugs
variant('BUG-class-late', 'class_get',
        (CL, """                add_property(class_, point_type.id, None)
                class_.points""", """                setattr(class_, point_type.id, property(lambda self: self._get_property(point_type.id), lambda self, value: self._set_property(point_type.id, value)))
                class_.points"""))
variant('BUG-class-order', 'class_get', (CL, "            block_class_name = class_name + 'Repeating'\n", "            block_class_name = class_name + 'Block'\n"))
