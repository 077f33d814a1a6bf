"""Reference model: the SunSpec client (never executed, only analysed)."""
import sys
import time

import sunspec.core.client as client
import sunspec.core.device as device
import sunspec.core.modbus.client as modbus
import sunspec.core.suns as suns
import sunspec.core.util as util

END = 0xffff


def device_init(self, device_type, slave_id=None, name=None, pathlist=None, baudrate=None, parity=None, ipaddr=None, ipport=None,
                tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False):
    self.base_addr = None
    self.models_list = []
    self.models = {}
    self.type = device_type
    self.name = name
    self.pathlist = pathlist
    self.slave_id = slave_id
    self.retry_count = 2
    self.base_addr_list = [40000, 0, 50000]
    self.modbus_device = None
    try:
        if device_type == 'RTU':
            self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
        elif device_type == 'TCP':
            self.modbus_device = modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout, self, trace, tls, cafile, certfile, keyfile,
                                                              insecure_skip_tls_verify)
        elif device_type == 'Mapped':
            if name is None:
                raise client.SunSpecClientError('')
            self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
    except modbus.ModbusClientError as e:
        raise client.SunSpecClientError('Modbus error: %s' % str(e))


def device_close(self):
    if self.modbus_device is not None:
        self.modbus_device.close()


def device_read(self, addr, count):
    if self.modbus_device is None:
        raise client.SunSpecClientError('')
    try:
        return self.modbus_device.read(addr, count)
    except modbus.ModbusClientError as e:
        raise client.SunSpecClientError('%s' % str(e))


def device_write(self, addr, data):
    if self.modbus_device is None:
        raise client.SunSpecClientError('')
    try:
        return self.modbus_device.write(addr, data)
    except modbus.ModbusClientError as e:
        raise client.SunSpecClientError('%s' % str(e))


def device_read_points(self):
    for model in self.models_list:
        model.read_points()


def device_scan(self, progress=None, delay=None):
    keep = False
    if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
        try:
            self.modbus_device.connect()
        except modbus.ModbusClientError as e:
            raise client.SunSpecClientError('%s' % str(e))
        keep = True
        if delay is not None:
            time.sleep(delay)
    try:
        self._scan(progress, delay)
    finally:
        if keep:
            self.modbus_device.disconnect()


def device_walk(self, progress=None, delay=None):
    why = ''
    if self.base_addr is not None:
        data = self.read(self.base_addr, 3)
    else:
        for addr in self.base_addr_list:
            try:
                data = self.read(addr, 3)
                if data[:4] == b'SunS':
                    self.base_addr = addr
                    break
                why = 'x'
            except client.SunSpecClientError as e:
                if not why:
                    why = str(e)
            if delay is not None:
                time.sleep(delay)
    if self.base_addr is None:
        raise client.SunSpecClientError('')
    at = self.base_addr + 2
    mid = util.data_to_u16(data[4:6])
    while mid != END:
        data = self.read(at + 1, 1)
        if not data or len(data) != 2:
            break
        if progress is not None:
            if not progress('Scanning model %s' % (mid)):
                raise client.SunSpecClientError('')
        size = util.data_to_u16(data)
        model = client.ClientModel(self, mid, at + 2, size)
        try:
            model.load()
        except Exception as e:
            model.load_error = str(e)
        self.add_model(model)
        at += size + 2
        data = self.read(at, 1)
        if not data or len(data) != 2:
            break
        mid = util.data_to_u16(data)
        if delay is not None:
            time.sleep(delay)


def model_init(self, dev=None, mid=None, addr=0, mlen=None, index=1):
    self.id = int(mid)
    self.len = int(mlen)
    self.device = dev
    self.addr = addr
    self.index = index
    self.model_type = None
    self.load_error = None
    self.blocks = []
    self.points_list = []
    self.points = {}
    self.points_sf = {}
    self.read_blocks = []


def model_load(self):
    device.Model.load(self, block_class=client.ClientBlock, point_class=client.ClientPoint)


def point_register(self, point, data):
    at = 2 * (int(point.addr) - int(self.addr))
    return data[at:at + 2 * int(point.point_type.len)]


def model_read_points(self):
    if self.model_type is None:
        return
    try:
        starts = self.read_blocks
        if len(starts) == 1:
            data = self.device.read(self.addr, self.len)
        else:
            data = b''
            n = 0
            while n < len(starts):
                at = starts[n]
                n += 1
                end = starts[n] if n < len(starts) else self.addr + self.len
                data += self.device.read(at, end - at)
        if data is not None:
            if len(data) / 2 != self.len:
                raise client.SunSpecClientError('')
            for block in self.blocks:
                for name, point in block.points_sf.items():
                    kind = point.point_type
                    if kind.data_to is None:
                        raise client.SunSpecClientError('')
                    v = kind.data_to(point_register(self, point, data))
                    point.value_base = v if kind.is_impl(v) else None
                for name, point in block.points.items():
                    kind = point.point_type
                    if kind.data_to is None:
                        raise client.SunSpecClientError('')
                    v = kind.data_to(point_register(self, point, data))
                    if type(v) == bytes:
                        v = str(v, 'latin-1')
                    if kind.is_impl(v):
                        point.value_base = v
                        if point.sf_point is not None:
                            point.value_sf = point.sf_point.value_base
                    else:
                        point.value_base = None
                        point.value_sf = None
    except device.SunSpecError as e:
        raise client.SunSpecClientError(e)
    except modbus.ModbusClientError as e:
        raise client.SunSpecClientError('%s' % str(e))


def model_write_points(self):
    for block in self.blocks:
        start = None
        end = None
        data = b''
        sent = []
        for point in block.points_list:
            if not point.dirty:
                continue
            at = int(point.addr)
            size = int(point.point_type.len)
            if start is not None and at != end:
                block.model.device.write(start, data)
                for p in sent:
                    p.dirty = False
                sent = []
                start = None
            if start is None:
                start = at
                data = b''
            data += point.point_type.to_data(point.value_base, size * 2)
            sent.append(point)
            end = at + size
        if start is not None:
            block.model.device.write(start, data)
            for p in sent:
                p.dirty = False


def model_write_points_carried(self):
    sent = []
    for block in self.blocks:
        start = None
        end = None
        data = b''
        for point in block.points_list:
            if not point.dirty:
                continue
            at = int(point.addr)
            size = int(point.point_type.len)
            if start is not None and at != end:
                block.model.device.write(start, data)
                for p in sent:
                    p.dirty = False
                sent = []
                start = None
            if start is None:
                start = at
                data = b''
            data += point.point_type.to_data(point.value_base, size * 2)
            sent.append(point)
            end = at + size
        if start is not None:
            block.model.device.write(start, data)
            for p in sent:
                p.dirty = False
            sent = []


def model_write_points_fresh(self):
    for block in self.blocks:
        start = None
        end = None
        data = b''
        sent = []
        for point in block.points_list:
            if not point.dirty:
                continue
            at = int(point.addr)
            size = int(point.point_type.len)
            if start is not None and at != end:
                block.model.device.write(start, data)
                for p in sent:
                    p.dirty = False
                start = None
            if start is None:
                start = at
                data = b''
                sent = []
            data += point.point_type.to_data(point.value_base, size * 2)
            sent.append(point)
            end = at + size
        if start is not None:
            block.model.device.write(start, data)
            for p in sent:
                p.dirty = False


def block_init(self, model, addr, blen, block_type, index=1):
    self.points_sf = {}
    self.points = {}
    self.points_list = []
    self.model = model
    self.addr = addr
    self.len = blen
    self.index = index
    self.block_type = block_type
    self.type = block_type.type


def point_init(self, block=None, point_type=None, addr=None, sf_point=None, value=None):
    self.dirty = False
    self.impl = True
    self.value_base = value
    self.value_sf = None
    self.block = block
    self.point_type = point_type
    self.addr = addr
    self.sf_point = sf_point


def point_write(self):
    data = self.point_type.to_data(self.value_base, 2 * int(self.point_type.len))
    self.block.model.device.write(int(self.addr), data)
    self.dirty = False


# -------------------------------------------------------------------- views
def view_get(self, name):
    point = self.model.points.get(name)
    if point:
        return point.value
    return None


def view_set(self, name, value):
    point = self.model.points.get(name)
    if point:
        point.value = value


def view_setitem(self, name, item):
    point = self.model.points.get(name)
    if point:
        point.value = item


def block_view_get(self, name):
    point = self.block.points.get(name)
    if point:
        return point.value
    return None


def block_view_set(self, name, value):
    point = self.block.points.get(name)
    if point:
        point.value = value


def block_view_setitem(self, name, item):
    point = self.block.points.get(name)
    if point:
        point.value = item


def block_view_init(self, block, name):
    self.name = name
    self.block = block


def view_read(self):
    self.model.read_points()


def view_write(self):
    self.model.write_points()


def accessor(name):
    return property(lambda self: self._get_property(name), lambda self, value: self._set_property(name, value))


def class_get(model_id):
    there = client.__dict__
    title = 'Model' + str(model_id)
    view = there.get(title)
    if view is None:
        view = type(title, (client.SunSpecClientModelBase,), {})
        there[title] = view
    view.points = []
    definition = None
    try:
        definition = device.model_type_get(model_id)
    except Exception as e:
        view.load_error = str(e)
    if definition is not None:
        for point in definition.fixed_block.points_list:
            if point.type != suns.SUNS_TYPE_SUNSSF and point.type != suns.SUNS_TYPE_PAD:
                setattr(view, point.id, accessor(point.id))
                view.points.append(point.id)
        if definition.repeating_block is not None:
            part = type(title + 'Repeating', (client.SunSpecClientBlockBase,), {})
            there[title + 'Repeating'] = part
            part.points = []
            for point in definition.repeating_block.points_list:
                if point.type != suns.SUNS_TYPE_SUNSSF and point.type != suns.SUNS_TYPE_PAD:
                    setattr(part, point.id, accessor(point.id))
                    part.points.append(point.id)
    return view


def view_init(self, model, name):
    self.model = model
    self.name = name
    self.repeating = [None]
    self.repeating_name = 'repeating'
    if len(model.blocks) > 1:
        view = self.__class__.__name__ + 'Repeating'
        for block in model.blocks[1:]:
            title = block.block_type.name
            if title != self.repeating_name:
                self.repeating_name = title
                setattr(self, self.repeating_name, self.repeating)
            self.repeating.append(client.__dict__.get(view)(block, self.repeating_name))


def dev_init(self, device_type, slave_id=None, name=None, pathlist=None, baudrate=None, parity=None, ipaddr=None, ipport=None,
             tls=False, cafile=None, certfile=None, keyfile=None, insecure_skip_tls_verify=False, timeout=None, trace=False,
             scan_progress=None, scan_delay=None):
    self.device = client.ClientDevice(device_type, slave_id, name, pathlist, baudrate, parity, ipaddr, ipport, tls, cafile, certfile, keyfile,
                                      insecure_skip_tls_verify, timeout, trace)
    self.models = []
    try:
        self.device.scan(progress=scan_progress, delay=scan_delay)
        for model in self.device.models_list:
            mid = str(model.id)
            view = client.model_class_get(mid)
            title = 'model_' + mid if model.model_type is None else model.model_type.name
            item = view(model, title)
            there = getattr(self, title, None)
            if there:
                if type(self[title]) is not list:
                    setattr(self, title, [None])
                    self[title].append(there)
                self[title].append(item)
            else:
                setattr(self, title, item)
                self.models.append(title)
    except Exception as e:
        self.device.close()
        raise


def dev_close(self):
    self.device.close()


def dev_read(self):
    self.device.read_points()


def dev_getitem(self, key):
    return self.__dict__.get(key, None)


def dev_setitem(self, key, item):
    self.__dict__[key] = item
