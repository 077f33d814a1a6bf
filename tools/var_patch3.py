"""changes that should be noticed (seventh batch)"""
def _b(name, path, *pairs):
    V.append(('BUG-p7-' + name, '*', [(path, a, b) for a, b in pairs]))

_b('sf-shared-order', CL, ("                        for pname, point in block.points_sf.items():", "                        for pname, point in sorted(block.points_sf.items())[:8]:"))
_b('join-lazily', CL, ("if data_len != self.len:", "if data_len < self.len:"))
_b('scan-len-zero', CL, ("                    addr += model_len + 2\n", "                    addr += (model_len or model.len) + 2\n"))
_b('scan-len-model', CL, ("                    addr += model_len + 2\n", "                    addr += model.len + 2\n"))
_b('view-existing-falsy', CL, ("                if existing:\n", "                if existing and name in self.models[-1:]:\n"))
_b('view-name-attr', CL, ("name = model.model_type.name\n", "name = model.model_type.name.lower()\n"))
_b('write-gap', CL, ("if point_addr != next_addr:", "if point_addr > next_addr:"))
_b('write-max', CL, ("                        if point_addr != next_addr:", "                        if point_addr != next_addr or len(data) > 240:"))
_b('load-legacy-all', DV, ("block_type = self.model_type.repeating_block\n", "block_type = self.model_type.repeating_block if end_addr > block_end else None\n"))
_b('sf-const-first', DV, ("                            point.sf_point = block.points_sf.get(point.point_type.sf)\n", "                            point.sf_point = self.blocks[0].points_sf.get(point.point_type.sf) or block.points_sf.get(point.point_type.sf)\n"))
_b('pics-index-zero', DV, ("if not 0 < block_index < len(self.blocks):", "if not -1 < block_index < len(self.blocks):"))
_b('pics-len', DV, ("                addr += model.len + 2\n", "                addr += model_len + 2\n"))
_b('value-half', DV, ("self.value_base = int(round(float(v) / math.pow(10, self.value_sf)))", "self.value_base = int(float(v) / math.pow(10, self.value_sf) + .5)"))
_b('value-pow', DV, ("return self.value_base * math.pow(10, self.value_sf)\n        else:\n            return self.value_base\n\n    def value_setter", "return self.value_base * 10 ** self.value_sf\n        else:\n            return self.value_base\n\n    def value_setter"))
_b('types-key', DV, ("model_types[model_type.id] = model_type", "model_types[str(model_id)] = model_type"))
_b('read-count', DV, ("if point_addr + point.point_type.len - last_read_addr > MAX_READ_COUNT:", "if point_addr - last_read_addr >= MAX_READ_COUNT:"))
_b('base-addr-kept', CL, ("                        self.base_addr = addr\n", "                        self.base_addr = addr\n                        self.base_addr_list.remove(addr)\n                        self.base_addr_list.insert(0, addr)\n"))
_b('delay-falsy', CL, ("            connect = True\n\n            if delay", "            connect = delay is None\n\n            if delay"))
_b('write-latin', CL, ("point_data = point.point_type.to_data(point.value_base, (point_len * 2))", "point_data = point.point_type.to_data(point.value_base, min(point_len * 2, len(str(point.value_base)) + 16))"))
_b('pics-value-impl', DV, ("                self.impl = self.point_type.is_impl(value)\n", "                impl = self.point_type.is_impl(value)\n"))
_b('rtu-devices-none', MC, ("if self.devices.get(slave_id):", "if slave_id and self.devices.get(slave_id):"))
_b('rtu-timeout', MC, ("            self.client.serial.writeTimeout = timeout\n", "            self.client.serial.writeTimeout = max(timeout, self.client.write_timeout)\n"))
_b('regs-append', MM, ("        self.data += data\n        self.count += count", "        self.data += data\n        self.count = len(self.data) // 2"))
_b('crc-swap', MC, ("swapped = ((crc << 8) & 0xff00) | ((crc >> 8) & 0x00ff)", "swapped = ((crc << 8) & 0x7f00) | ((crc >> 8) & 0x00ff)"))
