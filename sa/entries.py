"""Entry points, their reference models and the modular assumptions."""
from .engine import Entry
from .terms import *

C = 'sunspec.core.modbus.client.'
ENTRIES = {}


def E(key, qual, spec, **kw):
    ENTRIES[key] = Entry(qual, spec, **kw)


TCP = C + 'ModbusClientDeviceTCP.'
RTU = C + 'ModbusClientRTU.'
RDEV = C + 'ModbusClientDeviceRTU.'
MDEV = C + 'ModbusClientDeviceMapped.'

S_CONN = {TCP + 'connect': {'name': 'connect', 'mods': ['socket'], 'raises': ('ModbusClientError',)},
          TCP + 'disconnect': {'name': 'disconnect', 'sets': {'socket': NONE}, 'retval': NONE}}
S_CRC = {C + 'computeCRC': {'name': 'crc16', 'pure': True, 'ret': 'int', 'strip': (0,)}, C + 'checkCRC': {'name': 'crcok', 'pure': True, 'ret': 'bool', 'strip': (0,)}}
T = {'addr': 'int', 'count': 'int', 'op': 'int', 'data': 'bytes', 'slave_id': 'int', 'max_count': 'int', 'timeout': 'num?',
     'trace_func': 'obj:func?', 'name': 'str?', 'baudrate': 'int?', 'parity': 'str?', 'ipaddr': 'str', 'ipport': 'int?',
     'tls': 'bool', 'cafile': 'str?', 'certfile': 'str?', 'keyfile': 'str?', 'insecure_skip_tls_verify': 'bool', 'test': 'bool',
     'device': 'obj:ModbusClientDeviceRTU', 'pathlist': 'obj:PathList?', 'check': 'int'}

E('tcp.read', TCP + 'read', ['modbus.tcp_read', 'modbus.tcp_read_for'], types=T, stubs=S_CONN)
E('tcp.write', TCP + 'write', ['modbus.tcp_write', 'modbus.tcp_write_for'], types=T, stubs=S_CONN, even=('data',))
# any kind of error may end a transfer
CUT = {'trace': {'raises': ('AnyError', 'KeyboardInterrupt')}}
E('tcp.read.cut', TCP + 'read', ['modbus.tcp_read', 'modbus.tcp_read_for'], types=T, stubs=S_CONN, ext=CUT)
E('tcp.write.cut', TCP + 'write', ['modbus.tcp_write', 'modbus.tcp_write_for'], types=T, stubs=S_CONN, even=('data',), ext=CUT)
E('tcp.connect', TCP + 'connect', 'modbus.tcp_connect', types=T)
E('tcp.disconnect', TCP + 'disconnect', 'modbus.tcp_disconnect', types=T)
E('tcp.close', TCP + 'close', 'modbus.tcp_close', types=T, stubs=S_CONN)
E('tcp.init', TCP + '__init__', 'modbus.tcp_init', types=T)
E('rtu.init', RTU + '__init__', 'modbus.rtu_init', types=T, stubs={RTU + 'open': {'name': 'open', 'mods': ['serial'],
                                                                                  'raises': ('ModbusClientError',)}})
E('rtu.open', RTU + 'open', 'modbus.rtu_open', types=T)
E('rtu.close', RTU + 'close', 'modbus.rtu_close', types=T)
E('rtu.add_device', RTU + 'add_device', 'modbus.rtu_add_device', types=T)
S_REM = {RTU + 'close': {'name': 'rtu.close', 'raises': ('ModbusClientError',)}, C + 'modbus_rtu_client_remove': {'name': 'rtu_remove'}}
E('rtu.remove_device', RTU + 'remove_device', 'modbus.rtu_remove_device', types=T, stubs=S_REM)
E('rtu.client', C + 'modbus_rtu_client', 'modbus.rtu_client', types=T,
  stubs={C + 'ModbusClientRTU': {'raises': ('ModbusClientError',)}})
E('rtu.client_remove', C + 'modbus_rtu_client_remove', 'modbus.rtu_client_remove', types=T)
S_DEV = {C + 'modbus_rtu_client': {'name': 'rtu_client', 'ret': 'obj:ModbusClientRTU?', 'raises': ('ModbusClientError',)},
         RTU + 'add_device': {'name': 'add_device'}, RTU + 'remove_device': {'name': 'remove_device', 'raises': ('ModbusClientError',)},
         RTU + 'read': {'name': 'rtu.read', 'raises': ('ModbusClientError',), 'ret': 'bytes'},
         RTU + 'write': {'name': 'rtu.write', 'raises': ('ModbusClientError',)}}
E('rtudev.init', RDEV + '__init__', 'modbus.rtu_device_init', types=T, stubs=S_DEV)
E('rtudev.close', RDEV + 'close', 'modbus.rtu_device_close', types=T, stubs=S_DEV)
E('rtudev.read', RDEV + 'read', 'modbus.rtu_device_read', types=T, stubs=S_DEV)
E('rtudev.write', RDEV + 'write', 'modbus.rtu_device_write', types=T, stubs=S_DEV)
E('rtu.read', RTU + 'read', ['modbus.rtu_read', 'modbus.rtu_read_for'], types=T, stubs=S_CRC)
E('rtu.write', RTU + 'write', ['modbus.rtu_write', 'modbus.rtu_write_for'], types=T, stubs=S_CRC, even=('data',))
E('tcp.write.text', TCP + 'write', ['modbus.tcp_write_text', 'modbus.tcp_write_text_for'], types=dict(T, data='str'), stubs=S_CONN, even=('data',))
E('rtu.write.text', RTU + 'write', ['modbus.rtu_write_text', 'modbus.rtu_write_text_for'], types=dict(T, data='str'), stubs=S_CRC, even=('data',))
M = 'sunspec.core.modbus.mbmap.'
S_MAP = {M + 'ModbusMap': {'raises': ()}, M + 'ModbusMap.from_xml': {'name': 'map.from_xml', 'raises': ('ModbusMapError', 'AnyError')},
         M + 'ModbusMap.read': {'name': 'map.read', 'raises': ('ModbusMapError', 'AnyError'), 'ret': 'bytes'},
         M + 'ModbusMap.write': {'name': 'map.write', 'raises': ('ModbusMapError', 'AnyError')}}
E('mapped.init', MDEV + '__init__', 'modbus.mapped_init', types=T, stubs=S_MAP)
E('mapped.read', MDEV + 'read', 'modbus.mapped_read', types=T, stubs=S_MAP)
E('mapped.write', MDEV + 'write', 'modbus.mapped_write', types=T, stubs=S_MAP)
E('mapped.close', MDEV + 'close', 'modbus.mapped_close', types=T, stubs=S_MAP)
E('crc.compute', C + 'computeCRC', ['modbus.compute_crc', 'modbus.compute_crc_bits'], types=T)
E('crc.compute.str', C + 'computeCRC', ['modbus.compute_crc_text', 'modbus.compute_crc_bits_text'], types=dict(T, data='str'))
E('crc.check', C + 'checkCRC', 'modbus.check_crc', types=T, stubs={C + 'computeCRC': S_CRC[C + 'computeCRC']})

# ------------------------------------------------------------ register maps
MT = {'addr': 'int', 'count': 'int', 'op': 'int?', 'data': 'bytes', 'slave_id': 'int?', 'func': 'str', 'base_addr': 'int', 'ns': 'str?',
      'lid': 'str?', 'mapid': 'str?', 'time': 'str?', 'name': 'str', 'pathlist': 'obj:PathList?', 'filename': 'str?',
      'element': 'obj:Element?', 'parent': 'obj:Element?', 'no_data': 'bool', 'offset': 'int', 'access': 'str?',
      'mbmap': 'obj:ModbusMap', 'regs': 'obj:ModbusMapRegs'}
MM = M + 'ModbusMap.'
MR = M + 'ModbusMapRegs.'
S_PL = {'sunspec.core.util.PathList.read': {'name': 'pathlist.read', 'raises': ('AnyError',), 'ret': 'str'}}
S_REGS = {MR + 'read': {'name': 'regs.read', 'raises': ('ModbusMapError',), 'ret': 'bytes?'},
          MR + 'write': {'name': 'regs.write', 'raises': ('ModbusMapError',)},
          MR + 'append': {'name': 'regs.append', 'retval': NONE},
          MR + 'not_equal': {'name': 'regs.not_equal', 'ret': 'str'}}
E('map.init', MM + '__init__', 'mbmap.init', types=MT)
E('map.read', MM + 'read', 'mbmap.read', types=MT, stubs={k: S_REGS[k] for k in S_REGS if k.endswith('read')})
E('map.write', MM + 'write', 'mbmap.write', types=MT, stubs={k: S_REGS[k] for k in S_REGS if k.endswith('write')})
E('map.from_xml', MM + 'from_xml', 'mbmap.from_xml', types=MT, stubs=dict(S_PL, **{MR + 'append': S_REGS[MR + 'append']}))
E('map.from_hex', MM + 'from_hex', 'mbmap.from_hex', types=MT)
E('map.to_xml', MM + 'to_xml', 'mbmap.to_xml', types=MT)
E('map.regs_add', MM + 'regs_add', 'mbmap.regs_add', types=dict(MT, addr='int?', offset='int?'), stubs={MR + 'append': S_REGS[MR + 'append']})
E('map.not_equal', MM + 'not_equal', 'mbmap.not_equal', types=MT, stubs={MR + 'not_equal': S_REGS[MR + 'not_equal']})
E('regs.init', MR + '__init__', 'mbmap.regs_init', types=MT)
E('regs.read', MR + 'read', 'mbmap.regs_read', types=MT)
E('regs.write', MR + 'write', 'mbmap.regs_write', types=MT)
E('regs.append', MR + 'append', 'mbmap.regs_append', types=MT)
E('regs.not_equal', MR + 'not_equal', 'mbmap.regs_not_equal', types=MT)

# ------------------------------------------------------- register values
U = 'sunspec.core.util.'
S = 'sunspec.core.suns.'
for n, r in (('data_to_s16', 's16'), ('data_to_u16', 'u16'), ('data_to_s32', 's32'), ('data_to_u32', 'u32'), ('data_to_s64', 's64'),
             ('data_to_u64', 'u64'), ('data_to_ipv6addr', 'ipv6addr'), ('data_to_eui48', 'eui48'), ('data_to_float', 'float32'),
             ('data_to_double', 'float64'), ('data_to_str', 'text')):
    E('util.' + n, U + n, 'codecs.' + r, types={'data': 'bytes'})
for n, r, t in (('s16_to_data', 'to_s16', 'int'), ('u16_to_data', 'to_u16', 'int'), ('s32_to_data', 'to_s32', 'int'),
                ('u32_to_data', 'to_u32', 'int'), ('s64_to_data', 'to_s64', 'int'), ('u64_to_data', 'to_u64', 'int'),
                ('float_to_data32', 'to_float32', 'float'), ('float32_to_data', 'to_float32', 'float'), ('float_to_data', 'to_float64', 'float'),
                ('ipv6addr_to_data', 'to_ipv6addr', 'str'), ('eui48_to_data', 'to_eui48', 'str'), ('str_to_data', 'to_text', 'str')):
    E('util.' + n, U + n, 'codecs.' + r, types={p: t for p in ('s16', 'u16', 's32', 'u32', 's64', 'u64', 'f', 'addr', 'eui48', 's')} |
      {'slen': 'int?', 'len': 'int?'})
for n in ('int16', 'uint16', 'acc16', 'enum16', 'bitfield16', 'int32', 'uint32', 'acc32', 'enum32', 'bitfield32', 'ipaddr', 'int64',
          'uint64', 'acc64', 'sunssf', 'float32', 'string', 'ipv6addr', 'eui48'):
    pass
TYPES = {'int16': 'int16', 'uint16': 'uint16', 'count': 'uint16', 'acc16': 'acc16', 'enum16': 'uint16', 'bitfield16': 'uint16', 'pad': 'int16',
         'int32': 'int32', 'uint32': 'uint32', 'acc32': 'acc32', 'enum32': 'uint32', 'bitfield32': 'uint32', 'ipaddr': 'acc32',
         'int64': 'int64', 'uint64': 'uint64', 'acc64': 'acc64', 'sunssf': 'int16', 'float32': 'float32', 'string': 'string',
         'ipv6addr': 'ipv6addr', 'eui48': 'eui48'}
VT = {'float32': 'float?', 'string': 'str?', 'ipv6addr': 'str?', 'eui48': 'str?'}
for n, r in TYPES.items():
    E('type.' + n, 'spec.codecs.probe', 'codecs.t_' + r, types={'data': 'bytes', 'value': VT.get(n, 'int'), 'x': None, 'n': 'int?'},
      consts={'ptype': n})
E('type.names', 'spec.codecs.has_type', 'codecs.is_type', types={'ptype': 'str'})
E('type.to_int', S + 'suns_to_int', 'codecs.to_int')
E('type.to_long', S + 'suns_to_long', 'codecs.to_int')
E('type.to_str', S + 'suns_to_str', 'codecs.to_str')
E('type.to_float', S + 'suns_to_float', 'codecs.to_float')

# ------------------------------------------------- devices and definitions
D = 'sunspec.core.device.'
DT = {'addr': 'int', 'model': 'obj:Model', 'blen': 'int', 'block_type': 'obj:BlockType', 'index': 'int', 'block': 'obj:Block',
      'point_type': 'obj:PointType', 'sf_point': 'obj:Point?', 'value': None, 'v': None, 'mid': 'str', 'mlen': 'int', 'element': 'obj:Element',
      'parent': 'obj:Element', 'single_repeating': 'bool', 'filename': 'str', 'pathlist': 'obj:PathList?', 'device': 'obj:Device',
      'point': 'obj:Point', 'model_type': 'obj:ModelType?', 'btype': 'str?', 'name': 'str?', 'pid': 'str?', 'offset': 'int', 'ptype': 'str?',
      'plen': 'int', 'mandatory': 'str?', 'access': 'str?', 'sf': 'str?', 'sid': 'str', 'symbol': 'obj:Symbol', 'point_id': 'str',
      'strings': 'bool', 'model_id': 'int', 'addr_': 'str'}
ANY = ('SunSpecError', 'AnyError')
S_PICS = {D + k + '.from_pics': {'name': k.lower() + '.from_pics', 'raises': ANY} for k in ('Model', 'Block', 'Point')}
S_TOPICS = {D + k + '.to_pics': {'name': k.lower() + '.to_pics'} for k in ('Model', 'Block', 'Point')}
S_NE = {D + k + '.not_equal': {'name': k.lower() + '.not_equal', 'pure': True, 'ret': 'str'}
        for k in ('Model', 'Block', 'Point', 'ModelType', 'BlockType', 'PointType')}
S_SMDX = {D + k + '.from_smdx': {'name': k.lower() + '.from_smdx', 'raises': ANY, 'mods': m}
          for k, m in (('ModelType', ['id']), ('BlockType', ['type', 'len', 'name']), ('PointType', ['id']), ('Symbol', ['id']))}
S_SYM = {D + 'ModelType.symbol_get': {'name': 'model.symbol_get', 'ret': 'obj:Symbol?'},
         D + 'ModelType.symbol_add': {'name': 'model.symbol_add'},
         D + 'PointType.symbol_get': {'name': 'point.symbol_get', 'ret': 'obj:Symbol?'}}
S_LOAD = {D + 'Model.load': {'name': 'load', 'raises': ANY, 'mods': ['len', 'blocks']}}
S_PATH = {'sunspec.core.util.PathList.read': {'name': 'pathlist.read', 'raises': ('NameError', 'AnyError'), 'ret': 'str'}}
S_TYPE = {D + 'model_type_get': {'name': 'model_type_get', 'raises': ANY, 'ret': 'obj:ModelType?'}}


def without(d, *names):
    return {k: v for k, v in d.items() if not any(k.startswith(D + n) for n in names)}


E('device.init', D + 'Device.__init__', 'device.device_init', types=DT)
E('device.add_model', D + 'Device.add_model', 'device.add_model', types=DT)
E('device.from_pics', D + 'Device.from_pics', 'device.device_from_pics', types=dict(DT, element='obj:Element?'), stubs=dict(S_PICS, **S_LOAD, **S_PATH))
E('device.to_pics', D + 'Device.to_pics', 'device.device_to_pics', types=DT, stubs=S_TOPICS)
E('device.not_equal', D + 'Device.not_equal', 'device.device_not_equal', types=DT, stubs=S_NE)
E('block.init', D + 'Block.__init__', 'device.block_init', types=DT)
E('block.from_pics', D + 'Block.from_pics', 'device.block_from_pics', types=DT, stubs=without(S_PICS, 'Block', 'Model'))
E('block.to_pics', D + 'Block.to_pics', 'device.block_to_pics', types=DT, stubs=without(S_TOPICS, 'Block', 'Model'))
E('block.not_equal', D + 'Block.not_equal', 'device.block_not_equal', types=DT, stubs=without(S_NE, 'Block.', 'Model.'))
E('point.init', D + 'Point.__init__', 'device.point_init', types=dict(DT, addr='str'))
E('point.get', D + 'Point.value:get', 'device.value_get', types=DT)
E('point.set', D + 'Point.value:set', 'device.value_set', types=DT)
E('point.from_pics', D + 'Point.from_pics', 'device.point_from_pics', types=DT)
E('point.to_pics', D + 'Point.to_pics', 'device.point_to_pics', types=DT)
E('point.not_equal', D + 'Point.not_equal', 'device.point_not_equal', types=DT, stubs=without(S_NE, 'Point.', 'Block.', 'Model.'))
E('sf.init', D + 'ScaleFactor.__init__', 'device.scale_factor_init', types=dict(DT, value='int?'))
E('model.init', D + 'Model.__init__', 'device.model_init', types=DT)
E('model.load', D + 'Model.load', 'device.model_load', types=DT, stubs=S_TYPE)
E('model.from_pics', D + 'Model.from_pics', 'device.model_from_pics', types=DT, stubs=without(S_PICS, 'Model.'))
E('model.to_pics', D + 'Model.to_pics', 'device.model_to_pics', types=DT, stubs=without(S_TOPICS, 'Model.'))
E('model.not_equal', D + 'Model.not_equal', 'device.model_not_equal', types=DT, stubs=without(S_NE, 'Model.'))
E('mtype.init', D + 'ModelType.__init__', 'device.model_type_init', types=DT)
E('mtype.from_smdx', D + 'ModelType.from_smdx', 'device.model_type_from_smdx', types=DT, stubs=dict(without(S_SMDX, 'ModelType')))
E('mtype.not_equal', D + 'ModelType.not_equal', 'device.model_type_not_equal', types=DT, stubs=without(S_NE, 'ModelType.'))
E('mtype.symbol_add', D + 'ModelType.symbol_add', 'device.symbol_add', types=DT)
E('mtype.symbol_get', D + 'ModelType.symbol_get', 'device.symbol_get', types=DT)
E('btype.init', D + 'BlockType.__init__', 'device.block_type_init', types=DT)
E('btype.from_smdx', D + 'BlockType.from_smdx', 'device.block_type_from_smdx', types=DT, stubs=without(S_SMDX, 'ModelType', 'BlockType'))
E('ptype.not_equal', D + 'PointType.not_equal', 'device.point_type_not_equal', types=dict(DT, point_type='obj:PointType?'))
E('btype.not_equal', D + 'BlockType.not_equal', 'device.block_type_not_equal', types=dict(DT, block_type='obj:BlockType?'),
  stubs=without(S_NE, 'ModelType.', 'BlockType.'))
E('ptype.init', D + 'PointType.__init__', 'device.point_type_init', types=DT)
E('ptype.from_smdx', D + 'PointType.from_smdx', 'device.point_type_from_smdx', types=DT,
  stubs=dict(without(S_SYM, 'PointType.'), **{D + 'Symbol.from_smdx': S_SMDX[D + 'Symbol.from_smdx']}))
E('ptype.symbol_get', D + 'PointType.symbol_get', 'device.point_symbol_get', types=DT)
E('symbol.init', D + 'Symbol.__init__', 'device.symbol_init', types=DT)
E('symbol.from_smdx', D + 'Symbol.from_smdx', 'device.symbol_from_smdx', types=DT)
E('symbol.eq', D + 'Symbol.__eq__', 'device.symbol_eq', types=dict(DT, symbol=None))
E('symbol.ne', D + 'Symbol.__ne__', 'device.symbol_ne', types=dict(DT, symbol=None))
E('model_type_get', D + 'model_type_get', 'device.model_type_get', types=DT, stubs=dict(S_PATH, **{D + 'ModelType.from_smdx': S_SMDX[D + 'ModelType.from_smdx']}))
E('device.search_path', D + 'fresh_file_pathlist', 'device.fresh_file_pathlist', types=dict(DT, paths='list:str'))
E('smdx.id_to_filename', 'sunspec.core.smdx.model_id_to_filename', 'device.id_to_filename', types=DT)
E('smdx.filename_to_id', 'sunspec.core.smdx.model_filename_to_id', 'device.filename_to_id', types=DT)

# ------------------------------------------------------ the SunSpec client
L = 'sunspec.core.client.'
LT = {'device_type': 'str', 'slave_id': 'int?', 'name': 'str?', 'pathlist': 'obj:PathList?', 'baudrate': 'int?', 'parity': 'str?',
      'ipaddr': 'str?', 'ipport': 'int?', 'tls': 'bool', 'cafile': 'str?', 'certfile': 'str?', 'keyfile': 'str?',
      'insecure_skip_tls_verify': 'bool', 'timeout': 'num?', 'trace': None, 'addr': 'int', 'count': 'int', 'data': 'bytes',
      'progress': 'obj:func?', 'delay': 'num?', 'scan_progress': 'obj:func?', 'scan_delay': 'num?', 'dev': 'obj:ClientDevice', 'mid': 'str',
      'mlen': 'int', 'index': 'int', 'model': 'obj:ClientModel', 'blen': 'int', 'block_type': 'obj:BlockType', 'block': 'obj:ClientBlock',
      'point_type': 'obj:PointType', 'sf_point': 'obj:Point?', 'value': None, 'key': 'str', 'item': None}
CERR = ('SunSpecClientError', 'AnyError')
S_MB = {C + n: {'raises': ('ModbusClientError', 'AnyError'), 'ret': 'obj:ModbusDevice'}
        for n in ('ModbusClientDeviceRTU', 'ModbusClientDeviceTCP', 'ModbusClientDeviceMapped')}
S_CDEV = {L + 'ClientDevice.read': {'name': 'dev.read', 'raises': CERR, 'ret': 'bytes'},
          L + 'ClientDevice.write': {'name': 'dev.write', 'raises': CERR},
          L + 'ClientDevice.close': {'name': 'dev.close', 'raises': ('AnyError',)},
          L + 'ClientDevice.scan': {'name': 'dev.scan', 'raises': CERR, 'mods': ['models_list']},
          L + 'ClientDevice.read_points': {'name': 'dev.read_points', 'raises': CERR}}
S_CMODEL = {L + 'ClientModel.load': {'name': 'model.load', 'raises': ANY},
            L + 'ClientModel.read_points': {'name': 'model.read_points', 'raises': CERR},
            L + 'ClientModel.write_points': {'name': 'model.write_points', 'raises': CERR}}
CD, CM, CB, CP = L + 'ClientDevice.', L + 'ClientModel.', L + 'ClientBlock.', L + 'ClientPoint.'
E('cdev.init', CD + '__init__', 'client.device_init', types=LT, stubs=S_MB)
E('cdev.close', CD + 'close', 'client.device_close', types=LT)
E('cdev.read', CD + 'read', 'client.device_read', types=LT)
E('cdev.write', CD + 'write', 'client.device_write', types=LT)
E('cdev.read_points', CD + 'read_points', 'client.device_read_points', types=LT, stubs=S_CMODEL)
E('cdev.scan', CD + 'scan', 'client.device_scan', types=LT, stubs={CD + '_scan': {'name': 'dev._scan', 'raises': CERR, 'retval': NONE}})
E('cdev.walk', CD + '_scan', 'client.device_walk', types=LT,
  stubs=dict(S_CMODEL, **{k: v for k, v in S_CDEV.items() if k.endswith('.read')}))
E('cmodel.init', CM + '__init__', 'client.model_init', types=LT)
E('cmodel.load', CM + 'load', 'client.model_load', types=LT,
  stubs={D + 'Model.load': {'name': 'load', 'raises': ANY}})
E('cmodel.read_points', CM + 'read_points', 'client.model_read_points', types=LT, stubs=S_CDEV)
E('cmodel.write_points', CM + 'write_points', ['client.model_write_points', 'client.model_write_points_carried', 'client.model_write_points_fresh'], types=LT, stubs=S_CDEV)
E('cblock.init', CB + '__init__', 'client.block_init', types=LT)
E('cpoint.init', CP + '__init__', 'client.point_init', types=dict(LT, addr='str'))
E('cpoint.write', CP + 'write', 'client.point_write', types=LT, stubs=S_CDEV)
E('class_get', L + 'model_class_get', 'client.class_get', types=dict(LT, model_id='str'), stubs=S_TYPE)
SM, SB, SD = L + 'SunSpecClientModelBase.', L + 'SunSpecClientBlockBase.', L + 'SunSpecClientDevice.'
VTY = dict(LT, name='str')
E('view.init', SM + '__init__', 'client.view_init', types=VTY)
E('view.get', SM + '_get_property', 'client.view_get', types=VTY)
E('view.set', SM + '_set_property', 'client.view_set', types=VTY)
E('view.getitem', SM + '__getitem__', 'client.view_get', types=VTY)
E('view.setitem', SM + '__setitem__', 'client.view_setitem', types=VTY)
E('view.read', SM + 'read', 'client.view_read', types=VTY, stubs=S_CMODEL)
E('view.write', SM + 'write', 'client.view_write', types=VTY, stubs=S_CMODEL)
E('bview.init', SB + '__init__', 'client.block_view_init', types=VTY)
E('bview.get', SB + '_get_property', 'client.block_view_get', types=VTY)
E('bview.set', SB + '_set_property', 'client.block_view_set', types=VTY)
E('bview.getitem', SB + '__getitem__', 'client.block_view_get', types=VTY)
E('bview.setitem', SB + '__setitem__', 'client.block_view_setitem', types=VTY)
E('dev.init', SD + '__init__', 'client.dev_init', types=LT,
  stubs=dict(S_CDEV, **{L + 'ClientDevice': {'raises': ('SunSpecClientError', 'AnyError')}, L + 'model_class_get': {'name': 'model_class_get', 'raises': ('AnyError',)}}))
E('dev.close', SD + 'close', 'client.dev_close', types=LT, stubs=S_CDEV)
E('dev.read', SD + 'read', 'client.dev_read', types=LT, stubs=S_CDEV)
E('dev.getitem', SD + '__getitem__', 'client.dev_getitem', types=LT)
E('dev.setitem', SD + '__setitem__', 'client.dev_setitem', types=LT)

# ------------------------------------------------------- logged data documents
X = 'sunspec.core.data.'
XT = {'element': 'obj:Element', 'parent': 'obj:Element', 'data_record': 'str?', 'logger_id': 'str?', 'man': 'str?', 'mod': 'str?', 'sn': 'str?',
      'timestamp': 'num?', 'cid': 'str?', 'device_id': 'str?', 'ifc': 'str?', 'namespace': 'str?', 'model_id': None, 'index': 'int?',
      'point_id': None, 'value': None, 'sf': 'int?', 'units': 'str?', 'desc': 'str?', 'time': 'str?', 'pretty_print': 'bool', 'elem': 'obj:Element',
      'level': 'int'}
OT = dict(XT, element='obj:Element?', parent='obj:Element?')
S_INDENT = {'sunspec.core.util.indent': {'name': 'indent'}}
S_FROM = {X + k + '.from_xml': {'name': k + '.from_xml', 'raises': ('SunSpecDataError', 'AnyError'), 'mods': m}
          for k, m in (('DeviceData', ['device_id']), ('ModelData', ['model_id']), ('PointData', ['point_id']))}
S_TO = {X + k + '.to_xml': {'name': k + '.to_xml'} for k in ('DeviceData', 'ModelData', 'PointData')}
E('data.init', X + 'SunSpecData.__init__', 'data.record_init', types=OT, stubs={X + 'SunSpecData.from_xml': {'name': 'record.from_xml', 'raises': ('AnyError',)}})
E('data.device_add', X + 'SunSpecData.device_add', 'data.device_add', types=XT)
E('data.from_xml', X + 'SunSpecData.from_xml', 'data.record_from_xml', types=OT, stubs=S_FROM)
E('data.to_xml', X + 'SunSpecData.to_xml', 'data.record_to_xml', types=OT, stubs=S_TO)
E('data.to_xml_str', X + 'SunSpecData.to_xml_str', 'data.record_to_xml_str', types=OT, stubs=dict(S_TO, **S_INDENT))
E('data.model_add', X + 'DeviceData.model_add', 'data.model_add', types=XT)
E('data.stamp', X + 'DeviceData.timestamp_add', 'data.stamp', types=XT)
E('ddata.init', X + 'DeviceData.__init__', 'data.device_init', types=XT)
E('ddata.from_xml', X + 'DeviceData.from_xml', 'data.device_from_xml', types=XT, stubs={k: v for k, v in S_FROM.items() if 'Device' not in k})
E('ddata.to_xml', X + 'DeviceData.to_xml', 'data.device_to_xml', types=XT, stubs={k: v for k, v in S_TO.items() if 'Device' not in k})
E('mdata.init', X + 'ModelData.__init__', 'data.model_init', types=XT)
E('mdata.point_add', X + 'ModelData.point_add', 'data.point_add', types=XT)
E('mdata.from_xml', X + 'ModelData.from_xml', 'data.model_from_xml', types=XT, stubs={k: v for k, v in S_FROM.items() if 'Point' in k})
E('mdata.to_xml', X + 'ModelData.to_xml', 'data.model_to_xml', types=XT, stubs={k: v for k, v in S_TO.items() if 'Point' in k})
E('pdata.init', X + 'PointData.__init__', 'data.point_init', types=XT)
E('pdata.from_xml', X + 'PointData.from_xml', 'data.point_from_xml', types=XT)
E('pdata.to_xml', X + 'PointData.to_xml', 'data.point_to_xml', types=XT)

# ---------------------------------------------------------- files and layout
U = 'sunspec.core.util.'
E('util_indent', U + 'indent', 'util.indent', types=XT, stubs=S_INDENT)
UTY = {'path_list': 'list:str', 'path': 'str', 'filename': 'str'}
E('path.init', U + 'PathList.__init__', 'util.pathlist_init', types=UTY)
E('path.add', U + 'PathList.add', 'util.pathlist_add', types=UTY)
E('path.read', U + 'PathList.read', 'util.pathlist_read', types=UTY)
