"""The properties and the rules that decide them."""
from .compare import Proj
from .entries import ENTRIES, TYPES
from .rules import behaviour as B
from . import lint

PROPS = {}


def P(pid, rules, explain, assume=(), technique=None, note=None):
    PROPS[pid] = {'rules': rules, 'explain': explain, 'assume': list(assume), 'technique': technique, 'note': note}


def each(keys, proj=None):
    return [B(k, proj) for k in keys]


XFER = ['tcp.read', 'tcp.write', 'rtu.read', 'rtu.write']
# an import or a definition that is rejected leaves nothing to rely on
PARSE = Proj(raise_stores=False)
RAISES = Proj(events=False, stores=False, returns=False)

P('C01', each(XFER + ['tcp.write.text', 'rtu.write.text', 'rtudev.read', 'rtudev.write'], Proj(stores=False)) +
  each(['tcp.init', 'rtudev.init', 'cdev.read', 'cdev.write']),
  'requests sent and data returned by the four transfer functions and the two RTU device methods, for every address, count, data '
  'length and maximum; chunk loops are compared as recurrences')
P('C02', each(XFER + ['tcp.write.text', 'rtu.write.text'], Proj(raises=False, stores=False, returns=False, only_events=('sendall', 'send', 'write', 'socket.*', 'serial.*'))) +
  each(['crc.compute', 'crc.compute.str', 'rtudev.read', 'rtudev.write', 'tcp.init', 'rtudev.init']),
  'bytes handed to the socket or serial port as a function of the call, and the CRC recurrence including its table',)
P('C03', each(XFER, Proj(stores=False)) + each(['crc.check', 'crc.compute', 'crc.compute.str', 'tcp.init', 'rtu.init']),
  'conditions under which a response is returned, how many bytes are awaited, and every error outcome')
P('C04', each(['tcp.read.cut', 'tcp.write.cut'], Proj(trace=True)) + each(['tcp.read', 'tcp.write', 'tcp.connect', 'tcp.disconnect', 'tcp.close', 'tcp.init'],),
  'order and conditions of connect and disconnect around a transfer on every exit, and the socket field')
P('C06', each(['tcp.connect', 'tcp.init', 'tcp.disconnect']) + each(['tcp.read', 'tcp.write'], Proj(returns=False)),
  'arguments of the ssl context, which socket is stored and used, failure exits of connect')
P('C07', each(['tcp.init', 'tcp.connect', 'rtu.init', 'rtu.open', 'rtu.client', 'rtudev.init', 'mapped.init', 'cdev.init', 'dev.init']),
  'flow of every constructor parameter, and of its default, into the fields and transport calls that use it')
UTIL = [k for k in ENTRIES if k.startswith('util.')]
PTYPES = [k for k in ENTRIES if k.startswith('type.') and k[5:] in TYPES]
P('C08', each(UTIL + PTYPES + ['type.names', 'type.to_int', 'type.to_long', 'type.to_str', 'type.to_float']),
  'every converter, and for each point type the length, converters, default and text conversion its table row holds')
P('C09', each(PTYPES + ['type.names'] + ['util.data_to_float', 'util.data_to_double', 'util.data_to_ipv6addr', 'util.data_to_eui48',
                                         'util.data_to_str', 'cmodel.read_points']),
  'the condition under which the table row of each point type reports a value as implemented, for values and for decoded registers')
P('C10', each(['model.load', 'model.init', 'block.init', 'point.init', 'cmodel.init', 'cmodel.load', 'cblock.init', 'cpoint.init']),
  'addresses, order and number of the blocks and points created from a definition, and every load error')
P('C11', each(['cmodel.read_points', 'cdev.read', 'cdev.read_points', 'model.load', 'dev.read', 'view.read']),
  'requests of a model read, the slice and decoder of every point, and every error exit')
P('C12', each(['cmodel.write_points', 'cpoint.write', 'cdev.write', 'view.write', 'point.set', 'point.init']),
  'the loop that gathers adjacent modified points, its requests, and where the marks are cleared on every exit')
P('C13', each(['point.get', 'point.set', 'sf.init', 'point.init']),
  'value, raw value and mark as functions of the raw value and the scale factor')
P('C14', each(['model.load', 'sf.init', 'point.init', 'point.get', 'cmodel.read_points']),
  'which object each point takes its scale factor from, the lookup order, and the flow of a read into the scale factor')
P('C15', each(['cdev.scan', 'cdev.walk', 'cdev.init', 'cdev.close', 'device.add_model', 'dev.init']),
  'order of base addresses, the conditions on the identifier, the header walk, and the close on every exit')
P('C17', [lint.error_kinds('sunspec.core.modbus.mbmap.ModbusMapError')] + each(['map.init', 'map.read', 'map.write', 'regs.init', 'regs.read', 'regs.write', 'regs.append', 'mapped.read', 'mapped.write']),
  'block walk of map reads and writes, with the plan of a write complete before the first change')
P('C18', [lint.error_kinds('sunspec.core.modbus.mbmap.ModbusMapError')] + each(['map.from_xml', 'map.from_hex', 'map.regs_add', 'map.init', 'regs.init', 'regs.append', 'mapped.init'], PARSE),
  'every entry type of a map document, placement of blocks, padding, and the error exits')
P('C19', each(['map.to_xml', 'map.init', 'regs.init']) + each(['map.not_equal', 'regs.not_equal'], Proj(truth=True)),
  'attributes and text written per block; the conditions under which two maps are reported equal')
P('C20', [lint.error_kinds('sunspec.core.data.SunSpecDataError')] + each([k for k in ENTRIES if k.split('.')[0] in ('data', 'ddata', 'mdata', 'pdata', 'util_indent')], PARSE),
  'attributes and elements written, and the objects and fields made from each element and attribute read')
P('C21', [lint.error_kinds('sunspec.core.util.SunSpecError')] + each([k for k in ENTRIES if k.split('.')[0] in ('device', 'model', 'block', 'point') and k.split('.')[1] in ('from_pics', 'to_pics')], PARSE),
  'elements and attributes written, the lookups and index checks of an import, and every rejection')
P('C22', each([k for k in ENTRIES if k.split('.')[0] in ('device', 'model', 'block', 'point', 'mtype', 'btype', 'ptype') and k.endswith('.not_equal')] +
              ['symbol.eq', 'symbol.ne'], Proj(truth=True)),
  'the exact condition under which each comparison reports a difference')
P('C23', each([k for k in ENTRIES if k.startswith('path.')], Proj(closes=True)),
  'order of the search, state of each step, condition of the error, and the closing of archives')
P('C24', each(['rtu.client', 'rtu.client_remove', 'rtu.init', 'rtu.open', 'rtu.close', 'rtu.add_device', 'rtu.remove_device',
               'rtudev.init', 'rtudev.close']),
  'registry updates and port open/close on every exit')
P('C25', each([k for k in ENTRIES if k.split('.')[0] in ('view', 'bview', 'dev', 'class_get')]),
  'attribute, item, read and write access of the scripting classes as accesses to the device points')
P('C27', each(XFER, Proj(trace=True)),
  'every observable of the transfer functions as a function that does not depend on the trace function, which may only be called')
P('C28', [lint.error_kinds('sunspec.core.util.SunSpecError')] + each([k for k in ENTRIES if k.split('.')[0] in ('mtype', 'btype', 'ptype', 'symbol', 'smdx', 'model_type_get') and
              k.split('.')[-1] not in ('not_equal', 'eq', 'ne')], PARSE),
  'fields taken from every element and attribute of a definition document, and every rejection')
MC, CL = 'sunspec.core.modbus.client.', 'sunspec.core.client.'
P('C05', [lint.error_kinds(MC + 'ModbusClientError', MC + 'ModbusClientTimeout', MC + 'ModbusClientException', CL + 'SunSpecClientError')] +
  each(XFER + ['tcp.connect', 'tcp.disconnect', 'tcp.close', 'tcp.init', 'rtu.init', 'rtu.open', 'rtu.close', 'rtu.remove_device', 'rtu.client_remove',
                      'rtudev.read', 'rtudev.write', 'rtudev.close', 'mapped.init', 'mapped.read', 'mapped.write', 'mapped.close', 'cmodel.load', 'dev.close',
                      'view.read', 'view.write', 'cdev.init', 'cdev.read', 'cdev.write', 'cdev.scan',
                      'cdev.walk', 'cdev.close', 'cdev.read_points', 'cmodel.read_points', 'cmodel.write_points', 'cpoint.write', 'rtu.client',
                      'rtudev.init', 'dev.init', 'dev.read'], RAISES),
  'the error type and cause of every failing exit of the client layers, and what kind of error each documented class is')
P('C16', [lint.definition_writes, lint.shared_state] + each(['model_type_get', 'device.search_path']),
  'every store of every analysed function to a definition object or to module state; every default, class attribute and module variable; the '
  'definition cache', technique='effect analysis over gated value-flow graphs and queries over the syntax tree')
P('C26', [lint.faults],
  'every name, call, attribute, message, operand, raise and variable read of the tree: is there an input for which it succeeds',
  technique='queries over the syntax tree with a symbol table, and a path-sensitive definite-assignment analysis',
  note='Static: every site of the listed kinds is enumerated; a site is reported only when no input makes it succeed. Sites whose target '
       'cannot be resolved from the source (methods of library objects) are counted and not judged.')
