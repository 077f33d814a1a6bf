"""The properties: one source for properties.jsonl and MANIFEST.json.
python3 tools/catalog.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'sunspec/core/modbus/client.py'
MM = 'sunspec/core/modbus/mbmap.py'
CL = 'sunspec/core/client.py'
DV = 'sunspec/core/device.py'
UT = 'sunspec/core/util.py'
SU = 'sunspec/core/suns.py'
DA = 'sunspec/core/data.py'
SM = 'sunspec/core/smdx.py'
PI = 'sunspec/core/pics.py'
SC = 'scripts/suns.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                      observe=observe, level_note=level_note, na=na))


prop('C01', 'A register range is transferred exactly, in order, by bounded requests',
     'A read of any register range over Modbus TCP or RTU returns exactly the requested registers in address order (each request being '
     'answered with the registers it asked for), and a write stores every register of the data at its own address. The range is cut into consecutive, non-overlapping requests none of which asks '
     'for more registers than the maximum per request (125 for a TCP device, 125 by default on RTU, or the configured one). A failing '
     'request ends the transfer with its error instead of returning a partial result.',
     ['inputs', 'configurations'], 'every start address, register count, data length and maximum request size, on both transports',
     'The tests read a few ranges of a simulated device; the chunk arithmetic is only exercised for a couple of lengths and never for writes '
     'whose length is not a multiple of the maximum.',
     [MC], [('chunking loop of the TCP read', MC + ':ModbusClientDeviceTCP.read'), ('chunking loop of the TCP write', MC + ':ModbusClientDeviceTCP.write'),
            ('chunking loop of the RTU read', MC + ':ModbusClientRTU.read'), ('chunking loop of the RTU write', MC + ':ModbusClientRTU.write')],
     [('max_count', 'largest number of registers per request', MC + ':ModbusClientDeviceTCP')],
     ['bytes on the wire', 'returned register data'])

prop('C02', 'Every request frame on the wire encodes exactly the request',
     'A TCP request is a seven byte header (transaction 0, protocol 0, the length of what follows, the unit id) followed by function code, '
     'address and count, and for writes the byte count and the data. An RTU request is unit id, function code, address, count, for writes '
     'byte count and data, and the CRC-16 of all that. Function 3 is the default for reads, the caller may choose function 4, and writes '
     'use function 16.',
     ['inputs'], 'every unit id, address, count, function code and payload',
     'Tests compare a handful of captured frames through a fake transport; field placement must hold for all values.',
     [MC], [('request construction', MC + ':ModbusClientDeviceTCP._read, _write; ModbusClientRTU._read, _write'),
            ('CRC-16', MC + ':computeCRC')], (), ['bytes passed to the socket or the serial port'])

prop('C03', 'Response data is believed only after the response was checked',
     'A response is read until the number of bytes its own length field announces has arrived, and its payload is returned only if the '
     'transport checks passed: a matching CRC on RTU, no exception function code, and for RTU writes an echo of the request. A response '
     'with the exception bit set is reported as an exception error, a bad CRC or echo as an error, and silence (no more bytes) as a timeout '
     '(on TCP reads a closed connection is a client error); none of these ever returns data.',
     ['inputs', 'fault_sequences'], 'every byte sequence a device may answer, in every fragmentation, and silence at any point',
     'The tests script complete well-formed answers only; truncated, fragmented, corrupted and exception answers are not sampled.',
     [MC], [('response loops', MC + ':ModbusClientDeviceTCP._read, _write; ModbusClientRTU._read, _write'), ('CRC check', MC + ':checkCRC')],
     (), ['returned data', 'raised errors'])

prop('C04', 'The TCP connection of a request is opened when needed and always closed again',
     'A read or write on a device that is not connected opens a connection for the call and closes it on every outcome, success or error, '
     'and a device that was connected by its owner stays connected on the same socket. Closing or a failed connect leaves the device '
     'disconnected, and connection failures are reported as Modbus client errors.',
     ['histories', 'fault_sequences'], 'every interleaving of connect, read, write and close calls with failures at any socket operation',
     'Tests use a fake socket that never fails to connect or to send.',
     [MC], [('connect/disconnect around a transfer', MC + ':ModbusClientDeviceTCP.read, write, connect, disconnect, close')],
     [('socket', 'open connection or None', MC + ':ModbusClientDeviceTCP.socket')], ['sockets opened and closed'])

prop('C05', 'Device communication failures surface as the documented error types',
     'Whatever fails below the Modbus client (sockets, serial ports, responses, map files) reaches its caller as a Modbus client error or '
     'one of its kinds (timeout, exception), and whatever fails below the SunSpec client reaches its caller as a SunSpec client error. '
     'The message of the cause is kept, and no failure of a transfer is swallowed.',
     ['fault_sequences'], 'every failure of a transport or library operation reachable from a client call',
     'The tests provoke almost no transport failures.',
     [MC, CL], [('exception translation', MC + ': except clauses; ' + CL + ':ClientDevice.read, write, scan, close')], (),
     ['exception types seen by callers'])

prop('C06', 'A connection that was asked to use TLS is never downgraded',
     'A device configured with TLS sends and receives only through the TLS session that was wrapped around its socket, with the CA file '
     'and the client certificate and key given by the user. Server certificates and host names are checked unless the user explicitly '
     'asked to skip verification. A failed TLS setup is a connection error and never falls back to plain text.',
     ['configurations', 'fault_sequences'], 'every combination of TLS options and every failure while connecting',
     'No test opens a TLS connection.',
     [MC], [('TLS set-up', MC + ':ModbusClientDeviceTCP.connect'), ('option storage', MC + ':ModbusClientDeviceTCP.__init__')],
     (), ['arguments given to the ssl library', 'socket used for transfers'])

prop('C07', 'Every connection option reaches the transport it configures',
     'Slave id, address or serial port name, port number, baud rate, parity, timeout, request limit, trace function and TLS options given when '
     'a device is created are the ones its transport uses, with the documented defaults (port 502, 9600 baud, no parity) for those left '
     'out. This holds for the Modbus devices as for the SunSpec device classes built on top of them; unsupported device types are rejected.',
     ['configurations'], 'every combination of given and omitted options for RTU, TCP and mapped devices',
     'Tests create devices with two or three option combinations.',
     [MC, CL], [('constructors', MC + ':ModbusClientDeviceTCP.__init__, ModbusClientDeviceRTU.__init__, ModbusClientRTU.__init__; ' + CL +
                 ':ClientDevice.__init__, SunSpecClientDevice.__init__')], (), ['arguments given to sockets and serial ports'])

prop('C08', 'Register values are converted by the documented wire formats, both ways',
     'Integers of 16, 32 and 64 bits, floats, strings, IPv6 and EUI-48 addresses are converted between registers and Python values in big-endian '
     'SunSpec layout, and encoding is the inverse of decoding for every value the type can carry. String points are encoded to exactly '
     'their register length and decoded without the trailing NULs. Each of the SunSpec point types uses the converter, length and default of its own type.',
     ['inputs'], 'every value of every SunSpec point type',
     'Unit tests convert a few constants per type; the layout must hold for all values.',
     [UT, DV], [('converters', UT + ':data_to_*, *_to_data'), ('type table', DV + ':point_type_info / Point tables')], (),
     ['values of points', 'bytes written'])

prop('C09', 'Unimplemented sentinel values are recognised for every type, and only them',
     'For each SunSpec point type, a value is reported as not implemented exactly when it is that type\'s sentinel (0x8000 for signed 16 bit, '
     'all ones for unsigned and enumerations, NaN for floats, zero for accumulators and IP addresses, empty or NUL text for strings). '
     'Unimplemented points read as None.',
     ['inputs'], 'every value of every SunSpec point type',
     'Tests check one or two values per type.',
     [SU, DV], [('sentinel tests', SU + ':suns_is_impl_*'), ('type table', DV)], (), ['point values after a read'])

prop('C10', 'Blocks and points of a model are laid out exactly as its definition says',
     'Loading a model of a given length creates the fixed block at the start of the model and as many repeating blocks as fit the remaining '
     'length, each point at its block address plus its defined offset, in definition order. A model without a definition or with a length that does not fit '
     'has no invented points: definition problems are reported as errors or as the load error of the model.',
     ['inputs', 'configurations'], 'every model definition and every model length and address',
     'The models are an empty submodule here, so no test loads a real definition with repeating blocks.',
     [DV], [('layout', DV + ':Model.load'), ('blocks', DV + ':Block.__init__'), ('length', DV + ':Model.__init__')],
     [('blocks', 'fixed and repeating blocks', DV + ':Model.blocks'), ('points', 'points by id', DV + ':Model.points')],
     ['addresses of points and blocks'])

prop('C11', 'A model read decodes every point from its own registers, or fails',
     'Reading a model fetches all of its registers in bounded requests and gives every point the value decoded from the registers at its own '
     'address, None if these hold the unimplemented sentinel. Scale factors are '
     'taken from the same read. A failed or short read is reported as an error and never yields values from missing registers.',
     ['inputs', 'fault_sequences'], 'every register content, model layout and read failure',
     'No test reads a model with a definition, and none injects read failures.',
     [CL, DV], [('model read', CL + ':ClientModel.read_points'), ('device read', CL + ':ClientDevice.read_points, read')], (),
     ['point values', 'scale factor values'])

prop('C12', 'Writing a model sends exactly the modified points, and marks follow success',
     'Writing a model sends the encoded value of every modified point to the registers of that point and nothing else, grouping only points that '
     'are adjacent, with the current values of the points. A point stops being marked as modified only after the request '
     'that carries it has succeeded; after a failed write the unwritten points are still marked.',
     ['histories', 'fault_sequences'], 'every sequence of point modifications, writes and write failures',
     'Tests write single points to a device that never fails.',
     [CL], [('model write', CL + ':ClientModel.write_points'), ('point write', CL + ':ClientPoint.write')],
     [('dirty', 'modified since last write', DV + ':Point.dirty')], ['write requests', 'marks after a failure'])

prop('C13', 'Scaled values, raw values and modification marks of points agree',
     'The value of a point is its raw register value times ten to the power of its scale factor, and assigning a value stores the raw '
     'value divided by that factor, as an integer where a scale factor applies, and marks the point modified. A point whose value '
     'is not implemented reads as None; without a scale factor value, and when asked for the unscaled value, the raw value is used as it is.',
     ['inputs', 'histories'], 'every raw value and scale factor, and every sequence of assignments',
     'Tests assign a few values to a few points.',
     [DV], [('value access', DV + ':Point.value, value_base accessors')], [('dirty', 'modified mark', DV + ':Point')], ['point values'])

prop('C14', 'A scale factor is resolved to the right point or constant',
     'The scale factor of a point is the constant given by its definition, or the scale factor point named by it in the same block, or else in the '
     'fixed block of the model; an unresolvable name is reported as an error. Changing the value of a scale factor point by a read '
     'takes effect on every point that refers to it.',
     ['inputs', 'configurations'], 'every model definition and block index',
     'No test loads a repeating-block model with its own scale factors.',
     [DV], [('resolution', DV + ':Model.load, Point')], (), ['values of scaled points'])

prop('C15', 'A scan finds exactly the models on the device and leaves it disconnected',
     'Scanning tries the documented base addresses in order (or the known one), accepts only one that holds the SunSpec identifier, and then walks '
     'the model chain by the id and length headers until the end marker, recording each model with its id, address and '
     'length. Progress callbacks may stop the scan. A scan with no identifier found or a failed read is an error, and the '
     'connection is closed on every outcome.',
     ['inputs', 'fault_sequences', 'histories'], 'every register content of a device, every read failure, every progress answer',
     'The tests scan two simulated devices at one base address.',
     [CL], [('scan', CL + ':ClientDevice.scan, _scan'), ('device set-up', CL + ':SunSpecClientDevice.__init__')],
     [('base_addr', 'base address found', DV + ':Device.base_addr')], ['read requests', 'models_list'])

prop('C16', 'Model definitions are never modified by their users, nor state shared',
     'Using devices, models, '
     'blocks and points (load, read, write, value assignment, document import and export) never modifies a definition once it is loaded, and two '
     'devices, models or definitions never share mutable state through class attributes, default arguments or module variables; the only module state is '
     'the definition cache, the definition search path, the open serial ports and the generated scripting classes.',
     ['histories'], 'every sequence of operations on any number of devices',
     'Tests use one device at a time.',
     [DV, CL, PI], [('definition cache', DV + ':model_type_get'), ('definitions', DV + ':ModelType, BlockType, PointType, Symbol')],
     [('model_types', 'cache of definitions', DV + ':model_types')], ['writes to definition objects'])

prop('C17', 'A register map access is exact, or fails and leaves the map untouched',
     'A read of a register map returns exactly the requested registers, in order, also across adjoining blocks, or raises a map error when any of them is not in '
     'the map or the function does not match. A write replaces exactly the addressed registers and nothing else, and a write '
     'that does not fit leaves the whole map unchanged and raises a map error.',
     ['inputs', 'histories'], 'every map of ordered register blocks, every address range and data',
     'Tests use maps of one or two blocks and a few addresses.',
     [MM, MC], [('read', MM + ':ModbusMap.read, ModbusMapRegs.read'), ('write', MM + ':ModbusMap.write, ModbusMapRegs.write')],
     [('regs', 'ordered register blocks', MM + ':ModbusMap.regs')], ['returned data', 'register content'])

prop('C18', 'Loading a map document yields the registers it describes or a map error',
     'Each register entry of a map document is stored at its offset (or right after the previous entry) with its data encoded by its type, padded to '
     'its length, adjoining entries forming one block. Overlapping or descending offsets, unknown types or functions, bad numbers and hex data '
     'longer than the declared length are map errors, as are unreadable files (text is padded or cut to a declared length).',
     ['inputs'], 'every map document and hex dump',
     'Tests load three documents; error paths and most types are not sampled.',
     [MM], [('load', MM + ':ModbusMap.from_xml, from_hex, regs_add')], (), ['register blocks after loading'])

prop('C19', 'A saved map document describes the map completely',
     'Saving a map writes the base address, function, the optional namespace, logger, map id and time, and for every block its offset, length, '
     'access and, unless data is left out, the hex text of exactly its registers, so that loading the document gives an equal map. Two maps '
     'are reported equal only if base address, function and all registers agree.',
     ['inputs'], 'every map', 'One document is saved and compared in the tests.',
     [MM], [('save', MM + ':ModbusMap.to_xml'), ('comparison', MM + ':ModbusMap.not_equal, ModbusMapRegs.not_equal')], (), ['document content'])

prop('C20', 'Logged data documents keep every device, model and point they contain',
     'Saving a data record writes every device with its identity, every model with id, index and namespace and every point with its '
     'id, value, index, scale factor and time; loading the document restores them all, in order and without mixing the devices. '
     'Attributes that are absent stay absent.',
     ['inputs'], 'every data record', 'The tests load and save two documents.',
     [DA], [('save and load', DA + ':SunSpecData, DeviceData, ModelData, PointData')], (), ['document content', 'loaded objects'])

prop('C21', 'A PICS document stores and restores every model, block and point',
     'Exporting a device to PICS writes each model with its id and, with their indexes, its blocks, and each point with its value, implemented state and access; importing '
     'gives each named point of the named block that value and state, and rejects unknown models, blocks, points and out-of-range indexes with an error. '
     'A single repeating block is written once or for every instance as requested.',
     ['inputs'], 'every device and every PICS document', 'The PICS tests compare a few documents.',
     [DV, PI], [('import/export', DV + ':Device.from_pics, to_pics; Model, Block, Point from_pics, to_pics')], (), ['document content', 'points after import'])

prop('C22', 'Comparisons of devices, models and definitions miss no difference',
     'Two devices, models, blocks or points are reported equal only if they have the same number of models and blocks, in order, with the same ids, equal definitions, and '
     'agreeing raw values and scale factor values, and two model or block definitions only if their ids, lengths, types and contents agree. Any reported difference is a real one.',
     ['inputs'], 'every pair of devices, models or definitions', 'Tests compare mostly equal objects.',
     [DV], [('comparison', DV + ': not_equal methods')], (), ['comparison results'])

prop('C23', 'A path list returns the first match in its search order',
     'Reading a file through a path list returns the content of the first entry, directory or zip archive, in the order they were added, that contains the file, '
     'and fails when none does. The state of one entry never affects the search of another, and archives are closed again.',
     ['inputs', 'configurations', 'histories'], 'every list of directories and archives', 'Tests use one directory and one archive.',
     [UT], [('search', UT + ':PathList.read, add, __init__')], (), ['content returned'])

prop('C24', 'Devices on one serial port share one client, closed with the last of them',
     'Devices with distinct unit ids that name the same serial port share one open port, as long as their baud rate and parity agree; a conflicting one is '
     'rejected with an error and changes nothing. The port is closed and forgotten when the last device using it is closed, not before.',
     ['histories', 'configurations'], 'every sequence of opening and closing devices on any ports',
     'Tests open one device on one port.',
     [MC], [('port registry', MC + ':modbus_rtu_client, modbus_rtu_client_remove'), ('device registry', MC + ':ModbusClientRTU.add_device, remove_device')],
     [('modbus_rtu_clients', 'open ports by name', MC)], ['ports opened and closed'])

prop('C25', 'The scripting view of a device mirrors the device',
     'Each model of a scanned device is available by the name of its definition, each point by its id as attribute and as item, scaled, and assignments go to the '
     'device point and mark it modified. Repeating blocks are available by index from 1, several models with one id as a list. An item name unknown to the model '
     'gives None and ignores assignment. Reading and writing through the view reads and writes the underlying model.',
     ['inputs', 'histories'], 'every device and every sequence of accesses',
     'The tests access a few points of two models.',
     [CL], [('view classes', CL + ':SunSpecClientDevice, SunSpecClientModelBase, SunSpecClientBlockBase, model_class_get')], (), ['attribute values'])

prop('C26', 'No operation ends in an internal fault of the library',
     'No library call ends in an error caused by the library itself: a name that is not defined, a variable used before it is set, a call '
     'with the wrong arguments, an attribute that no object has, or a malformed message format. Error paths report the intended error.',
     ['inputs', 'fault_sequences'], 'every path through the library, error paths included',
     'Error paths are hardly executed by the tests.',
     [MC, MM, CL, DV, UT, DA, SU, SM, PI, SC], [('all functions', 'the whole tree')], (), ['exceptions raised'])

prop('C27', 'Tracing only observes',
     'Switching on a trace function changes nothing about the requests sent, the data returned, the errors raised or the connection state; the trace function '
     'receives the request and the response bytes.',
     ['configurations'], 'every request with and without a trace function', 'Tests never switch tracing on.',
     [MC], [('trace calls', MC + ':_read, _write')], (), ['requests and results'])

prop('C28', 'A model definition document is loaded completely or rejected',
     'Loading a definition takes every block, point, attribute, symbol and string of the document, checks that names, types, offsets and '
     'lengths are well formed, and rejects inconsistent definitions with an error. Missing documents are reported as such, and file names are derived from the model id.',
     ['inputs'], 'every definition document', 'No definitions are present when the tests run.',
     [DV, SM], [('definition load', DV + ':ModelType.from_smdx, BlockType.from_smdx, PointType.from_smdx, Symbol.from_smdx, model_type_get'),
                ('names', SM)], (), ['definition objects'])

prop('C29', 'Request and response timing stays within the configured timeouts',
     'A request to a device that does not answer returns within the configured timeout.',
     ['schedules', 'fault_sequences'], 'every response timing', 'Timing is not tested.',
     [MC], [('timeouts', MC + ':socket and serial timeouts')], (), ['elapsed time'],
     na='wall-clock bounds depend on the socket and serial implementations; no static argument over this source bounds them (that the '
        'timeout reaches the transport is decided under C07)')
prop('C30', 'Scaled float values survive a write and read back without drift',
     'A value assigned to a scaled point reads back within one unit of the scale factor.',
     ['inputs'], 'every float value and scale factor', 'Only a few values are tested.',
     [DV], [('scaling', DV + ':Point.value')], (), ['values'],
     na='quantifies over IEEE rounding of 10**sf products; the shape of the scaling is decided under C13, the rounding error is a '
        'numerical fact no dataflow rule here bounds')
prop('C31', 'Concurrent use of devices from several threads is safe',
     'Threads using different devices, also on one serial port, do not corrupt each other\'s transfers.',
     ['schedules'], 'every interleaving of threads', 'No test uses threads.',
     [MC], [('port sharing', MC + ':ModbusClientRTU')], (), ['transfers'],
     na='the library takes no locks and documents no thread safety, so there is no discipline to check')
prop('C32', 'Corrupted RTU frames are detected by the CRC',
     'A corrupted response with up to three bit errors is never accepted.',
     ['inputs', 'fault_sequences'], 'every corruption pattern', 'No corrupted frames are tested.',
     [MC], [('CRC-16', MC + ':computeCRC')], (), ['accepted frames'],
     na='an algebraic property of the CRC-16 polynomial, not of this source; that the CRC is computed by the standard recurrence and '
        'checked before use is decided under C02 and C03')

TECH = {}
LEVELNOTE = ('Static: the functions behind the property are turned into gated value-flow graphs (path conditions, ordered effects, exits, '
             'field updates, loops as recurrences) and compared, on every case split, with a reference flow written from the property. A mismatch is '
             'reported with the construct; code the analysis cannot model is reported as UNDECIDED in the evidence, not as held. Trusts the library '
             'model (sockets, serial, struct, ElementTree) and the reference models.')


def main():
    import sys
    sys.path.insert(0, HERE)
    from sa.props import PROPS as RULES
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                             'observe_at': list(p['observe']), 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 check.py --self', 'checks': [], 'not_applicable': [], 'notes': 'see DESIGN.md'}
    for p in PROPS:
        if p['na']:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in RULES:
            r = RULES[p['id']]
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                                  'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                                  'technique': r.get('technique') or 'gated value-flow graphs (interprocedural dataflow) matched against '
                                  'reference flows', 'level': 'other', 'level_note': r.get('note') or LEVELNOTE})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': 'rules not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
