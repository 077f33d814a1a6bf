"""Types of the fields and parameters of the analysed tree, and the modular
summaries (stubs) used for public functions that have a rule of their own."""
from . import interp as I
from .terms import *

F = I.FIELD_TYPES


def fields(cls, **kw):
    for k, v in kw.items():
        F[(cls, k)] = v


fields('ModbusClientDeviceTCP', slave_id='int', ipaddr='str', ipport='int', timeout='num', socket='obj:socket?', tls='bool',
       cafile='str?', certfile='str?', keyfile='str?', tls_verify='bool', max_count='int', ctx=None, trace_func='obj:func?')
fields('ModbusClientRTU', name='str', baudrate='int', parity='str?', serial='obj:serial?', timeout='num', write_timeout='num',
       devices='dict:obj:ModbusClientDeviceRTU')
fields('ModbusClientDeviceRTU', slave_id='int', name='str', client='obj:ModbusClientRTU?', max_count='int', trace_func='obj:func?')
fields('ModbusClientDeviceMapped', slave_id='int', name='str', modbus_map='obj:ModbusMap?')
fields('Element', tag='str', text='str?', attrib='dict:str', tail='str?')
F[('sunspec.core.modbus.client', 'modbus_rtu_clients')] = 'dict:obj:ModbusClientRTU'
fields('ModbusMap', slave_id='int', func='str?', base_addr='int', regs='list:obj:ModbusMapRegs', pad='int?', ns='str?', lid='str?',
       mapid='str?', time='str?')
fields('ModbusMapRegs', offset='int', count='int', data='bytes', access='str?')

# devices, models, blocks, points
fields('Device', base_addr='int', models_list='list:obj:Model', models='dict:list:obj:Model')
fields('Block', model='obj:Model', block_type='obj:BlockType', addr='int', len='int', type='str', index='int', points_list='list:obj:Point',
       points='dict:obj:Point', points_sf='dict:obj:Point')
fields('Point', block='obj:Block?', point_type='obj:PointType', addr='str', sf_point='obj:Point?', impl='bool', value_base=None,
       value_sf='int?', dirty='bool')
fields('ScaleFactor', value_base='int?')
fields('Model', device='obj:Device?', id='int', index='int', model_type='obj:ModelType?', addr='int', len='int',
       points_list='list:obj:Point', points='dict:obj:Point', points_sf='dict:obj:Point', blocks='list:obj:Block', load_error='str?',
       read_blocks='list:int')
fields('ModelType', id='int', len='int', name='str?', label='str?', description='str?', notes='str?', fixed_block='obj:BlockType',
       repeating_block='obj:BlockType?', symbols='dict:obj:Symbol')
fields('BlockType', model_type='obj:ModelType', type='str', len='str', name='str?', points_list='list:obj:PointType',
       points='dict:obj:PointType')
fields('PointType', block_type='obj:BlockType', id='str', offset='int', type='str', len='int', mandatory='str?', access='str?', units='str?',
       sf='str?', label='str?', description='str?', notes='str?', value_default=None, is_impl='obj:func', data_to='obj:func',
       to_data='obj:func', to_value='obj:func', symbols='list:obj:Symbol')
fields('Symbol', id='str', value='str?', label='str?', description='str?', notes='str?')
F[('sunspec.core.device', 'model_types')] = 'dict:obj:ModelType'
F[('sunspec.core.device', 'file_pathlist')] = 'obj:PathList?'
F[('sunspec.core.device', 'model_type_path_default')] = 'str'

# the SunSpec client
fields('ClientDevice', type='str', name='str?', pathlist='obj:PathList?', slave_id='int?', modbus_device='obj:ModbusDevice?', retry_count='int',
       base_addr_list='list:int', base_addr='int?', models_list='list:obj:ClientModel')
fields('ClientModel', device='obj:ClientDevice', blocks='list:obj:ClientBlock', points_list='list:obj:ClientPoint',
       points='dict:obj:ClientPoint', points_sf='dict:obj:ClientPoint')
fields('ClientBlock', model='obj:ClientModel', points_list='list:obj:ClientPoint', points='dict:obj:ClientPoint',
       points_sf='dict:obj:ClientPoint')
fields('ClientPoint', block='obj:ClientBlock')
fields('SunSpecClientModelBase', model='obj:ClientModel', name='str', repeating='list:', repeating_name='str')
fields('SunSpecClientBlockBase', block='obj:ClientBlock', name='str')
fields('SunSpecClientDevice', device='obj:ClientDevice', models='list:str')

# logged data documents, file search
fields('SunSpecData', root='obj:Element?', version='str?', device_data='list:obj:DeviceData')
fields('DeviceData', logger_id='str?', namespace='str?', device_id='str?', ifc='str?', man='str?', mod='str?', sn='str?', timestamp='str?',
       time='str?', cid='str?', model_data='list:obj:ModelData')
fields('ModelData', model_id='str?', namespace='str?', index='int?', point_data='list:obj:PointData')
fields('PointData', point_id='str?', value=None, index='int?', sf='int?', units='str?', desc='str?', time='str?')
fields('PathList', path='list:str')
