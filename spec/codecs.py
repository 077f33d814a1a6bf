"""Reference model: register values and point types (never executed)."""
import base64
import math
import struct

import sunspec.core.suns as suns


def s16(data):
    return struct.unpack('>h', data)[0]


def u16(data):
    return struct.unpack('>H', data)[0]


def s32(data):
    return struct.unpack('>i', data)[0]


def u32(data):
    return struct.unpack('>I', data)[0]


def s64(data):
    return struct.unpack('>q', data)[0]


def u64(data):
    return struct.unpack('>Q', data)[0]


def ipv6addr(data):
    if len(data) != 16:
        return None
    for b in data:
        if b != 0:
            break
    else:
        return None
    h = ['%02X' % data[i] for i in range(16)]
    return (h[0] + h[1] + h[2] + h[3] + ':' + h[4] + h[5] + h[6] + h[7] + ':' + h[8] + h[9] + h[10] + h[11] + ':' +
            h[12] + h[13] + h[14] + h[15])


def eui48(data):
    if len(data) != 8:
        return None
    for b in data:
        if b != 0:
            break
    else:
        return None
    h = ['%02X' % data[i] for i in range(2, 8)]
    return h[0] + ':' + h[1] + ':' + h[2] + ':' + h[3] + ':' + h[4] + ':' + h[5]


def float32(data):
    f = struct.unpack('>f', data)[0]
    return None if math.isnan(f) else f


def float64(data):
    f = struct.unpack('>d', data)[0]
    return None if math.isnan(f) else f


def text(data):
    s = str(data, 'latin-1')
    if len(s) > 1:
        s = s[0] + s[1:].rstrip('\0')
    return s


def to_s16(v, len=None):
    return struct.pack('>h', v)


def to_u16(v, len=None):
    return struct.pack('>H', v)


def to_s32(v, len=None):
    return struct.pack('>i', v)


def to_u32(v, len=None):
    return struct.pack('>I', v)


def to_s64(v, len=None):
    return struct.pack('>q', v)


def to_u64(v, len=None):
    return struct.pack('>Q', v)


def to_float32(v, len=None):
    return struct.pack('>f', v)


def to_float64(v, len=None):
    return struct.pack('>d', v)


def to_ipv6addr(addr, slen=None):
    raw = base64.b16decode(addr.replace(':', ''))
    return struct.pack('%ds' % (len(raw) if slen is None else slen), raw)


def to_eui48(eui48, len=None):
    return b'\0\0' + base64.b16decode(eui48.replace(':', ''))


def to_text(s, slen=None):
    raw = bytes(s, 'latin-1')
    if slen is None:
        if len(raw) < 16:
            return struct.pack(str(len(raw) + 1) + 's', raw + b'\0')
        return struct.pack(str(len(raw)) + 's', raw)
    return struct.pack(str(slen) + 's', raw)


# ------------------------------------------------------------ sentinels
def impl_float(v):
    return v is not None and not math.isnan(v)


def impl_text(v):
    if v:
        return v[0] != '\0'
    return False


def to_int(x):
    try:
        return int(x, 0)
    except TypeError:
        return int(x)


def to_str(x):
    return str(x)


def to_float(x):
    try:
        return float(x)
    except ValueError:
        return None


# --------------------------------------------------------- the type table
# probe: what the library's table does with one value of one type
def probe(ptype, data, value, x, n):
    info = suns.suns_point_type_info[ptype]
    return info[0], info[1](value), info[2](data), info[3](value, n), info[4](x), info[5]


def t_int16(ptype, data, value, x, n):
    return 1, value != -0x8000, s16(data), to_s16(value), to_int(x), 0


def t_uint16(ptype, data, value, x, n):
    return 1, value != 0xffff, u16(data), to_u16(value), to_int(x), 0


def t_acc16(ptype, data, value, x, n):
    return 1, value != 0, u16(data), to_u16(value), to_int(x), 0


def t_int32(ptype, data, value, x, n):
    return 2, value != -0x80000000, s32(data), to_s32(value), to_int(x), 0


def t_uint32(ptype, data, value, x, n):
    return 2, value != 0xffffffff, u32(data), to_u32(value), to_int(x), 0


def t_acc32(ptype, data, value, x, n):
    return 2, value != 0, u32(data), to_u32(value), to_int(x), 0


def t_int64(ptype, data, value, x, n):
    return 4, value != -0x8000000000000000, s64(data), to_s64(value), to_int(x), 0


def t_uint64(ptype, data, value, x, n):
    return 4, value != 0xffffffffffffffff, u64(data), to_u64(value), to_int(x), 0


def t_acc64(ptype, data, value, x, n):
    return 4, value != 0, u64(data), to_u64(value), to_int(x), 0


def t_float32(ptype, data, value, x, n):
    return 2, impl_float(value), float32(data), to_float32(value), to_float(x), 0


def t_ipv6addr(ptype, data, value, x, n):
    return 8, impl_text(value), ipv6addr(data), to_ipv6addr(value, n), str(x), 0


def t_eui48(ptype, data, value, x, n):
    return 4, value != 'FF:FF:FF:FF:FF:FF', eui48(data), to_eui48(value), str(x), 0


def t_string(ptype, data, value, x, n):
    return None, impl_text(value), text(data), to_text(value, n), str(x), ''


# which names the table knows
def has_type(ptype):
    return suns.suns_point_type_info.get(ptype) is not None


def is_type(ptype):
    return ptype in ('int16', 'uint16', 'count', 'acc16', 'enum16', 'bitfield16', 'pad', 'int32', 'uint32', 'acc32', 'enum32',
                     'bitfield32', 'ipaddr', 'int64', 'uint64', 'acc64', 'ipv6addr', 'float32', 'string', 'sunssf', 'eui48')
