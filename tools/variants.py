"""Hand-written refactorings that keep the behaviour; the rules have to stay
quiet on them.   python3 tools/variants.py [name...] [--test]"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'sunspec/core/modbus/client.py'
MM = 'sunspec/core/modbus/mbmap.py'
CL = 'sunspec/core/client.py'
DV = 'sunspec/core/device.py'
UT = 'sunspec/core/util.py'
SU = 'sunspec/core/suns.py'
DA = 'sunspec/core/data.py'
SM = 'sunspec/core/smdx.py'
V = []


def variant(name, keys, *edits):
    """edits: (file, old, new) or (file, old, new, count)"""
    V.append((name, keys, edits))


def rewrite(name, keys, path, **fns):
    """whole functions replaced; the name of each is Class__method or function,
    _top: text put before the first class"""
    import ast
    import textwrap
    src = open(os.path.join('/repo', path)).read()
    lines = src.split('\n')
    tree = ast.parse(src)
    edits = []
    for q, new in fns.items():
        if q == '_top':
            n = [x for x in tree.body if isinstance(x, (ast.ClassDef, ast.FunctionDef))][0]
            line = lines[(n.decorator_list or [n])[0].lineno - 1]
            edits.append((path, line, textwrap.dedent(new).strip('\n') + '\n\n' + line))
            continue
        body = tree.body
        ind = ''
        parts = q.split('__', 1) if not q.startswith('__') else [q]
        for c in parts:
            n = [x for x in body if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == c][-1]
            body = n.body
        old = '\n'.join(lines[n.lineno - 1 - len(n.decorator_list):n.end_lineno])
        new = textwrap.dedent(new).strip('\n')
        if len(parts) == 2:
            new = textwrap.indent(new, '    ')
        edits.append((path, old, new))
    V.append((name, keys, edits))


MODBUS = 'tcp.*,rtu.*,rtudev.*,mapped.*,crc.*'

variant('latin-helper', MODBUS,
        (MC, '            if type(c) == bytes and sys.version_info > (3,):\n                temp = ""\n                for i in c:\n                    temp += chr(i)\n                c = temp\n',
         '            c = _to_text(c)\n', 2),
        (MC, '        if sys.version_info > (3,):\n            temp = ""\n            for i in resp:\n                temp += chr(i)\n            resp = temp\n',
         '        resp = _to_text(resp)\n', 1),
        (MC, 'def modbus_rtu_client(name=None', 'def _to_text(data):\n    if isinstance(data, bytes):\n        return data.decode(\'latin-1\')\n    return data\n\ndef modbus_rtu_client(name=None'))
variant('trace-helper', MODBUS,
        (MC, "            s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)\n            for c in bytearray(req):\n                s += '%02X' % (c)\n            self.trace_func(s)\n",
         "            self._trace('->', addr, bytearray(req))\n", 2),
        (MC, "            s = '{}:{}:{}[addr={}] <--'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)\n            for c in resp:\n                s += '%02X' % (ord(c))\n            self.trace_func(s)\n",
         "            self._trace('<--', addr, [ord(c) for c in resp])\n", 2),
        (MC, "    def disconnect(self):\n        \"\"\"Disc", "    def _trace(self, arrow, addr, octets):\n        text = ''.join('%02X' % octet for octet in octets)\n        self.trace_func('{}:{}:{}[addr={}] {}{}'.format(self.ipaddr, self.ipport, self.slave_id, addr, arrow, text))\n\n    def disconnect(self):\n        \"\"\"Disc"))
variant('recv-exact', MODBUS,
        (MC, """        while len_remaining > 0:
            try:
                c = self.socket.recv(len_remaining)
            except socket.timeout:
                raise ModbusClientTimeout('Response timeout')
            except Exception as e:
                raise ModbusClientError('Socket read error: %s' % str(e))
            # print('c = {0}'.format(c))
            len_read = len(c);
            if len_read > 0:
                resp += c
                len_remaining -= len_read
                if len_found is False and len(resp) >= TCP_HDR_LEN + TCP_RESP_MIN_LEN:
                    data_len = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
                    len_remaining = data_len[0] - (len(resp) - TCP_HDR_LEN)
            else:
                raise ModbusClientError('Response timeout')
""", """        while len_remaining > 0:
            c = self._recv(len_remaining)
            if not c:
                raise ModbusClientError('Response timeout')
            resp += c
            if len(resp) < TCP_HDR_LEN + TCP_RESP_MIN_LEN:
                len_remaining -= len(c)
            else:
                (announced,) = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
                len_remaining = TCP_HDR_LEN + announced - len(resp)
"""),
        (MC, "    def disconnect(self):\n        \"\"\"Disc", """    def _recv(self, size):
        try:
            return self.socket.recv(size)
        except socket.timeout:
            raise ModbusClientTimeout('Response timeout')
        except Exception as e:
            raise ModbusClientError('Socket read error: %s' % str(e))

    def disconnect(self):
        \"\"\"Disc"""))
variant('chunk-generator', MODBUS,
        (MC, """            while (count > 0):
                if count > self.max_count:
                    read_count = self.max_count
                else:
                    read_count = count
                data = self._read(addr + read_offset, read_count, op=op)

                if data:
                    resp += data
                    count -= read_count
                    read_offset += read_count
                else:
                    break
""", """            for read_offset in range(0, count, self.max_count):
                read_count = min(self.max_count, count - read_offset)
                data = self._read(addr + read_offset, read_count, op=op)
                if not data:
                    break
                resp += data
"""))
variant('chunk-min', MODBUS,
        (MC, """                if count > self.max_count:
                    read_count = self.max_count
                else:
                    read_count = count
""", """                read_count = min(count, self.max_count)
"""), (MC, """                if count > max_count:
                    write_count = max_count
                else:
                    write_count = count
""", """                write_count = count if count < max_count else max_count
"""), (MC, """                start = int(write_offset * 2)
                end = int((write_offset + write_count) * 2)
                self._write(addr + write_offset, data[start:end])
                count -= write_count
                write_offset += write_count
""", """                start = int(write_offset * 2)
                write_count = int(write_count)
                chunk = data[start:start + 2 * write_count]
                self._write(addr + write_offset, chunk)
                write_offset += write_count
                count -= write_count
"""))
variant('chunk-addr', MODBUS,
        (MC, """                data = self._read(slave_id, addr + read_offset, read_count, op=op, trace_func=trace_func)
                if data:
                    resp += data
                    count -= read_count
                    read_offset += read_count
                else:
                    break
""", """                data = self._read(slave_id, addr, read_count, op=op, trace_func=trace_func)
                if not data:
                    break
                resp += data
                addr += read_count
                count -= read_count
"""))
variant('rtu-guard-first', MODBUS,
        (MC, """        write_count = 0
        write_offset = 0
        count = len(data)/2

        if self.serial is not None:
            while (count > 0):
                if count > max_count:
                    write_count = max_count
                else:
                    write_count = count
                start = int(write_offset * 2)
                end = int((write_offset + write_count) * 2)
                self._write(slave_id, addr + write_offset, data[start:end],
                            trace_func=trace_func)
                count -= write_count
                write_offset += write_count
        else:
            raise ModbusClientError('Client serial port not open: %s' % self.name)
""", """        if self.serial is None:
            raise ModbusClientError('Client serial port not open: %s' % self.name)

        total = len(data) // 2
        offset = 0
        while offset < total:
            write_count = min(max_count, total - offset)
            self._write(slave_id, addr + offset, data[offset * 2:(offset + write_count) * 2], trace_func=trace_func)
            offset += write_count
"""))
variant('connect-locals', MODBUS,
        (MC, """            self.socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            self.socket.settimeout(timeout)

            if self.tls:
                context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
                context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                context.check_hostname = self.tls_verify

                self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
""", """            self.socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            self.socket.settimeout(timeout)

            if self.tls:
                self.socket = self._tls_context().wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
"""), (MC, "    def disconnect(self):\n        \"\"\"Disc", """    def _tls_context(self):
        context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
        context.load_cert_chain(self.certfile, self.keyfile)
        context.check_hostname = self.tls_verify
        return context

    def disconnect(self):
        \"\"\"Disc"""))
variant('init-ternary', MODBUS,
        (MC, """        self.ipport = ipport
        self.timeout = timeout
        self.ctx = ctx
        self.socket = None
""", """        self.ipport = ipport if ipport is not None else TCP_DEFAULT_PORT
        self.timeout = TCP_DEFAULT_TIMEOUT if timeout is None else timeout
        self.ctx = ctx
        self.socket = None
"""), (MC, """        if ipport is None:
            self.ipport = TCP_DEFAULT_PORT
        if timeout is None:
            self.timeout = TCP_DEFAULT_TIMEOUT

""", ''))
variant('registry-pop', MODBUS,
        (MC, "    if modbus_rtu_clients.get(name):\n        del modbus_rtu_clients[name]\n", "    modbus_rtu_clients.pop(name, None)\n"),
        (MC, "        if self.devices.get(slave_id):\n            del self.devices[slave_id]\n", "        self.devices.pop(slave_id, None)\n"),
        (MC, "        if len(self.devices) == 0:\n", "        if not self.devices:\n"))
variant('registry-early', MODBUS,
        (MC, """    client = modbus_rtu_clients.get(name)
    if client is not None:
        if baudrate is not None and client.baudrate != baudrate:
            raise ModbusClientError('Modbus client baudrate mismatch')
        if parity is not None and client.parity != parity:
            raise ModbusClientError('Modbus client parity mismatch')
    else:
        if baudrate is None:
            baudrate = 9600
        if parity is None:
            parity = PARITY_NONE

        client = ModbusClientRTU(name, baudrate, parity)
        modbus_rtu_clients[name] = client

    return client
""", """    if name in modbus_rtu_clients:
        client = modbus_rtu_clients[name]
        _check_match('baudrate', baudrate, client.baudrate)
        _check_match('parity', parity, client.parity)
        return client

    modbus_rtu_clients[name] = client = ModbusClientRTU(name, 9600 if baudrate is None else baudrate, PARITY_NONE if parity is None else parity)
    return client

def _check_match(what, wanted, actual):
    if wanted is not None and wanted != actual:
        raise ModbusClientError('Modbus client %s mismatch' % what)
"""))
variant('open-factory', MODBUS,
        (MC, """            if self.name != TEST_NAME:
                self.serial = serial.Serial(port = self.name, baudrate=self.baudrate,
                                            bytesize=8, parity=parity,
                                            stopbits=1, xonxoff=0,
                                            timeout=self.timeout, writeTimeout=self.write_timeout)
            else:
                import sunspec.core.test.fake.serial as fake
                self.serial = fake.Serial(port = self.name, baudrate=self.baudrate,
                                          bytesize=8, parity=parity,
                                          stopbits=1, xonxoff=0,
                                          timeout=self.timeout, writeTimeout=self.write_timeout)
""", """            if self.name == TEST_NAME:
                import sunspec.core.test.fake.serial as fake
                factory = fake.Serial
            else:
                factory = serial.Serial
            self.serial = factory(port=self.name, baudrate=self.baudrate, bytesize=8, parity=parity, stopbits=1, xonxoff=0,
                                  timeout=self.timeout, writeTimeout=self.write_timeout)
"""))
variant('open-kwargs', MODBUS,
        (MC, """                self.serial = serial.Serial(port = self.name, baudrate=self.baudrate,
                                            bytesize=8, parity=parity,
                                            stopbits=1, xonxoff=0,
                                            timeout=self.timeout, writeTimeout=self.write_timeout)
""", """                options = dict(port=self.name, baudrate=self.baudrate, bytesize=8, parity=parity, stopbits=1, xonxoff=0)
                options['timeout'] = self.timeout
                options['writeTimeout'] = self.write_timeout
                self.serial = serial.Serial(**options)
"""))
variant('crc-index', MODBUS,
        (MC, "    for a in data:\n        idx = __crc16_table[(crc ^ ord(a)) & 0xff];\n        crc = ((crc >> 8) & 0xff) ^ idx\n",
         "    for n in range(len(data)):\n        crc = ((crc >> 8) & 0xff) ^ __crc16_table[(crc ^ ord(data[n])) & 0xff]\n"))
variant('crc-bytes', MODBUS,
        (MC, "    if type(data) == bytes and sys.version_info > (3,):\n        temp = \"\"\n        for i in data:\n            temp += chr(i)\n        data = temp\n    for a in data:\n        idx = __crc16_table[(crc ^ ord(a)) & 0xff];\n",
         "    octets = data if isinstance(data, bytes) else [ord(c) for c in data]\n    for octet in octets:\n        idx = __crc16_table[(crc ^ octet) & 0xff]\n"))
variant('write-check-tuple', MODBUS,
        (MC, "            if resp_slave_id != slave_id or resp_func != func or resp_addr != addr or resp_count != count:\n",
         "            if (resp_slave_id, resp_func, resp_addr, resp_count) != (slave_id, func, addr, count):\n"))
variant('frame-builder', MODBUS,
        (MC, "        req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))\n",
         "        pdu = struct.pack('>BHH', op, int(addr), int(count))\n        req = self._frame(pdu)\n"),
        (MC, "        req = struct.pack('>HHHBBHHB', 0, 0, TCP_WRITE_MULT_REQ_LEN + write_len, int(self.slave_id), func, int(addr), write_count, write_len)\n        if sys.version_info > (3,):\n            if type(data) is not bytes:\n                data = bytes(data, \"latin-1\")\n        req += data\n",
         "        if type(data) is not bytes:\n            data = bytes(data, 'latin-1')\n        req = self._frame(struct.pack('>BHHB', func, int(addr), write_count, write_len) + data)\n"),
        (MC, "    def disconnect(self):\n        \"\"\"Disc", """    def _frame(self, pdu):
        header = struct.pack('>HHHB', 0, 0, len(pdu) + 1, int(self.slave_id))
        return header + pdu

    def disconnect(self):
        \"\"\"Disc"""))
variant('local-connect-flag', MODBUS,
        (MC, """        write_count = 0
        write_offset = 0
        local_connect = False
        count = len(data)/2

        if self.socket is None:
            local_connect = True
            self.connect(self.timeout)
""", """        write_count = 0
        write_offset = 0
        count = len(data)/2
        local_connect = not self.socket

        if local_connect:
            self.connect(self.timeout)
"""))
variant('disconnect-swap', MODBUS,
        (MC, """        try:
            if self.socket:
                self.socket.close()
        except Exception:
            pass
        self.socket = None
""", """        sock, self.socket = self.socket, None
        if sock:
            try:
                sock.close()
            except Exception:
                pass
"""))
variant('read-list-join', MODBUS,
        (MC, """            while (count > 0):
                if count > self.max_count:
                    read_count = self.max_count
                else:
                    read_count = count
                data = self._read(addr + read_offset, read_count, op=op)

                if data:
                    resp += data
                    count -= read_count
                    read_offset += read_count
                else:
                    break
""", """            parts = []
            while (count > 0):
                if count > self.max_count:
                    read_count = self.max_count
                else:
                    read_count = count
                data = self._read(addr + read_offset, read_count, op=op)

                if not data:
                    break
                parts.append(data)
                count -= read_count
                read_offset += read_count
            resp = ''.join(parts)
"""))


def run_one(v):
    name, keys, edits = v
    text = []
    d = tempfile.mkdtemp(prefix='rv')
    dst = os.path.join(d, 'repo')
    shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build', '*.egg-info'))
    ok = True
    for e in edits:
        p = os.path.join(dst, e[0])
        s = open(p).read()
        n = s.count(e[1])
        want = e[3] if len(e) > 3 else None
        if n == 0 or (want and n != want):
            text.append('!! %s: text found %d times: %r' % (name, n, e[1][:70]))
            ok = False
            continue
        s = s.replace(e[1], e[2]) if want else s.replace(e[1], e[2], 1)
        open(p, 'w').write(s)
    for p in {os.path.join(dst, e[0]) for e in edits}:
        try:
            compile(open(p).read(), p, 'exec')
        except SyntaxError as ex:
            text.append('!! %s: %s' % (name, ex))
            ok = False
    tests = ''
    env = dict(os.environ, VERIF_REPO=dst)
    if ok and '--test' in sys.argv:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', dst + '/sunspec'], capture_output=True, text=True,
                           cwd=dst, env=dict(env, PYTHONPATH=dst))
        tests = r.stdout.strip().split('\n')[-1]
    if ok:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'status.py')] + (os.environ.get('KEYS') or keys).split(','), capture_output=True, text=True, env=env)
        bad = [l[:int(os.environ.get("VW", "700"))] for l in r.stdout.split('\n') if l and not l[25:].startswith('ok ')]
        text.append('== %s: %d bad %s' % (name, len(bad), tests))
        for l in bad:
            text.append('    ' + l)
        if r.returncode:
            text.append(r.stderr[-800:])
    shutil.rmtree(d)
    return '\n'.join(text)


def main():
    from multiprocessing.pool import ThreadPool
    import glob
    for p in sorted(glob.glob(os.path.join(HERE, 'tools', 'var_*.py'))):
        exec(compile(open(p).read(), p, 'exec'), globals())
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    vs = [v for v in V if not a or any(v[0].startswith(x) for x in a)]
    with ThreadPool(6) as pool:
        for r in pool.imap(run_one, vs):
            if '--bad' not in sys.argv or ': 0 bad' not in r:
                print(r, flush=True)
    print('%d variants' % len(vs))


if __name__ == '__main__':
    main()
