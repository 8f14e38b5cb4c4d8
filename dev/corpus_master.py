M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
O = 'modbus_rtu_over_tcp.py'
U = 'utils.py'
CORPUS = [
 # C28: the request
 ('c28-addr', 'C28', [(M, 'pdu = struct.pack(">BHH", function_code, starting_address, quantity_of_x)\n            byte_count', 'pdu = struct.pack(">BHH", function_code, starting_address, min(quantity_of_x, 2000))\n            byte_count')]),
 ('c28-coil-lastbit', 'C28', [(M, '                if i == 7:\n                    pdu += struct.pack(">B", byte_value)\n                    i, byte_value = 0, 0\n                else:\n                    i += 1\n            if i > 0:\n                pdu', '                if i == 7:\n                    pdu += struct.pack(">B", byte_value)\n                    i, byte_value = 0, 0\n                else:\n                    i += 1\n            if i > 1:\n                pdu')]),
 ('c28-coil-carry', 'C28', [(M, 'if i == 7:\n                    pdu += struct.pack(">B", byte_value)\n                    i, byte_value = 0, 0', 'if i == 7:\n                    pdu += struct.pack(">B", byte_value)\n                    i = 0')]),
 ('c28-coil-bc', 'C28', [(M, 'byte_count = len(output_value) // 8\n            if (len(output_value) % 8) > 0:\n                byte_count += 1', 'byte_count = len(output_value) // 8 + 1')]),
 ('c28-coil-val', 'C28', [(M, '                if j > 0:\n                    byte_value += pow(2, i)', '                if j == 1:\n                    byte_value += pow(2, i)')]),
 ('c28-single', 'C28', [(M, 'if output_value != 0:\n                    output_value = 0xff00', 'if output_value == 1:\n                    output_value = 0xff00')]),
 ('c28-single-neg', '', [(M, 'fmt = ">BH"+("H" if output_value >= 0 else "h")', 'fmt = ">BH"+("H" if output_value > 0x7fff else "h")')]),
 ('c28-mask', 'C28', [(M, 'pdu = struct.pack(fmt, function_code, starting_address, and_mask, or_mask)', 'pdu = struct.pack(fmt, function_code, starting_address, and_mask, or_mask & ~and_mask)')]),
 ('c28-regs-count', 'C28', [(M, 'pdu = struct.pack(">BHHB", function_code, starting_address, byte_count // 2, byte_count)', 'pdu = struct.pack(">BHHB", function_code, starting_address, len(output_value), byte_count)')]),
 ('c28-regs-native', 'C28', [(M, 'fmt = "H" if j >= 0 else "h"\n                    pdu += struct.pack(">" + fmt, j)', 'fmt = "H" if j >= 0 else "h"\n                    pdu += struct.pack(fmt, j)')]),
 ('c28-diag', 'C28', [(M, 'pdu = struct.pack(">BH", function_code, starting_address)\n', 'pdu = struct.pack(">BH", function_code, starting_address & 0xff)\n')]),
 ('c28-fc23', 'C28', [(M, 'function_code, starting_address, quantity_of_x, write_starting_address_fc23,', 'function_code, starting_address, quantity_of_x, write_starting_address_fc23 or starting_address,')]),
 ('c28-file', 'C28', [(M, 'zip(count_seq * (6, ), number_file, starting_address, quantity_of_x)', 'zip(count_seq * (6, ), sorted(number_file), starting_address, quantity_of_x)')]),
 ('c28-file2', 'C28', [(M, 'zip(count_seq * (6, ), number_file, starting_address, quantity_of_x)', 'zip(count_seq * (6, ), number_file, quantity_of_x, starting_address)')]),
 ('c28-devinfo', '', [(M, 'function_code, mei_type, output_value[0], output_value[1]', 'function_code, mei_type, output_value[0], output_value[-1]')]),
 ('c28-twice', 'C18', [(M, '        self._send(request)\n\n        call_hooks("modbus.Master.after_send"', '        self._send(request)\n        if slave == 0:\n            self._send(request)\n        call_hooks("modbus.Master.after_send"')]),
 # C29: decoding
 ('c29-exc', 'C29', [(M, 'if return_code >= 0x80:', 'if return_code > 0x80:')]),
 ('c29-exc2', 'C29', [(M, 'raise ModbusError(exception_code)\n            else', 'raise ModbusError(exception_code & 0x0f)\n            else')]),
 ('c29-bc', 'C29', [(M, 'if byte_count != len(data):', 'if byte_count > len(data):')]),
 ('c29-digits', 'C29', [(M, 'for i in range(8):\n                            if len(digits) >= nb_of_digits:', 'for i in range(8):\n                            if len(digits) > nb_of_digits:')]),
 ('c29-order', 'C29', [(M, 'digits.append(byte_val % 2)\n                            byte_val = byte_val >> 1', 'digits.append((byte_val >> 7) & 1)\n                            byte_val = byte_val << 1')]),
 ('c29-fmt', 'C29', [(M, '''            pdu = struct.pack(">BHH", function_code, starting_address, quantity_of_x)
            if not data_format:
                data_format = ">" + (quantity_of_x * "H")''', '''            pdu = struct.pack(">BHH", function_code, starting_address, quantity_of_x)
            if not data_format:
                data_format = ">" + (quantity_of_x * "h")''')]),
 ('c29-file', 'C29', [(M, 'ptr += result[ptr] // 2 + 2', 'ptr += (result[ptr] + 1) // 2 + 2')]),
 ('c29-raw', 'C29', [(M, '                if returns_raw:\n                    return data', '                if returns_raw:\n                    return response_pdu')]),
 ('c29-write', 'C29', [(M, '            # data_format is now used to process response which is always 2 registers:\n            #   1) data address of first register, 2) number of registers written\n            data_format = ">HH"', '            data_format = ">hH"')]),
 ('c29-zero', 'C29', [(M, '                if is_read_function:\n                    # get', '                if is_read_function and byte_2:\n                    # get')]),
 # C30
 ('c30-mask', 'C30', [(M, 'if or_mask < 0:', 'if or_mask < -1:')]),
 ('c30-unit', 'C30', [(T, 'if (slave < 0) or (slave > 255):', 'if slave > 255:')]),
 ('c30-unit2', 'C30', [(R, 'if (self._request_address < 0) or (self._request_address > 255):', 'if self._request_address > 255:')]),
 ('c30-order', 'C30', [(M, '''        request = query.build_request(pdu, slave)
''', '''        request = query.build_request(pdu, slave & 0xff)
''')]),
 ('c30-file', 'C30', [(M, 'len(number_file) == len(starting_address) == len(quantity_of_x) > 0', 'len(number_file) == len(starting_address) <= len(quantity_of_x)')]),
 ('c30-file1', 'C30', [(M, 'len(number_file) == len(starting_address) == len(quantity_of_x) > 0', 'len(number_file) == len(starting_address) == len(quantity_of_x)')]),
 ('c30-func', 'C30', [(M, 'elif function_code == defines.RAW:', 'elif function_code == defines.RAW or pdu:')]),
 # C18
 ('c18-nolock', 'C18', [(M, '    @threadsafe_function\n    def execute', '    def execute')]),
 ('c18-lock-per-call', 'C18', [(U, '    lock = threading.RLock()\n\n    def new(*args, **kwargs):', '    def new(*args, **kwargs):\n        lock = threading.RLock()')]),
 ('c18-early', 'C18', [(M, '            response = self._recv(expected_length)\n', '            response = self._recv(expected_length)\n            if not response:\n                response = self._recv(expected_length)\n')]),
 ('c18-order', 'C18', [(M, '''        self._send(request)

        call_hooks''', '''        early = self._recv(0) if self._verbose else None
        self._send(request)

        call_hooks''')]),
 # C24
 ('c24-len', 'C24', [(T, 'length = to_be_recv_length + 6', 'length = min(to_be_recv_length + 6, 260)')]),
 ('c24-mbap', 'C24', [(T, 'if len(response) == 6:', 'if len(response) == 7:')]),
 ('c24-spin', 'C24', [(T, '''                    length = to_be_recv_length + 6
            else:
                break
        retval = call_hooks("modbus_tcp.TcpMaster.after_recv"''', '''                    length = to_be_recv_length + 6
            elif len(response) > 6:
                break
        retval = call_hooks("modbus_tcp.TcpMaster.after_recv"''')]),
 ('c24-chunk', '', [(T, '''            rcv_byte = self._sock.recv(1)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:''', '''            rcv_byte = self._sock.recv(6 if not response else 1)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:''')]),
 ('c24-over', 'C24', [(T, '''            rcv_byte = self._sock.recv(1)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:
                    to_be_recv_length = struct.unpack(">HHH", response)[2]''', '''            rcv_byte = self._sock.recv(6 if len(response) < 6 else 256)
            if rcv_byte:
                response += rcv_byte
                if len(response) >= 6:
                    to_be_recv_length = struct.unpack(">HHH", response[:6])[2]''')]),
 ('c24-rot', 'C24', [(O, '''            else:
                # the connection has been closed by the slave
                break
''', '''            else:
                # the connection has been closed by the slave
                continue
''')]),
 ('c24-rot2', 'C24', [(O, 'if expected_length >= 0 and len(response) >= expected_length:', 'if expected_length > 0 and len(response) > expected_length:')]),
 ('c24-rtu', 'C24', [(R, 'if (not read_bytes) or (read_duration > self._serial.timeout):', 'if self.use_sw_timeout and read_duration > self._serial.timeout:')]),
 ('c24-rtu2', 'C24', [(R, 'read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)', 'read_bytes = self._serial.read(expected_length if expected_length > 0 else 1)')]),
 ('c24-rtu3', '', [(R, '                readed_len += len(read_bytes)' if 0 else '            readed_len += len(read_bytes)\n', '            readed_len += len(response)\n')]),
 # quiet
 ('q-m-coils', '', [(M, '''            i, byte_value = 0, 0
            for j in output_value:
                if j > 0:
                    byte_value += pow(2, i)
                if i == 7:
                    pdu += struct.pack(">B", byte_value)
                    i, byte_value = 0, 0
                else:
                    i += 1
            if i > 0:
                pdu += struct.pack(">B", byte_value)
''', '''            packed = [0] * byte_count
            for position, value in enumerate(output_value):
                if value > 0:
                    packed[position // 8] |= 1 << (position % 8)
            for byte_value in packed:
                pdu += struct.pack(">B", byte_value)
''')]),
 ('q-m-bc', '', [(M, '''            byte_count = quantity_of_x // 8
            if (quantity_of_x % 8) > 0:
                byte_count += 1
            nb_of''', '''            byte_count = (quantity_of_x + 7) // 8
            nb_of''')]),
 ('q-m-helper', '', [(M, '''            for j in output_value:
                fmt = "H" if j >= 0 else "h"
                # copy data in pdu
                pdu += struct.pack(">"+fmt, j)
            if not''', '''            pdu += self._pack_registers(output_value)
            if not'''), (M, '''    def set_timeout(self, timeout_in_sec):
        """Defines''', '''    def _pack_registers(self, values):
        """pack"""
        data = b""
        for value in values:
            data += struct.pack(">H" if value >= 0 else ">h", value)
        return data

    def set_timeout(self, timeout_in_sec):
        """Defines''')]),
 ('q-m-helper2', '', [(M, '''            for j in output_value:
                fmt = "H" if j >= 0 else "h"
                # copy data in pdu
                pdu += struct.pack(">"+fmt, j)
            if not''', '''            pdu += b"".join(struct.pack(">H" if j >= 0 else ">h", j) for j in output_value)
            if not''')]),
 ('q-m-early', '', [(M, '''            if return_code >= 0x80:
                # the slave has returned an error
                exception_code = byte_2
                raise ModbusError(exception_code)
            else:
                if is_read''', '''            if return_code & 0x80:
                # the slave has returned an error
                raise ModbusError(byte_2)
            if True:
                if is_read''')]),
 ('q-m-digits', '', [(M, '''                    digits = []
                    for byte_val in result:
                        for i in range(8):
                            if len(digits) >= nb_of_digits:
                                break
                            digits.append(byte_val % 2)
                            byte_val = byte_val >> 1
                    result = tuple(digits)''', '''                    digits = []
                    for byte_val in result:
                        for i in range(8):
                            if len(digits) < nb_of_digits:
                                digits.append((byte_val >> i) & 1)
                    result = tuple(digits)''')]),
 ('q-m-digits2', '', [(M, '''                    digits = []
                    for byte_val in result:
                        for i in range(8):
                            if len(digits) >= nb_of_digits:
                                break
                            digits.append(byte_val % 2)
                            byte_val = byte_val >> 1
                    result = tuple(digits)''', '''                    result = tuple((result[k // 8] >> (k % 8)) & 1 for k in range(nb_of_digits))''')]),
 ('q-m-unpack', '', [(M, '''            (return_code, byte_2) = struct.unpack(">BB", response_pdu[0:2])
''', '''            header = response_pdu[:2]
            return_code, byte_2 = struct.unpack(">BB", header)
''')]),
 ('q-m-execute', '', [(M, '''            response_pdu = query.parse_response(response)

            # analyze''', '''            response_pdu = self._extract(query, response)

            # analyze'''), (M, '''    def set_timeout(self, timeout_in_sec):
        """Defines''', '''    def _extract(self, query, response):
        return query.parse_response(response)

    def set_timeout(self, timeout_in_sec):
        """Defines''')]),
 ('q-m-with', '', [(U, '''        threadsafe = kwargs.pop('threadsafe', True)
        if threadsafe:
            lock.acquire()
        try:
            ret = fcn(*args, **kwargs)
        except Exception as excpt:
            raise excpt
        finally:
            if threadsafe:
                lock.release()
        return ret''', '''        if not kwargs.pop('threadsafe', True):
            return fcn(*args, **kwargs)
        with lock:
            return fcn(*args, **kwargs)''')]),
 ('q-t-recv', '', [(T, '''        response = to_data('')
        length = 255
        while len(response) < length:
            rcv_byte = self._sock.recv(1)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:
                    to_be_recv_length = struct.unpack(">HHH", response)[2]
                    length = to_be_recv_length + 6
            else:
                break
        retval''', '''        response = to_data('')
        length = 6
        while len(response) < length:
            chunk = self._sock.recv(length - len(response))
            if not chunk:
                break
            response += chunk
            if len(response) == 6:
                length += struct.unpack(">H", response[4:6])[0]
        retval''')]),
 ('q-t-recv2', '', [(T, '''        response = to_data('')
        length = 255
        while len(response) < length:
            rcv_byte = self._sock.recv(1)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:
                    to_be_recv_length = struct.unpack(">HHH", response)[2]
                    length = to_be_recv_length + 6
            else:
                break
        retval''', '''        response = self._read_bytes(6)
        if len(response) == 6:
            response += self._read_bytes(struct.unpack(">HHH", response)[2])
        retval'''), (T, '''    def _make_query(self):
        """Returns an instance of a Query subclass implementing the modbus TCP protocol"""
        return TcpQuery()


class TcpServer''', '''    def _read_bytes(self, count):
        """reads count bytes unless the connection is closed"""
        data = to_data('')
        while len(data) < count:
            rcv_byte = self._sock.recv(1)
            if not rcv_byte:
                break
            data += rcv_byte
        return data

    def _make_query(self):
        """Returns an instance of a Query subclass implementing the modbus TCP protocol"""
        return TcpQuery()


class TcpServer''')]),
 ('q-r-recv', '', [(R, '''            if self._serial.timeout:
                # serial.read() says if a timeout is set it may return less characters as requested
                # we should update expected_length by readed_len
                read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)
            else:
                read_bytes = self._serial.read(expected_length if expected_length > 0 else 1)''', '''            missing = expected_length
            if self._serial.timeout:
                missing -= readed_len
            read_bytes = self._serial.read(max(missing, 1))''')]),
 ('q-m-file', '', [(M, '''                    sub_seq = list()
                    ptr = 0
                    while ptr < len(result):
                        sub_seq += ((ptr + 2, ptr + 2 + result[ptr] // 2), )
                        ptr += result[ptr] // 2 + 2
                    result = tuple(map(lambda sub_seq_x: result[sub_seq_x[0]:sub_seq_x[1]], sub_seq))''', '''                    records = []
                    ptr = 0
                    while ptr < len(result):
                        end = ptr + 2 + result[ptr] // 2
                        records.append(result[ptr + 2:end])
                        ptr = end
                    result = tuple(records)''')]),
]
