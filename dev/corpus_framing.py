M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
U = 'utils.py'
CORPUS = [
 ('c19-tid-wrap', 'C19', [(T, 'if TcpQuery._last_transaction_id < 0xffff:', 'if TcpQuery._last_transaction_id < 0x7fff:')]),
 ('c19-tid-inst', 'C19', [(T, '            TcpQuery._last_transaction_id += 1\n', '            self._last_transaction_id += 1\n')]),
 ('c19-len', 'C19', [(T, 'self._request_mbap.length = len(pdu) + 1', 'self._request_mbap.length = (len(pdu) + 1) & 0xff')]),
 ('c19-len2', 'C19', [(T, 'self._request_mbap.length = len(pdu) + 1', 'self._request_mbap.length = min(len(pdu) + 1, 254)')]),
 ('c19-unit', 'C19', [(T, 'if (slave < 0) or (slave > 255):', 'if (slave < 0) or (slave > 256):')]),
 ('c19-unit0', 'C19', [(T, 'self._request_mbap.unit_id = slave', 'self._request_mbap.unit_id = slave or 255')]),
 ('c19-keep-tid', 'C19', [(T, 'self._request_mbap.transaction_id = self._get_transaction_id()', '''if not self._request_mbap.transaction_id:
            self._request_mbap.transaction_id = self._get_transaction_id()''')]),
 ('c20-tid', 'C20', [(T, '''        if request_mbap.transaction_id != self.transaction_id:''', '''        if request_mbap.transaction_id and request_mbap.transaction_id != self.transaction_id:''')]),
 ('c20-proto', 'C20', [(T, 'if request_mbap.protocol_id != self.protocol_id:', 'if request_mbap.protocol_id > self.protocol_id:')]),
 ('c20-unit255', 'C20', [(T, 'if request_mbap.unit_id != self.unit_id:', 'if request_mbap.unit_id != self.unit_id and self.unit_id != 255:')]),
 ('c20-len', 'C20', [(T, 'if self.length != following_bytes_length:', 'if self.length > following_bytes_length:')]),
 ('c20-len-resp', 'C20', [(T, '        error_str += self.check_length(response_pdu_length)\n', '''        if not error_str and response_pdu_length > 1:
            error_str += self.check_length(response_pdu_length)
''')]),
 ('c20-server', 'C20', [(T, '''            error_str = self._request_mbap.check_length(len(pdu))
            if len(error_str) > 0:''', '''            error_str = self._request_mbap.check_length(len(pdu))
            if len(error_str) > 0 and self._request_mbap.length > 1:''')]),
 ('c20-server2', 'C20', [(T, '            return self._request_mbap.unit_id, pdu', '            return self._request_mbap.unit_id, pdu[:self._request_mbap.length - 2]')]),
 ('c20-or', 'C20', [(T, '        error_str += self.check_length(response_pdu_length)\n', '        error_str = error_str and error_str + self.check_length(response_pdu_length)\n')]),
 ('c21-addr', 'C21', [(R, 'if self._request_address != self._response_address:', 'if self._request_address and self._request_address != self._response_address:')]),
 ('c21-crc-skip', 'C21', [(R, '        if crc != utils.calculate_crc(response[:-2]):', '        if crc and crc != utils.calculate_crc(response[:-2]):')]),
 ('c21-crc-region', 'C21', [(R, '        if crc != utils.calculate_crc(request[:-2]):', '        if crc != utils.calculate_crc(request[:len(request) - 2][:254]):')]),
 ('c21-len', 'C21', [(R, '''        if len(request) < 3:''', '''        if len(request) < 2:''')]),
 ('c21-range', 'C21', [(R, 'if (self._request_address < 0) or (self._request_address > 255):', 'if self._request_address < 0 or self._request_address > 247:')]),
 ('c21-low', 'C21', [(R, '''        crc = struct.pack(">H", utils.calculate_crc(data))
        return data + crc

    def parse_response''', '''        crc = struct.pack(">H", utils.calculate_crc(data[:256]))
        return data + crc

    def parse_response''')]),
 ('c21-table', 'C21', [(U, '0x8801, 0x48C0, 0x4980', '0x8801, 0x48C0, 0x4981')]),
 ('c21-crc-trunc', 'C21', [(U, '        for c in data:\n            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]', '        for c in data[:255]:\n            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]')]),
 ('c21-resp-order', 'C21', [(R, '''        if self._request_address != self._response_address:
            raise''', '''        if self._request_address != self._response_address and len(response) > 5:
            raise''')]),
 ('c22-resp-len', 'C22', [(T, 'self._response_mbap.length = len(response_pdu) + 1', 'self._response_mbap.length = max(len(response_pdu) + 1, 4)')]),
 ('c22-noclone', 'C22', [(T, '        self.protocol_id = mbap.protocol_id\n        self.length', '        self.protocol_id = 0\n        self.length')]),
 ('c22-rtu-addr', 'C22', [(R, '''        self._response_address = self._request_address
''', '''        self._response_address = self._response_address or self._request_address
''')]),
 ('c22-fail', 'C22', [(M, '        return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))', '        return struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE)')]),
 # quiet
 ('q-pack', '', [(T, '''        mbap = self._request_mbap.pack()
        return mbap + pdu''', '''        header = self._request_mbap
        return struct.pack(">HHH", header.transaction_id, header.protocol_id, header.length) + struct.pack("B", header.unit_id) + pdu''')]),
 ('q-tid-mod', '', [(T, '''        if TcpQuery._last_transaction_id < 0xffff:
            TcpQuery._last_transaction_id += 1
        else:
            TcpQuery._last_transaction_id = 0
        return''', '''        TcpQuery._last_transaction_id = (TcpQuery._last_transaction_id + 1) & 0xffff
        return''')]),
 ('q-check', '', [(T, '''        error_str = self._check_ids(request_mbap)
        error_str += self.check_length(response_pdu_length)
        if len(error_str) > 0:
            raise ModbusInvalidMbapError(error_str)''', '''        errors = [self._check_ids(request_mbap), self.check_length(response_pdu_length)]
        error_str = "".join(errors)
        if error_str:
            raise ModbusInvalidMbapError(error_str)''')]),
 ('q-ids', '', [(T, '''        error_str = ""

        if request_mbap.transaction_id''', '''        error_str = ""
        if (self.transaction_id, self.protocol_id, self.unit_id) == (
                request_mbap.transaction_id, request_mbap.protocol_id, request_mbap.unit_id):
            return error_str

        if request_mbap.transaction_id''')]),
 ('q-parse-early', '', [(T, '''        if len(response) > 6:
            mbap, pdu = response[:7], response[7:]
            self._response_mbap.unpack(mbap)
            self._response_mbap.check_response(self._request_mbap, len(pdu))
            return pdu
        else:
            raise ModbusInvalidResponseError("Response length is only {0} bytes. ".format(len(response)))''', '''        if len(response) < 7:
            raise ModbusInvalidResponseError("Response length is only {0} bytes. ".format(len(response)))
        pdu = response[7:]
        self._response_mbap.unpack(response[0:7])
        self._response_mbap.check_response(self._request_mbap, len(response) - 7)
        return pdu''')]),
 ('q-rtu-crc', '', [(R, '''        (crc, ) = struct.unpack(">H", request[-2:])
        if crc != utils.calculate_crc(request[:-2]):''', '''        body, trailer = request[:-2], request[-2:]
        if struct.pack(">H", utils.calculate_crc(body)) != trailer:''')]),
 ('q-rtu-bytes', '', [(R, '''        (self._request_address, ) = struct.unpack(">B", request[0:1])

        (crc, ) = struct.unpack(">H", request[-2:])''', '''        self._request_address = struct.unpack(">B", request[0:1])[0]

        crc = (struct.unpack(">B", request[-2:-1])[0] << 8) | struct.unpack(">B", request[-1:])[0]''')]),
 ('q-rtu-helper', '', [(R, '''        data = struct.pack(">B", self._request_address) + pdu
        crc = struct.pack(">H", utils.calculate_crc(data))
        return data + crc''', '''        return self._frame(self._request_address, pdu)

    @staticmethod
    def _frame(address, pdu):
        data = struct.pack(">B", address) + pdu
        return data + struct.pack(">H", utils.calculate_crc(data))'''), (R, '''        data = struct.pack(">B", self._response_address) + response_pdu
        crc = struct.pack(">H", utils.calculate_crc(data))
        return data + crc''', '''        return self._frame(self._response_address, response_pdu)''')]),
 ('q-crc-bitwise', '', [(U, '''        for c in data:
            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]''', '''        for c in data:
            crc ^= c
            for _ in range(8):
                if crc & 1:
                    crc = (crc >> 1) ^ 0xA001
                else:
                    crc >>= 1''')]),
 ('q-crc-idx', '', [(U, '''        for c in data:
            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]''', '''        for c in bytearray(data):
            index = (c ^ crc) & 0xFF
            crc = CRC16table[index] ^ (crc >> 8)''')]),
 ('q-swap', '', [(U, '''    msb = (word_val >> 8) & 0xFF
    lsb = word_val & 0xFF
    return (lsb << 8) + msb''', '''    return ((word_val & 0xFF) << 8) | (word_val >> 8)''')]),
 ('q-unit', '', [(T, 'if (slave < 0) or (slave > 255):', 'if not 0 <= slave <= 255:')]),
 ('q-clone', '', [(T, '''        self._response_mbap.clone(self._request_mbap)
''', '''        for name in ("transaction_id", "protocol_id", "length", "unit_id"):
            setattr(self._response_mbap, name, getattr(self._request_mbap, name))
''')]),
]
