from seeds2 import HEAD, M, T, R, U, H, S, C, P, O

SEEDS = [
 dict(id='c02-spare-bits', prop='C02', needs='a write multiple coils request whose unused bits in the last byte are not zero',
      breaks='the spare bits of the last byte are written to the coils that follow the addressed ones',
      edits=[(M, '''            for j in range(8):
                if count >= quantity_of_x:
                    break

                if byte_value & (1 << j):
                    block[offset+i*8+j] = 1
''', '''            for j in range(8):
                if count >= quantity_of_x and not byte_value >> j:
                    break

                if byte_value & (1 << j):
                    block[offset+i*8+j] = 1
'''), (M, '''        return struct.pack(">HH", starting_address, count)

    def _write_single_register''', '''        return struct.pack(">HH", starting_address, quantity_of_x)

    def _write_single_register''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 0, 40)
check(s.handle_request(struct.pack(">BHHBBB", 15, 4, 10, 2, 0xff, 0x03)) == struct.pack(">BHH", 15, 4, 10), "write")
check(s.get_values("c", 0, 20) == (0,) * 4 + (1,) * 10 + (0,) * 6, "plain write")
s.set_values("c", 0, [0] * 40)
check(s.handle_request(struct.pack(">BHHBBB", 15, 4, 10, 2, 0x00, 0xf0)) == struct.pack(">BHH", 15, 4, 10), "write")
check(s.get_values("c", 0, 40) == (0,) * 40, "coils that are not addressed are written")
'''),
 dict(id='c03-input-fallback', prop='C03', needs='read discrete inputs of a slave that has coils and no discrete inputs',
      breaks='a slave without discrete inputs returns its coils instead of ILLEGAL DATA ADDRESS',
      edits=[(M, '''        return self._read_digital(defines.DISCRETE_INPUTS, request_pdu)
''', '''        # slaves which have only one table of bits use it for both
        table = defines.DISCRETE_INPUTS if self._memory[defines.DISCRETE_INPUTS] else defines.COILS
        return self._read_digital(table, request_pdu)
''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 0, 16)
s.set_values("c", 0, [1] * 16)
check(s.handle_request(struct.pack(">BHH", 2, 0, 8)) == struct.pack(">BB", 0x82, 2), "coils are read as inputs")
s.add_block("i", cst.DISCRETE_INPUTS, 0, 16)
check(s.handle_request(struct.pack(">BHH", 2, 0, 8)) == struct.pack(">BBB", 2, 1, 0), "inputs")
'''),
 dict(id='c05-all-off', prop='C05', needs='a read of coils that are all off, whose quantity is not a multiple of 8',
      breaks='the response lacks its last data byte although the byte count announces it',
      edits=[(M, '''        i, byte_value = 0, 0
        for coil in values:
''', '''        if not any(values):
            # nothing is set
            return response + struct.pack(">B", 0) * (quantity_of_x // 8 or 1)

        i, byte_value = 0, 0
        for coil in values:
''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 0, 40)
for n in (1, 3, 8, 9, 15, 16, 17, 40):
    k = (n + 7) // 8
    check(s.handle_request(struct.pack(">BHH", 1, 0, n)) == struct.pack(">BB", 1, k) + b"\\0" * k, "read of %d coils" % n)
'''),
 dict(id='c07-sign-mask', prop='C07', needs='mask write on a signed slave with bit 15 in the and mask and a negative register',
      breaks='bit 15 of the and mask is ignored on signed slaves, so the sign of the register is lost',
      edits=[(M, '''        (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
''', '''        (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
        if not self.unsigned:
            # the highest bit is the sign
            and_mask &= 0x7fff
''')],
      demo=HEAD + '''
for unsigned in (True, False):
    s = Slave(1, unsigned=unsigned)
    s.add_block("r", cst.HOLDING_REGISTERS, 0, 4)
    for cur, a, o in ((0x12, 0xf2, 0x25), (0xff12, 0xfff2, 0x25), (0x8001, 0x8000, 0), (0x7fff, 0, 0x8000)):
        s.handle_request(struct.pack(">BHH", 6, 1, cur))
        s.handle_request(struct.pack(">BHHH", 22, 1, a, o))
        want = cur & a | o & ~a & 0xffff
        check(s.handle_request(struct.pack(">BHH", 3, 1, 1)) == struct.pack(">BBH", 3, 2, want), "mask write %x %x %x" % (cur, a, o))
'''),
 dict(id='c09-no-table', prop='C09', needs='a request to a table of which the slave has no block at all',
      breaks='a supported function is answered with ILLEGAL FUNCTION',
      edits=[(M, '''        """returns the block and offset corresponding to the given address"""
''', '''        """returns the block and offset corresponding to the given address"""
        if not self._memory[block_type]:
            raise ModbusError(defines.ILLEGAL_FUNCTION)
''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 0, 16)
check(s.handle_request(struct.pack(">BHH", 3, 0, 1)) == struct.pack(">BB", 0x83, 2), "read of a table without blocks")
check(s.handle_request(struct.pack(">BHH", 1, 16, 1)) == struct.pack(">BB", 0x81, 2), "read beyond a block")
check(s.handle_request(struct.pack(">B", 99)) == struct.pack(">BB", 0xe3, 1), "unknown function")
'''),
 dict(id='c17-lock-left', prop='C17', needs='get_values of a name that does not exist, then any use of the slave by another thread',
      breaks='the lock of the slave is never released again',
      edits=[(M, '''        return the values of n items at the given address of the given block
        """
        # thread safe
        with self._data_lock:
            block = self._get_block(block_name)
''', '''        return the values of n items at the given address of the given block
        """
        # thread safe
        self._data_lock.acquire()
        block = self._get_block(block_name)
        try:
'''), (M, '''                return tuple(block[offset:offset+size])
''', '''                return tuple(block[offset:offset+size])
        finally:
            self._data_lock.release()
''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("r", cst.HOLDING_REGISTERS, 0, 4)
try:
    s.get_values("x", 0)
except Exception:
    pass
done = []
t = threading.Thread(target=lambda: done.append(s.handle_request(struct.pack(">BHH", 3, 0, 1))))
t.daemon = True
t.start()
t.join(5)
check(done, "the slave is locked")
'''),
 dict(id='c19-same-id', prop='C19', needs='two requests built with one TcpQuery',
      breaks='the second request of a query has the transaction id of the first one',
      edits=[(T, '''        self._request_mbap.transaction_id = self._get_transaction_id()
''', '''        if not self._request_mbap.transaction_id:
            self._request_mbap.transaction_id = self._get_transaction_id()
''')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpQuery
q = TcpQuery()
ids = [struct.unpack(">H", q.build_request(b"\\x03", 1)[:2])[0] for i in range(4)]
check(len(set(ids)) == 4, "ids %r" % ids)
'''),
 dict(id='c22-zero-id', prop='C22', needs='a TCP request whose transaction id is 0',
      breaks='the answer to a request with transaction id 0 has the unit id 0',
      edits=[(T, '''        self._response_mbap.clone(self._request_mbap)
''', '''        if self._response_mbap.transaction_id != self._request_mbap.transaction_id:
            self._response_mbap.clone(self._request_mbap)
''')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpQuery
for tid in (1, 0, 0xffff):
    for unit in (1, 255):
        q = TcpQuery()
        q.parse_request(struct.pack(">HHHBBHH", tid, 0, 6, unit, 3, 0, 1))
        check(q.build_response(b"\\x83\\x02") == struct.pack(">HHHBBB", tid, 0, 3, unit, 0x83, 2), "answer to id %d" % tid)
'''),
 dict(id='c35-coil-true', prop='C35', needs='write_single_coil with 1 instead of True',
      breaks='a coil written with 1 is switched off',
      edits=[(P, '''cst.WRITE_SINGLE_COIL, coil, output_value=value)''', '''cst.WRITE_SINGLE_COIL, coil, output_value=int(value is True))''')],
      demo=HEAD + '''
from modbus_tk.pymodbusclient import PyModbusClientTCP
c = PyModbusClientTCP("127.0.0.1", 1)
sent = []
c.client.execute = lambda *a, **k: sent.append(bool(k["output_value"])) or (0, 0)
for v in (True, 1, False, 0):
    c.write_single_coil(3, v)
check(sent == [True, True, False, False], "coil values %r" % sent)
'''),
]
