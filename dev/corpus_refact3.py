"""behaviour-preserving rewrites with other language features"""
M, T, R, O, U, H, S, C, P = ('modbus.py', 'modbus_tcp.py', 'modbus_rtu.py', 'modbus_rtu_over_tcp.py', 'utils.py', 'hooks.py',
                             'simulator.py', 'simulator_rpc_client.py', 'pymodbusclient.py')
CORPUS = [
('R3-unpack-from', '', [(M, '''        (starting_address, quantity_of_x) = struct.unpack(">HH", request_pdu[1:5])

        if (quantity_of_x <= 0) or (quantity_of_x > 125):''', '''        if len(request_pdu) < 5:
            raise struct.error("too short")
        starting_address, quantity_of_x = struct.unpack_from(">HH", request_pdu, 1)

        if not 0 < quantity_of_x <= 125:''')]),
('R3-struct-obj', '', [(T, '''        (self.transaction_id, self.protocol_id, self.length, self.unit_id) = struct.unpack(">HHHB", value)
''', '''        header = struct.Struct(">HHHB")
        self.transaction_id, self.protocol_id, self.length, self.unit_id = header.unpack(value)
''')]),
('R3-fstring', '', [(M, '''                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns''', '''                    f"address {address} size {size} is out of block {block_name}"
                )

            # returns''')]),
('R3-annot', '', [(M, '''    def get_values(self, block_name, address, size=1):''', '''    def get_values(self, block_name: str, address: int, size: int = 1) -> tuple:'''),
   (M, '''            # returns the values
            if size == 1:
                return tuple([block[offset], ])
            else:
                return tuple(block[offset:offset+size])
''', '''            # returns the values
            values: list = [block[offset]] if size == 1 else block[offset:offset+size]
            return tuple(values)
''')]),
('R3-annot2', '', [(T, '''                    request = to_data("")
                    is_ok = True
''', '''                    request: bytes = to_data("")
                    is_ok: bool = True
''')]),
('R3-walrus', '', [(T, '''                        new_byte = sock.recv(1)
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte

                    retval''', '''                        if new_byte := sock.recv(1):
                            request += new_byte
                        else:
                            is_ok = False

                    retval''')]),
('R3-suppress', '', [(T, '''            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
''', '''            with contextlib.suppress(Exception):
                sock.close()
'''), (T, 'import socket\n', 'import contextlib\nimport socket\n')]),
('R3-ctxmgr', '', [(M, '''        # thread safe
        with self._data_lock:
            block = self._get_block(block_name)

            # the block has been found
            # check that it doesn't write out of the block
            offset = address - block.starting_address

            if (offset < 0) or ((offset + size) > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns''', '''        # thread safe
        with self._exclusive():
            block = self._get_block(block_name)

            # the block has been found
            # check that it doesn't write out of the block
            offset = address - block.starting_address

            if (offset < 0) or ((offset + size) > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns'''), (M, '''    def get_values(self, block_name''', '''    @contextlib.contextmanager
    def _exclusive(self):
        """the lock of the data"""
        with self._data_lock:
            yield

    def get_values(self, block_name'''), (M, 'import struct\n', 'import contextlib\nimport struct\n')]),
('R3-wraps', '', [(U, '''def threadsafe_function(fcn):''', '''def threadsafe_function(fcn):
    import functools
    return functools.wraps(fcn)(_threadsafe(fcn))


def _threadsafe(fcn):''')]),
('R3-partial', '', [(M, '''            defines.READ_COILS: self._read_coils,
''', '''            defines.READ_COILS: functools.partial(Slave._read_coils, self),
'''), (M, 'import struct\n', 'import functools\nimport struct\n')]),
('R3-lambda', '', [(M, '''            defines.READ_COILS: self._read_coils,
''', '''            defines.READ_COILS: lambda pdu: self._read_coils(pdu),
''')]),
('R3-match', '', [(M, '''        if value == 0:
            block[offset] = 0
        elif value == 0xff00:
            block[offset] = 1
        else:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''', '''        match value:
            case 0:
                block[offset] = 0
            case 0xff00:
                block[offset] = 1
            case _:
                raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''')]),
('R3-forelse', '', [(M, '''        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
''', '''        for block in self._memory[block_type]:
            offset = address - block.starting_address
            if offset >= 0 and block.size >= offset + length:
                break
        else:
            raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
        return block, offset
''')]),
('R3-namedtuple', '', [(M, '''                if block.size >= offset + length:
                    return block, offset
''', '''                if block.size >= offset + length:
                    return Place(block, offset)
'''), (M, '''class Slave(object):''', '''Place = collections.namedtuple("Place", "block offset")


class Slave(object):'''), (M, 'import struct\n', 'import collections\nimport struct\n')]),
('R3-namedtuple-use', '', [(M, '''                if block.size >= offset + length:
                    return block, offset
''', '''                if block.size >= offset + length:
                    return Place(block=block, offset=offset)
'''), (M, '''        block, offset = self._get_block_and_offset(defines.COILS, data_address, 1)
''', '''        place = self._get_block_and_offset(defines.COILS, data_address, 1)
        block, offset = place.block, place.offset
'''), (M, '''class Slave(object):''', '''Place = collections.namedtuple("Place", ["block", "offset"])


class Slave(object):'''), (M, 'import struct\n', 'import collections\nimport struct\n')]),
('R3-super', '', [(T, '''        super(TcpQuery, self).__init__()
''', '''        super().__init__()
'''), (T, '''        super(TcpServer, self).__init__(databank)
''', '''        super().__init__(databank)
''')]),
('R3-static', '', [(T, '''    def _get_request_length(self, mbap):''', '''    @staticmethod
    def _get_request_length(mbap):''')]),
('R3-frombytes', '', [(T, '''        length = struct.unpack(">HHH", mbap[:6])[2]
        return length
''', '''        return int.from_bytes(mbap[4:6], "big")
''')]),
('R3-server-split', '', [(T, '''                    if len(sock.recv(1, socket.MSG_PEEK)) == 0:
                        # socket is disconnected
                        LOGGER.debug("%d is disconnected" % (sock.fileno()))
                        call_hooks("modbus_tcp.TcpServer.on_disconnect", (self, sock))
                        sock.close()
                        self._sockets.remove(sock)
                        break
''', '''                    if not sock.recv(1, socket.MSG_PEEK):
                        self._disconnect(sock)
                        break
'''), (T, '''                    client, address = self._sock.accept()
                    client.setblocking(0)
                    LOGGER.debug("%s is connected with socket %d...", str(address), client.fileno())
                    self._sockets.append(client)
                    call_hooks("modbus_tcp.TcpServer.on_connect", (self, client, address))
''', '''                    self._connect(*self._sock.accept())
'''), (T, '''    def _do_run(self):
        """called in a almost''', '''    def _connect(self, client, address):
        client.setblocking(0)
        LOGGER.debug("%s is connected with socket %d...", str(address), client.fileno())
        self._sockets.append(client)
        call_hooks("modbus_tcp.TcpServer.on_connect", (self, client, address))

    def _disconnect(self, sock):
        # socket is disconnected
        LOGGER.debug("%d is disconnected" % (sock.fileno()))
        call_hooks("modbus_tcp.TcpServer.on_disconnect", (self, sock))
        sock.close()
        self._sockets.remove(sock)

    def _do_run(self):
        """called in a almost''')]),
('R3-server-iter', '', [(T, '''                    # read the 7 bytes of the mbap
                    while (len(request) < 7) and is_ok:
                        new_byte = sock.recv(1)
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte
''', '''                    # read the 7 bytes of the mbap
                    for new_byte in iter(lambda: sock.recv(1), b""):
                        request += new_byte
                        if len(request) == 7:
                            break
                    else:
                        is_ok = False
''')]),
('R3-server-range', '', [(T, '''                    # read the 7 bytes of the mbap
                    while (len(request) < 7) and is_ok:
                        new_byte = sock.recv(1)
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte
''', '''                    # read the 7 bytes of the mbap
                    for _ in range(7):
                        new_byte = sock.recv(1)
                        if not new_byte:
                            is_ok = False
                            break
                        request += new_byte
''')]),
('R3-server-list', '', [(T, '''                    # read the 7 bytes of the mbap
                    while (len(request) < 7) and is_ok:
                        new_byte = sock.recv(1)
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte
''', '''                    # read the 7 bytes of the mbap
                    parts = []
                    while len(parts) < 7 and is_ok:
                        new_byte = sock.recv(1)
                        if new_byte:
                            parts.append(new_byte)
                        else:
                            is_ok = False
                    request = b"".join(parts)
''')]),
('R3-rtu-reopen', '', [(R, '''                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                self._serial.timeout = self._timeout
''', '''                except Exception:
                    self._reopen()
                finally:
                    pass
                self._serial.timeout = self._timeout
'''), (R, '''                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                    break
''', '''                except Exception:
                    self._reopen()
                    break
'''), (R, '''    def _do_run(self):
''', '''    def _reopen(self):
        """after an error of the line"""
        port = self._serial
        port.close()
        port.open()

    def _do_run(self):
''')]),
('R3-rtu-respond', '', [(R, '''                if response:
                    if self._serial.in_waiting > 0:
                        # Most likely master timed out on this request and started a new one
                        # for which we already received atleast 1 byte
                        LOGGER.warning("Not sending response because there is new request pending")
                    else:
                        self._serial.write(response)
                        self._serial.flush()
                        time.sleep(self.get_timeout())
''', '''                pending = bool(response) and self._serial.in_waiting
                if pending:
                    LOGGER.warning("Not sending response because there is new request pending")
                elif response:
                    self._serial.write(response)
                    self._serial.flush()
                    time.sleep(self._timeout)
''')]),
('R3-go-isset', '', [(U, 'while self._go.isSet():', 'while self._go.is_set():')]),
('R3-go-true', '', [(U, '''            while self._go.isSet():
                self._fcts[1](*self._args)
''', '''            while True:
                if not self._go.is_set():
                    break
                self._fcts[1](*self._args)
''')]),
('R3-worker-unpack', '', [(U, '''            if self._fcts[0]:
                self._fcts[0](*self._args)
            while''', '''            init, main, _ = self._fcts
            if init is not None:
                init(*self._args)
            while'''), (U, '''                self._fcts[1](*self._args)
''', '''                main(*self._args)
''')]),
('R3-hooks-get', '', [(H, '''        try:
            _HOOKS[name].append(fct)
        except KeyError:
            _HOOKS[name] = [fct]
''', '''        _HOOKS[name] = _HOOKS.get(name, []) + [fct]
''')]),
('R3-hooks-star', '', [(H, '''        try:
            _HOOKS[name].append(fct)
        except KeyError:
            _HOOKS[name] = [fct]
''', '''        _HOOKS[name] = [*_HOOKS.get(name, ()), fct]
''')]),
('R3-hooks-defaultdict', '', [(H, '''        try:
            _HOOKS[name].append(fct)
        except KeyError:
            _HOOKS[name] = [fct]
''', '''        if name in _HOOKS:
            _HOOKS[name] += [fct]
        else:
            _HOOKS[name] = [fct]
''')]),
('R3-property', '', [(M, '''            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
''', '''            if block.starting_address <= address and address + length <= block.end:
                return block, address - block.starting_address
'''), (M, '''class Slave(object):''', '''def _end(block):
    return block.starting_address + block.size


ModbusBlock.end = property(_end)


class Slave(object):''')]),
('R3-property2', '', [(M, '''            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
''', '''            if block.starting_address <= address and address + length <= block.end:
                return block, address - block.starting_address
'''), (M, '''    def is_in(self, starting_address, size):''', '''    @property
    def end(self):
        """first address behind the block"""
        return self.starting_address + self.size

    def is_in(self, starting_address, size):''')]),
('R3-fmt-const', '', [(M, '''        for reg in values:
            fmt = "H" if self.unsigned else "h"
            response += struct.pack(">"+fmt, reg)
        return response

    def _read_holding''', '''        pack = functools.partial(struct.pack, {True: ">H", False: ">h"}[bool(self.unsigned)])
        for reg in values:
            response += pack(reg)
        return response

    def _read_holding'''), (M, 'import struct\n', 'import functools\nimport struct\n')]),
('R3-bank-sorted', '', [(M, '''                    slaves = list(self._slaves.values())
''', '''                    slaves = [self._slaves[key] for key in self._slaves]
''')]),
('R3-exec-fc-const', '', [(T, '''        if TcpQuery._last_transaction_id < 0xffff:
            TcpQuery._last_transaction_id += 1
        else:
            TcpQuery._last_transaction_id = 0
        return TcpQuery._last_transaction_id
''', '''        cls = type(self)
        new_id = TcpQuery._last_transaction_id + 1
        TcpQuery._last_transaction_id = 0 if new_id > 0xffff else new_id
        return TcpQuery._last_transaction_id
''')]),
('R3-sub-mbap', '', [(T, '''        self._response_mbap.clone(self._request_mbap)
        self._response_mbap.length = len(response_pdu) + 1
        return self._response_mbap.pack() + response_pdu
''', '''        header = self._response_mbap
        header.clone(self._request_mbap)
        header.length = 1 + len(response_pdu)
        return b"".join((header.pack(), response_pdu))
''')]),
('R3-rtu-frame', '', [(R, '''        self._response_address = self._request_address
        data = struct.pack(">B", self._response_address) + response_pdu
        crc = struct.pack(">H", utils.calculate_crc(data))
        return data + crc
''', '''        self._response_address = self._request_address
        return self._frame(self._response_address, response_pdu)

    @staticmethod
    def _frame(address, pdu):
        data = bytes(bytearray([address])) + pdu
        return data + utils.calculate_crc(data).to_bytes(2, "big")
''')]),
('R3-coil-guard', '', [(M, '''        if value == 0:
            block[offset] = 0
        elif value == 0xff00:
            block[offset] = 1
        else:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''', '''        if value not in {0, 0xff00}:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
        block[offset] = value >> 15
''')]),
('R3-wmc-zip', '', [(M, '''                if byte_value & (1 << j):
                    block[offset+i*8+j] = 1
                else:
                    block[offset+i*8+j] = 0
''', '''                block[offset+count] = byte_value >> j & 1
''')]),
('R3-py-sim', '', [(S, '''        self.server.start()
        self.console.start()
        self.rpc.start()
''', '''        for part in (self.server, self.console, self.rpc):
            part.start()
''')]),
]
