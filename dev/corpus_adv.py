from defs import D
M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
U = 'utils.py'
LOOK = 'Slave._get_block_and_offset'
CORPUS = [
 # ------------------------------------------------ optimisations of the lookup
 ('lookup-cache', 'C02,C13', [D(M, LOOK, '''
    def _get_block_and_offset(self, block_type, address, length):
        """returns the block and offset corresponding to the given address"""
        last = self._last.get(block_type)
        if last is not None and address >= last.starting_address and address + length <= last.starting_address + last.size:
            return last, address - last.starting_address
        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    self._last[block_type] = block
                    return block, offset
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
 '''), (M, '        self._blocks = {}\n', '        self._blocks = {}\n        self._last = {}\n')]),
 ('lookup-bisect', 'C02', [D(M, LOOK, '''
    def _get_block_and_offset(self, block_type, address, length):
        """returns the block and offset corresponding to the given address"""
        blocks = self._memory[block_type]
        lo, hi = 0, len(blocks) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if address < blocks[mid].starting_address + blocks[mid].size - 1:
                hi = mid
            else:
                lo = mid + 1
        if blocks:
            block = blocks[lo]
            offset = address - block.starting_address
            if offset >= 0 and block.size >= offset + length:
                return block, offset
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
 ''')]),
 ('lookup-break', 'C02', [D(M, LOOK, '''
    def _get_block_and_offset(self, block_type, address, length):
        """returns the block and offset corresponding to the given address"""
        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
                elif offset + length > 2 * block.size:
                    break
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
 ''')]),
 ('lookup-wrap', 'C02', [(M, '                offset = address - block.starting_address\n                if block.size', '                offset = (address - block.starting_address) % 65535\n                if block.size')]),
 ('lookup-type-default', 'C03', [(M, 'for block in self._memory[block_type]:\n            if address >=', 'for block in self._memory[block_type] or self._memory[defines.HOLDING_REGISTERS]:\n            if address >=')]),
 # ------------------------------------------------ order of checks
 ('qty-after-lookup', 'C01,C09', [(M, '''        if (quantity_of_x <= 0) or (quantity_of_x > 125):
            # maximum allowed size is 125 registers in one reading
            LOGGER.debug("quantity_of_x is %d", quantity_of_x)
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)

        # look for the block corresponding to the request
        block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)
''', '''        # look for the block corresponding to the request
        block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)

        if (quantity_of_x <= 0) or (quantity_of_x > 125):
            # maximum allowed size is 125 registers in one reading
            LOGGER.debug("quantity_of_x is %d", quantity_of_x)
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''')]),
 ('dig-limit-bytes', 'C01', [(M, '(quantity_of_x > 2000)', '((quantity_of_x + 7) // 8 > 250)'), (M, '(quantity_of_x <= 0) or ((', '(quantity_of_x < 0) or ((')]),
 ('dig-limit-255', 'C01', [(M, '(quantity_of_x > 2000)', '(quantity_of_x // 8 > 250)')]),
 ('fc15-limit-bytes', 'C01', [(M, '(quantity_of_x > 1968)', '(byte_count > 247)')]),
 ('fc23-and', 'C01', [(M, '(quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write', '(quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) and (byte_count_to_write')]),
 ('fc16-bc-half', 'C01', [(M, 'or (quantity_of_x > 123) or (byte_count != (quantity_of_x * 2))', 'or (quantity_of_x > 123) or (byte_count // 2 != quantity_of_x)')]),
 ('fc23-missing', 'C04', [(M, 'if len(request_pdu) < 10 + byte_count_to_write:', 'if len(request_pdu) < 10 + quantity_of_x_to_write:')]),
 ('fc15-missing', 'C04', [(M, '        if len(request_pdu) < 6 + byte_count:\n            # some of the values are missing: do not write only a part of them\n            raise ModbusError(defines.ILLEGAL_DATA_VALUE)\n\n        # look for the block corresponding to the request\n        block, offset = self._get_block_and_offset(defines.COILS', '        # look for the block corresponding to the request\n        block, offset = self._get_block_and_offset(defines.COILS')]),
 ('fc6-in-place', 'C04', [(M, "        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)\n        block[offset] = value\n        # returns echo of the command\n        return request_pdu[1:]", "        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)\n        block[offset] = value\n        if len(request_pdu) != 5:\n            raise ModbusError(defines.ILLEGAL_DATA_VALUE)\n        # returns echo of the command\n        return request_pdu[1:]")]),
 # ------------------------------------------------ digital response
 ('dig-extra-byte', 'C05', [(M, '        # if there is remaining bits: add one more byte with their values\n        if i > 0:', '        # if there is remaining bits: add one more byte with their values\n        if i > 0 or byte_count % 2:')]),
 ('dig-byte-count', 'C05', [(M, '        byte_count = quantity_of_x // 8\n        if (quantity_of_x % 8) > 0:\n            byte_count += 1\n\n        # write the response', '        byte_count = quantity_of_x // 8 + 1\n\n        # write the response')]),
 ('dig-signed', 'C06,C05', [(M, '''            if i >= 7:
                # write the values of 8 bits in a byte
                response += struct.pack(">B", byte_value)''', '''            if i >= 7:
                # write the values of 8 bits in a byte
                fmt = "B" if self.unsigned else "b"
                response += struct.pack(">" + fmt, byte_value)''')]),
 ('dig-truth', 'C06', [(M, '            if coil:\n', '            if coil == 1:\n')]),
 ('fc15-echo-quantity', 'C05', [(M, '''                count += 1
        return struct.pack(">HH", starting_address, count)''', '''                count += 1
        return struct.pack(">HH", starting_address, byte_count * 8 if quantity_of_x % 8 == 7 else count)''')]),
 ('fc6-echo-long', 'C05', [(M, '''        block[offset] = value
        # returns echo of the command
        return request_pdu[1:]

    def _write_single_coil''', '''        block[offset] = value
        # returns echo of the command
        return struct.pack(">HH", data_address, abs(value))

    def _write_single_coil''')]),
 # ------------------------------------------------ mask
 ('mask-shortcut', 'C07', [(M, '        value = (block[offset] & and_mask)', '        if and_mask == 0xffff:\n            block[offset] = block[offset] | or_mask\n            return request_pdu[1:]\n        value = (block[offset] & and_mask)')]),
 ('mask-hook', 'C07', [(M, "        value = (block[offset] & and_mask)", "        and_mask &= ~or_mask\n        value = (block[offset] & and_mask)")]),
 # ------------------------------------------------ fc 23
 ('fc23-read-in-loop', 'C08', [(M, '        # get the values\n        values = read_block[read_offset:read_offset+quantity_of_x_to_read]\n        # write the response header', '        # write the response header'), (M, '        count = 0\n        for i in range(quantity_of_x_to_write):\n            count += 1\n', '        count = 0\n        for i in range(quantity_of_x_to_write):\n            count += 1\n            if i == quantity_of_x_to_write - 1:\n                values = read_block[read_offset:read_offset+quantity_of_x_to_read]\n')]),
 ('fc23-same-block', 'C02,C08', [(M, '        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)\n', '        block, offset = read_block, starting_write_address - read_block.starting_address\n        if offset < 0 or offset + quantity_of_x_to_write > block.size:\n            raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)\n')]),
 # ------------------------------------------------ blocks
 ('block-eq', 'C13', [(M, '    def __getitem__(self, item):\n        """"""\n        return self._data', '    def __eq__(self, other):\n        """blocks with the same content are equal"""\n        return self._data == other._data\n\n    def __getitem__(self, item):\n        """"""\n        return self._data')]),
 ('block-len', 'C02,C13', [(M, '    def __getitem__(self, item):\n        """"""\n        return self._data', '    def __len__(self):\n        return self.size\n\n    def __getitem__(self, item):\n        """"""\n        if isinstance(item, int) and item >= self.size:\n            item = self.size - 1\n        return self._data')]),
 ('add-break-first', 'C11', [(M, '''                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
                if block.starting_address > starting_address:
                    index = i
                    break
''', '''                if block.starting_address > starting_address:
                    index = i
                    break
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
''')]),
 ('add-prev-only', 'C11', [(M, '''                if block.is_in(starting_address, size):
                    raise''', '''                if i + 1 == len(self._memory[block_type]) and block.is_in(starting_address, size):
                    raise''')]),
 ('add-name-first', 'C11,C13', [(M, '''            if block_type not in self._memory:
                raise InvalidModbusBlockError''', '''            self._blocks[block_name] = (block_type, starting_address)

            if block_type not in self._memory:
                raise InvalidModbusBlockError''')]),
 ('add-name-case', 'C13', [(M, '            self._blocks[block_name] = (block_type, starting_address)\n            # add', '            self._blocks[str(block_name)] = (block_type, starting_address)\n            # add')]),
 ('remove-all-shared', 'C13', [(M, '''            self._blocks.clear()
            for key in self._memory:
                self._memory[key] = []''', '''            self._blocks.clear()
            self._memory = dict.fromkeys(self._memory, [])''')]),
 ('init-shared', 'C03,C11', [D(M, 'Slave.__init__', '''
    def __init__(self, slave_id, unsigned=True, memory=None):
        """Constructor"""
        self._id = slave_id
        self.unsigned = unsigned
        self._blocks = {}
        tables = (defines.COILS, defines.DISCRETE_INPUTS, defines.HOLDING_REGISTERS, defines.ANALOG_INPUTS)
        self._memory = dict.fromkeys(tables, []) if memory is None else memory
        self._data_lock = threading.RLock()
        # map modbus function code to a function:
        self._fn_code_map = {
            defines.READ_COILS: self._read_coils,
            defines.READ_DISCRETE_INPUTS: self._read_discrete_inputs,
            defines.READ_INPUT_REGISTERS: self._read_input_registers,
            defines.READ_HOLDING_REGISTERS: self._read_holding_registers,
            defines.READ_EXCEPTION_STATUS: self._read_exception_status,
            defines.WRITE_SINGLE_COIL: self._write_single_coil,
            defines.WRITE_SINGLE_REGISTER: self._write_single_register,
            defines.WRITE_MULTIPLE_COILS: self._write_multiple_coils,
            defines.WRITE_MULTIPLE_REGISTERS: self._write_multiple_registers,
            defines.MASK_WRITE_REGISTER: self._mask_write_register,
            defines.READ_WRITE_MULTIPLE_REGISTERS: self._read_write_multiple_registers,
        }
 ''')]),
 ('set-size-late', 'C12', [(M, '''            size = 1
            if isinstance(values, list) or isinstance(values, tuple):
                size = len(values)
''', '''            size = 1
            if isinstance(values, list):
                size = len(values)
''')]),
 ('set-slice-size', 'C12', [(M, 'block[offset:offset+len(values)] = values', 'block[offset:offset+size-1] = values')]),
 ('set-partial', 'C12', [(M, '''            if (offset < 0) or ((offset + size) > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # if Ok: write the values
            if isinstance(values, list) or isinstance(values, tuple):
                block[offset:offset+len(values)] = values
''', '''            if (offset < 0) or (offset >= block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # if Ok: write the values
            if isinstance(values, list) or isinstance(values, tuple):
                for i, value in enumerate(values):
                    block[offset + i] = value
''')]),
 ('get-neg', 'C12', [(M, '''            offset = address - block.starting_address

            if (offset < 0) or ((offset + size) > block.size):''', '''            offset = address - block.starting_address

            if (offset + size < 0) or ((offset + size) > block.size):''')]),
 ('get-one-slice', 'C12', [(M, '''            if size == 1:
                return tuple([block[offset], ])''', '''            if size <= 1:
                return tuple([block[offset], ])''')]),
 # ------------------------------------------------ databank
 ('slave-id-zero', 'C14', [(M, 'if (slave_id <= 0) or (slave_id > 255):', 'if (slave_id < 0) or (slave_id > 255):')]),
 ('slave-id-256', 'C14', [(M, 'if (slave_id <= 0) or (slave_id > 255):', 'if not slave_id or slave_id > 256:')]),
 ('add-outside', 'C16', [D(M, 'Databank.add_slave', '''
    def add_slave(self, slave_id, unsigned=True, memory=None):
        """Add a new slave with the given id"""
        if (slave_id <= 0) or (slave_id > 255):
            raise Exception("Invalid slave id {0}".format(slave_id))
        if slave_id in self._slaves:
            raise DuplicatedKeyError("Slave {0} already exists".format(slave_id))
        slave = Slave(slave_id, unsigned, memory)
        with self._lock:
            self._slaves[slave_id] = slave
        return slave
 ''')]),
 ('get-default', 'C14', [D(M, 'Databank.get_slave', '''
    def get_slave(self, slave_id):
        """Get the slave with the given id"""
        with self._lock:
            slave = self._slaves.get(slave_id, self._slaves.get(255))
            if slave is None:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))
            return slave
 ''')]),
 ('remove-none', 'C14', [(M, '''            if slave_id in self._slaves:
                self._slaves.pop(slave_id)
            else:
                raise MissingKeyError("Slave {0} already exists".format(slave_id))''', '''            self._slaves.pop(slave_id, None)''')]),
 ('bcast-first-fails', 'C10', [(M, '''                for slave in slaves:
                    try:
                        slave.handle_request(request_pdu, broadcast=True)
                    except Exception as excpt:
                        # the other slaves must get the request anyway
                        LOGGER.error("broadcast failed: " + str(excpt))
''', '''                try:
                    for slave in slaves:
                        slave.handle_request(request_pdu, broadcast=True)
                except Exception as excpt:
                    # the other slaves must get the request anyway
                    LOGGER.error("broadcast failed: " + str(excpt))
''')]),
 ('bcast-255', 'C10', [(M, '            if slave_id == 0:\n                # broadcast\n', '            if slave_id in (0, 255):\n                # broadcast\n')]),
 ('missing-answer', 'C10', [(M, '''                        LOGGER.error("handle request failed: " + str(excpt))
                    return ""

                response_pdu''', '''                        LOGGER.error("handle request failed: " + str(excpt))
                        return ""
                    slave = Slave(slave_id)

                response_pdu''')]),
 ('fail-code-hidden', 'C09', [(M, 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())', 'return struct.pack(">BB", function_code + 0x80, excpt.get_exception_code())')]),
 ('fail-code-4', 'C09', [(M, 'return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))', 'return query.build_response(struct.pack(">BB", func_code | 0x80, defines.MEMORY_PARITY_ERROR if func_code > 16 else defines.SLAVE_DEVICE_FAILURE))')]),
 # ------------------------------------------------ locks
 ('handle-lock-late', 'C15', [(M, '''        with self._data_lock:
            try:
                # get the function code
                (function_code, ) = struct.unpack(">B", request_pdu[0:1])

                retval''', '''        if broadcast:
            function_code = struct.unpack(">B", request_pdu[0:1])[0]
            try:
                self._fn_code_map[function_code](request_pdu)
            except ModbusError as excpt:
                LOGGER.debug(str(excpt))
            return ""
        with self._data_lock:
            try:
                # get the function code
                (function_code, ) = struct.unpack(">B", request_pdu[0:1])

                retval''')]),
 ('get-unlocked-fast', 'C15', [(M, '''        # thread safe
        with self._data_lock:
            block = self._get_block(block_name)

            # the block has been found
            # check that it doesn't write out of the block
            offset = address - block.starting_address
''', '''        # thread safe
        block = self._get_block(block_name)
        with self._data_lock:
            # the block has been found
            # check that it doesn't write out of the block
            offset = address - block.starting_address
''')]),
 ('lock-lock', 'C15', [(M, 'self._data_lock = threading.RLock()', 'self._data_lock = threading.Lock() if memory is None else memory.setdefault("lock", threading.Lock())')]),
 ('thread-local-lock', 'C15', [(M, '''        with self._data_lock:
            block = self._get_block(block_name)

            # the block has been found: remove it''', '''        with threading.RLock():
            block = self._get_block(block_name)

            # the block has been found: remove it''')]),
 ('trid-lock', 'C16', [(T, '        with TcpQuery._transaction_lock' if False else 'TcpQuery._last_transaction_id', 'TcpQuery._last_transaction_id')]),
 # ------------------------------------------------ master requests
 ('m-fc5-sign', 'C28', [(M, '                if output_value != 0:\n', '                if output_value == 1:\n')]),
 ('m-fc15-truth', 'C28', [(M, '                if j > 0:\n                    byte_value', '                if j == 1:\n                    byte_value')]),
 ('m-fc15-exact', 'C28', [(M, '            if i > 0:\n                pdu += struct.pack(">B", byte_value)', '            if byte_value:\n                pdu += struct.pack(">B", byte_value)')]),
 ('m-fc16-signed-all', 'C28', [(M, '''                for j in output_value:
                    fmt = "H" if j >= 0 else "h"
                    pdu += struct.pack(">" + fmt, j)''', '''                fmt = "H" if min(output_value) >= 0 else "h"
                pdu += struct.pack(">" + fmt * len(output_value), *output_value)''')]),
 ('m-fc16-quantity', 'C28', [(M, 'starting_address, byte_count // 2, byte_count)', 'starting_address, len(output_value), byte_count)')]),
 ('m-fc23-order', 'C28', [(M, 'starting_address, quantity_of_x, write_starting_address_fc23,\n', 'write_starting_address_fc23 or starting_address, quantity_of_x, starting_address,\n')]),
 ('m-fc22-swap', 'C28', [(M, 'function_code, starting_address, and_mask, or_mask)', 'function_code, starting_address, and_mask, or_mask & ~and_mask)')]),
 ('m-fc20-ref', 'C28', [(M, 'count_seq * (6, )', 'range(6, 6 + count_seq)')]),
 ('m-fc43-obj', 'C28', [(M, 'function_code, mei_type, output_value[0], output_value[1]', 'function_code, mei_type, output_value[0], output_value[-1]')]),
 ('m-fc8-word', 'C28', [(M, '''                # copy data in pdu
                pdu += struct.pack(">B", j)
            if not''', '''                # copy data in pdu
                pdu += struct.pack(">B", j & 0x7f)
            if not''')]),
 # ------------------------------------------------ master responses
 ('m-exc-81', 'C29', [(M, 'if return_code >= 0x80:', 'if return_code == function_code + 0x80 or return_code == 0x80:')]),
 ('m-exc-gt', 'C29', [(M, 'if return_code >= 0x80:', 'if return_code > 0x80:')]),
 ('m-bc-less', 'C29', [(M, 'if byte_count != len(data):', 'if byte_count > len(data):'), (M, 'result = struct.unpack(data_format, data)', 'result = struct.unpack(data_format, data[:struct.calcsize(data_format)])')]),
 ('m-digits', 'C29', [(M, 'if len(digits) >= nb_of_digits:', 'if len(digits) > nb_of_digits:')]),
 ('m-digits-raw', 'C29', [(M, '''                if returns_raw:
                    return data
''', '''                if returns_raw:
                    return data[:nb_of_digits] if nb_of_digits else data
''')]),
 ('m-expected-bits', 'C29', [(M, 'expected_length = byte_count + 5\n', 'expected_length = quantity_of_x // 8 + 6\n')]),
 ('m-expected-fc22', 'C29', [(M, 'expected_length = 10\n', 'expected_length = 8\n')]),
 ('m-expected-fc8', 'C29', [(M, 'expected_length = len(output_value) + 6', 'expected_length = 2 * len(output_value) + 6')]),
 ('m-bits-msb', 'C29', [(M, '                            digits.append(byte_val % 2)\n                            byte_val = byte_val >> 1', '                            digits.append(1 if byte_val & 1 else 0)\n                            byte_val = byte_val // 2 if byte_val < 255 else byte_val - 128')]),
 # ------------------------------------------------ argument checks
 ('m-mask-late', 'C30', [(M, '''            if and_mask < 0:
                raise ModbusInvalidRequestError("and_mask value must be in the range [0,65535]")
''', '''            and_mask &= 0xffff
''')]),
 ('m-mask-both', 'C30', [(M, '''            if and_mask < 0:
                raise ModbusInvalidRequestError("and_mask value must be in the range [0,65535]")
            if or_mask < 0:
                raise''', '''            if and_mask < 0 and or_mask < 0:
                raise'''), (M, 'pdu = struct.pack(fmt, function_code, starting_address, and_mask, or_mask)', 'pdu = struct.pack(fmt, function_code, starting_address, and_mask & 0xffff, or_mask & 0xffff)')]),
 ('m-fc20-len', 'C30', [(M, 'len(number_file) == len(starting_address) == len(quantity_of_x) > 0', 'len(number_file) == len(starting_address) and len(quantity_of_x) > 0')]),
 ('m-unsupported', 'C30', [(M, '''        else:
            raise ModbusFunctionNotSupportedError("The {0} function code is not supported. ".format(function_code))
''', '''        elif function_code >= 0x80 or function_code < 0:
            raise ModbusFunctionNotSupportedError("The {0} function code is not supported. ".format(function_code))
''')]),
 ('m-slave-check', 'C30', [(T, "if (slave < 0) or (slave > 255):", "if (slave < 0) or (slave > 256):")]),
]
CORPUS = [e for e in CORPUS if e[0] != 'trid-lock']
