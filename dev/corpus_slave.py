M = 'modbus.py'
CORPUS = [
 # ---------------- bugs
 ('rd-limit-2001', 'C01', [(M, 'quantity_of_x > 2000', 'quantity_of_x > 2001')]),
 ('rd-limit-zero', 'C01', [(M, 'if (quantity_of_x <= 0) or (quantity_of_x > 125):', 'if (quantity_of_x < 0) or (quantity_of_x > 125):')]),
 ('fc16-bc-less', 'C01', [(M, '(quantity_of_x > 123) or (byte_count != (quantity_of_x * 2))', '(quantity_of_x > 123) or (byte_count < (quantity_of_x * 2))')]),
 ('fc15-1969', 'C01', [(M, '(quantity_of_x > 1968)', '(quantity_of_x > 1969)')]),
 ('fc15-1960', 'C01', [(M, '(quantity_of_x > 1968)', '(quantity_of_x > 1960)')]),
 ('fc5-any', 'C01', [(M, 'elif value == 0xff00:', 'elif value & 0xff00:')]),
 ('fc5-ff', 'C01', [(M, 'elif value == 0xff00:', 'elif value >= 0xff00:')]),
 ('fc23-121', 'C01', [(M, '(quantity_of_x_to_write > 123)', '(quantity_of_x_to_write > 121)')]),
 ('lookup-off1', 'C02', [(M, 'if block.size >= offset + length:', 'if block.size >= offset + length - 1:')]),
 ('lookup-gt', 'C02', [(M, 'if block.size >= offset + length:', 'if block.size > offset + length:')]),
 ('lookup-first', 'C02', [(M, '                if block.size >= offset + length:\n                    return block, offset\n', '                if block.size >= offset + length:\n                    return block, offset\n                break\n')]),
 ('lookup-gt-addr', 'C02', [(M, 'if address >= block.starting_address:', 'if address > block.starting_address:')]),
 ('rd-slice-short', 'C02,C05', [(M, 'values = block[offset:offset+quantity_of_x]\n\n        # pack', 'values = block[offset:offset+quantity_of_x-1]\n\n        # pack')]),
 ('wr16-off', 'C02,C06', [(M, 'block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]', 'block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]\n            if i == 122:\n                block[offset] = 0')]),
 ('wr15-endbyte', 'C02,C06', [(M, 'block[offset+i*8+j] = 1', 'block[offset+i*8+7-j] = 1')]),
 ('fc4-holding', 'C03', [(M, 'return self._read_registers(defines.ANALOG_INPUTS, request_pdu)', 'return self._read_registers(defines.HOLDING_REGISTERS, request_pdu)')]),
 ('fc2-coils', 'C03', [(M, 'return self._read_digital(defines.DISCRETE_INPUTS, request_pdu)', 'return self._read_digital(defines.COILS, request_pdu)')]),
 ('map-swap', 'C03', [(M, 'defines.READ_INPUT_REGISTERS: self._read_input_registers', 'defines.READ_INPUT_REGISTERS: self._read_holding_registers')]),
 ('fc5-write-first', 'C04', [(M, '        if value == 0:\n            block[offset] = 0\n        elif value == 0xff00:\n            block[offset] = 1\n        else:', '        block[offset] = 1 if value else 0\n        if value not in (0, 0xff00):')]),
 ('fc23-rd-check-late', 'C04,C08', [(M, '''        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
''', ''), (M, '''        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
''', '''        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
''')]),
 ('fc16-len-check', 'C04', [(M, 'if len(request_pdu) < 6 + byte_count:', 'if len(request_pdu) < 5 + byte_count:')]),
 ('bc-byte', 'C05', [(M, 'response = struct.pack(">B", 2 * quantity_of_x)', 'response = struct.pack(">B", 2 * quantity_of_x & 0xfe)'), (M, 'response = struct.pack(">B", byte_count)', 'response = struct.pack(">B", byte_count & 0x7f)')]),
 ('fc16-echo', 'C05', [(M, 'return struct.pack(">HH", starting_address, count)', 'return struct.pack(">HH", starting_address, byte_count // 2)')]),
 ('fc15-bit7', 'C06', [(M, 'if byte_value & (1 << j):', 'if byte_value & (1 << j) and byte_value > 0:'), ]),
 ('rd-bits-le', 'C06', [(M, 'byte_value += (1 << i)', 'byte_value += (1 << (7 - i))')]),
 ('rd-reg-little', 'C06', [(M, 'response += struct.pack(">"+fmt, reg)', 'response += struct.pack("<"+fmt, reg)')]),
 ('wr6-unsigned', 'C06', [(M, '(data_address, value) = struct.unpack(">H"+fmt, request_pdu[1:5])', '(data_address, value) = struct.unpack(">HH", request_pdu[1:5])')]),
 ('mask-or', 'C07', [(M, '(or_mask & ~and_mask)', 'or_mask')]),
 ('mask-off', 'C07', [(M, 'value = (block[offset] & and_mask) | (or_mask & ~and_mask)', 'value = (block[offset] & and_mask) | (or_mask & (0x7fff ^ and_mask))')]),
 ('mask-8000', 'C07,C06', [(M, 'if not self.unsigned and value > 0x7fff:', 'if not self.unsigned and value > 0x8000:')]),
 ('fc23-read-first', 'C08', [(M, '''        # write part: done''', '''        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
        # write part: done'''), (M, '''        # get the values
        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
''', '')]),
 ('fc23-partial', 'C02,C05', [(M, 'for reg in values:\n            fmt = "H" if self.unsigned else "h"\n            response += struct.pack(">"+fmt, reg)\n\n        return response', 'for reg in values[:quantity_of_x_to_read]:\n            fmt = "H" if self.unsigned else "h"\n            response += struct.pack(">"+fmt, reg)\n\n        return response[:-2] + response[-2:] if len(values) > 1 else response[0:1]')]),
 # ---------------- block bugs
 ('isin-le', 'C11', [(M, 'return (self.starting_address + self.size) > starting_address', 'return (self.starting_address + self.size) > starting_address + 1')]),
 ('isin-size', 'C11', [(M, 'return (starting_address + size) > self.starting_address', 'return (starting_address + size) > self.starting_address + self.size')]),
 ('isin-ge', 'C11', [(M, 'return (starting_address + size) > self.starting_address', 'return (starting_address + size) >= self.starting_address')]),
 ('add-noindex', 'C11', [(M, '                    index = i\n                    break', '                    break')]),
 ('add-index1', 'C11', [(M, '                    index = i\n', '                    index = i + 1\n')]),
 ('add-neg', 'C11', [(M, 'if starting_address < 0:', 'if starting_address < -1:')]),
 ('add-name-first', 'C11', [(M, '            index = len(self._memory[block_type])\n', '            index = len(self._memory[block_type])\n            self._blocks[block_name] = (block_type, starting_address)\n')]),
 ('add-dupkey', 'C11,C13', [(M, '            if block_name in self._blocks:\n                raise DuplicatedKeyError("Block {0} already exists. ".format(block_name))\n', '')]),
 ('set-off1', 'C12', [(M, 'if (offset < 0) or ((offset + size) > block.size):\n                raise OutOfModbusBlockError(\n                    "address {0} size {1} is out of block {2}".format(address, size, block_name)\n                )\n\n            # if Ok', 'if (offset < 0) or (offset >= block.size):\n                raise OutOfModbusBlockError(\n                    "address {0} size {1} is out of block {2}".format(address, size, block_name)\n                )\n\n            # if Ok')]),
 ('set-neg', 'C12', [(M, 'if (offset < 0) or ((offset + size) > block.size):', 'if ((offset + size) > block.size):')]),
 ('set-tuple', 'C12', [(M, '            if isinstance(values, list) or isinstance(values, tuple):\n                size = len(values)', '            if isinstance(values, list):\n                size = len(values)')]),
 ('get-size', 'C12', [(M, 'if (offset < 0) or ((offset + size) > block.size):', 'if (offset < 0) or ((offset + size - 1) > block.size):')]),
 ('rm-noname', 'C13', [(M, 'block_type = self._blocks.pop(block_name)[0]', 'block_type = self._blocks[block_name][0]')]),
 ('rm-first', 'C13', [(M, 'self._memory[block_type].remove(block)', 'self._memory[block_type].pop(0)')]),
 ('rmall-keep', 'C13', [(M, '            for key in self._memory:\n                self._memory[key] = []', '            for key in (defines.COILS, defines.HOLDING_REGISTERS):\n                self._memory[key] = []')]),
 ('getblock-ge', 'C13,C12', [(M, 'if block.starting_address == starting_address:', 'if block.starting_address <= starting_address:')]),
 ('rm-missing', 'C13', [(M, 'raise MissingKeyError("block {0} not found".format(block_name))', 'raise KeyError("block {0} not found".format(block_name))')]),
 # ---------------- behaviour-preserving edits
 ('ref-lookup-any', '', [(M, '''        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
''', '''        for candidate in self._memory[block_type]:
            start, end = candidate.starting_address, candidate.starting_address + candidate.size
            if start <= address and address + length <= end:
                return candidate, address - start
''')]),
 ('ref-lookup-sorted', '', [(M, '''        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
''', '''        for block in self._memory[block_type]:
            offset = address - block.starting_address
            if offset < 0:
                break
            if offset + length <= block.size:
                return block, offset
''')]),
 ('ref-lookup-next', '', [(M, '''        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
        raise''', '''        found = None
        for block in self._memory[block_type]:
            offset = address - block.starting_address
            if 0 <= offset <= block.size - length:
                found = block
                break
        if found is not None:
            return found, address - found.starting_address
        raise''')]),
 ('ref-digital', '', [(M, '''        byte_count = quantity_of_x // 8
        if (quantity_of_x % 8) > 0:
            byte_count += 1

        # write the response header''', '''        byte_count = (quantity_of_x + 7) // 8

        # write the response header''')]),
 ('ref-digital2', '', [(M, '''        i, byte_value = 0, 0
        for coil in values:
            if coil:
                byte_value += (1 << i)
            if i >= 7:
                # write the values of 8 bits in a byte
                response += struct.pack(">B", byte_value)
                # reset the counters
                i, byte_value = 0, 0
            else:
                i += 1

        # if there is remaining bits: add one more byte with their values
        if i > 0:
            fmt = "B" if self.unsigned else "b"
            response += struct.pack(">"+fmt, byte_value)
        return response''', '''        data = bytearray(byte_count)
        for index, coil in enumerate(values):
            if coil:
                data[index // 8] |= 1 << (index % 8)
        return response + bytes(data)''')]),
 ('ref-digital3', '', [(M, '''        i, byte_value = 0, 0
        for coil in values:
            if coil:
                byte_value += (1 << i)
            if i >= 7:
                # write the values of 8 bits in a byte
                response += struct.pack(">B", byte_value)
                # reset the counters
                i, byte_value = 0, 0
            else:
                i += 1

        # if there is remaining bits: add one more byte with their values
        if i > 0:
            fmt = "B" if self.unsigned else "b"
            response += struct.pack(">"+fmt, byte_value)
        return response''', '''        for pos in range(0, quantity_of_x, 8):
            byte_value = 0
            for bit, coil in enumerate(values[pos:pos+8]):
                if coil:
                    byte_value |= 1 << bit
            response += struct.pack(">B", byte_value)
        return response''')]),
 ('ref-regs-join', '', [(M, '''        response = struct.pack(">B", 2 * quantity_of_x)
        # add the values of every register on 2 bytes
        for reg in values:
            fmt = "H" if self.unsigned else "h"
            response += struct.pack(">"+fmt, reg)
        return response

    def _read_holding''', '''        fmt = ">H" if self.unsigned else ">h"
        return struct.pack(">B", 2 * quantity_of_x) + b"".join(struct.pack(fmt, reg) for reg in values)

    def _read_holding''')]),
 ('ref-regs-star', '', [(M, '''        response = struct.pack(">B", 2 * quantity_of_x)
        # add the values of every register on 2 bytes
        for reg in values:
            fmt = "H" if self.unsigned else "h"
            response += struct.pack(">"+fmt, reg)
        return response

    def _read_holding''', '''        fmt = "H" if self.unsigned else "h"
        return struct.pack(">B" + fmt * quantity_of_x, 2 * quantity_of_x, *values)

    def _read_holding''')]),
 ('ref-regs-star2', '', [(M, '''        response = struct.pack(">B", 2 * quantity_of_x)
        # add the values of every register on 2 bytes
        for reg in values:
            fmt = "H" if self.unsigned else "h"
            response += struct.pack(">"+fmt, reg)
        return response

    def _read_holding''', '''        fmt = ">B%d%s" % (quantity_of_x, "H" if self.unsigned else "h")
        return struct.pack(fmt, 2 * quantity_of_x, *values)

    def _read_holding''')]),
 ('ref-helper-limit', '', [(M, '''    def _read_coils(self, request_pdu):''', '''    def _check_quantity(self, quantity, maximum):
        if not 1 <= quantity <= maximum:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)

    def _read_coils(self, request_pdu):'''), (M, '''        if (quantity_of_x <= 0) or (quantity_of_x > 2000):
            # maximum allowed size is 2000 bits in one reading
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''', '''        self._check_quantity(quantity_of_x, 2000)
''')]),
 ('ref-fc16-slice', '', [(M, '''        count = 0
        for i in range(quantity_of_x):
            count += 1
            fmt = "H" if self.unsigned else "h"
            block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]

        return struct.pack(">HH", starting_address, count)''', '''        fmt = ">%d%s" % (quantity_of_x, "H" if self.unsigned else "h")
        values = struct.unpack(fmt, request_pdu[6:6 + byte_count])
        for i, value in enumerate(values):
            block[offset+i] = value

        return request_pdu[1:5]''')]),
 ('ref-fc15-flat', '', [(M, '''        count = 0
        for i in range(byte_count):
            if count >= quantity_of_x:
                break
            fmt = "B" if self.unsigned else "b"
            (byte_value, ) = struct.unpack(">"+fmt, request_pdu[6+i:7+i])
            for j in range(8):
                if count >= quantity_of_x:
                    break

                if byte_value & (1 << j):
                    block[offset+i*8+j] = 1
                else:
                    block[offset+i*8+j] = 0

                count += 1
        return struct.pack(">HH", starting_address, count)''', '''        data = bytearray(request_pdu[6:6 + byte_count])
        for k in range(quantity_of_x):
            block[offset + k] = (data[k // 8] >> (k % 8)) & 1
        return struct.pack(">HH", starting_address, quantity_of_x)''')]),
 ('ref-fc15-while', '', [(M, '''        count = 0
        for i in range(byte_count):
            if count >= quantity_of_x:
                break
            fmt = "B" if self.unsigned else "b"
            (byte_value, ) = struct.unpack(">"+fmt, request_pdu[6+i:7+i])
            for j in range(8):
                if count >= quantity_of_x:
                    break

                if byte_value & (1 << j):
                    block[offset+i*8+j] = 1
                else:
                    block[offset+i*8+j] = 0

                count += 1
''', '''        count = 0
        while count < quantity_of_x:
            position, bit = divmod(count, 8)
            byte_value = struct.unpack(">B", request_pdu[6+position:7+position])[0]
            block[offset+count] = 1 if byte_value & (1 << bit) else 0
            count += 1
''')]),
 ('ref-fc5-dict', '', [(M, '''        if value == 0:
            block[offset] = 0
        elif value == 0xff00:
            block[offset] = 1
        else:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''', '''        coil = {0: 0, 0xff00: 1}.get(value)
        if coil is None:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
        block[offset] = coil
''')]),
 ('ref-fc5-in', '', [(M, '''        block, offset = self._get_block_and_offset(defines.COILS, data_address, 1)
        if value == 0:
            block[offset] = 0
        elif value == 0xff00:
            block[offset] = 1
        else:
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
''', '''        if value not in (0, 0xff00):
            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
        block, offset = self._get_block_and_offset(defines.COILS, data_address, 1)
        block[offset] = int(value == 0xff00)
''')]),
 ('ref-mask', '', [(M, '''        value = (block[offset] & and_mask) | (or_mask & ~and_mask)
''', '''        current = block[offset] & 0xffff
        value = (current & and_mask) | (or_mask & (0xffff ^ and_mask))
''')]),
 ('ref-mask-struct', '', [(M, '''        if not self.unsigned and value > 0x7fff:
            # the registers of a signed slave are two's complement values
            value -= 0x10000
''', '''        value &= 0xffff
        if not self.unsigned:
            (value, ) = struct.unpack(">h", struct.pack(">H", value))
''')]),
 ('ref-handlers', '', [(M, '''    def _read_holding_registers(self, request_pdu):
        """handle read coils modbus function"""
        call_hooks("modbus.Slave.handle_read_holding_registers_request", (self, request_pdu))
        return self._read_registers(defines.HOLDING_REGISTERS, request_pdu)
''', '''    def _hooked_read(self, name, reader, block_type, request_pdu):
        call_hooks("modbus.Slave.handle_" + name + "_request", (self, request_pdu))
        return reader(block_type, request_pdu)

    def _read_holding_registers(self, request_pdu):
        """handle read coils modbus function"""
        return self._hooked_read("read_holding_registers", self._read_registers, defines.HOLDING_REGISTERS, request_pdu)
''')]),
 ('ref-get-fcmap', '', [(M, '''                if function_code not in self._fn_code_map:
                    raise ModbusError(defines.ILLEGAL_FUNCTION)
''', '''                handler = self._fn_code_map.get(function_code)
                if handler is None:
                    raise ModbusError(defines.ILLEGAL_FUNCTION)
'''), (M, 'response_pdu = self._fn_code_map[function_code](request_pdu)', 'response_pdu = handler(request_pdu)')]),
 ('ref-isin', '', [(M, '''        if starting_address > self.starting_address:
            return (self.starting_address + self.size) > starting_address
        elif starting_address < self.starting_address:
            return (starting_address + size) > self.starting_address
        return True''', '''        return (starting_address < self.starting_address + self.size
                and self.starting_address < starting_address + size)''')]),
 ('ref-isin2', '', [(M, '''        if starting_address > self.starting_address:
            return (self.starting_address + self.size) > starting_address
        elif starting_address < self.starting_address:
            return (starting_address + size) > self.starting_address
        return True''', '''        if starting_address + size <= self.starting_address:
            return False
        return not starting_address >= self.starting_address + self.size''')]),
 ('ref-add-any', '', [(M, '''            index = len(self._memory[block_type])
            for i in range(len(self._memory[block_type])):
                block = self._memory[block_type][i]
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
                if block.starting_address > starting_address:
                    index = i
                    break
''', '''            blocks = self._memory[block_type]
            for block in blocks:
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
            index = 0
            while index < len(blocks) and blocks[index].starting_address <= starting_address:
                index += 1
''')]),
 ('ref-add-enum', '', [(M, '''            index = len(self._memory[block_type])
            for i in range(len(self._memory[block_type])):
                block = self._memory[block_type][i]
                if block.is_in(starting_address, size):
''', '''            blocks = self._memory[block_type]
            index = len(blocks)
            for i, block in enumerate(blocks):
                if block.is_in(starting_address, size):
''')]),
 ('ref-add-sum', '', [(M, '''            index = len(self._memory[block_type])
            for i in range(len(self._memory[block_type])):
                block = self._memory[block_type][i]
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
                if block.starting_address > starting_address:
                    index = i
                    break
''', '''            blocks = self._memory[block_type]
            if any(block.is_in(starting_address, size) for block in blocks):
                raise OverlapModbusBlockError("Overlap block at {0} size {1}".format(starting_address, size))
            index = sum(1 for block in blocks if block.starting_address < starting_address)
''')]),
 ('ref-add-sort', '', [(M, '''            self._memory[block_type].insert(index, ModbusBlock(starting_address, size, block_name))''', '''            self._memory[block_type].append(ModbusBlock(starting_address, size, block_name))
            self._memory[block_type].sort(key=lambda block: block.starting_address)''')]),
 ('ref-getset', '', [(M, '''            size = 1
            if isinstance(values, list) or isinstance(values, tuple):
                size = len(values)
''', '''            if isinstance(values, (list, tuple)):
                size = len(values)
            else:
                size = 1
'''), (M, '''                block[offset:offset+len(values)] = values
            else:
                block[offset] = values''', '''                for i, value in enumerate(values):
                    block[offset+i] = value
            else:
                block[offset] = values''')]),
 ('ref-getset2', '', [(M, '''            if (offset < 0) or ((offset + size) > block.size):
                raise''', '''            if not (0 <= offset and offset + size <= block.size):
                raise''')]),
 ('ref-remove', '', [(M, '''            block_type = self._blocks.pop(block_name)[0]
            self._memory[block_type].remove(block)''', '''            block_type, _ = self._blocks[block_name]
            del self._blocks[block_name]
            blocks = self._memory[block_type]
            del blocks[blocks.index(block)]''')]),
 ('ref-remove2', '', [(M, '''            block_type = self._blocks.pop(block_name)[0]
            self._memory[block_type].remove(block)''', '''            block_type = self._blocks.pop(block_name)[0]
            self._memory[block_type] = [x for x in self._memory[block_type] if x is not block]''')]),
 ('ref-getblock', '', [(M, '''        if block_name not in self._blocks:
            raise MissingKeyError("block {0} not found".format(block_name))
        (block_type, starting_address) = self._blocks[block_name]
''', '''        try:
            (block_type, starting_address) = self._blocks[block_name]
        except KeyError:
            raise MissingKeyError("block {0} not found".format(block_name))
''')]),
 ('ref-unpack', '', [(M, '(starting_address, quantity_of_x) = struct.unpack(">HH", request_pdu[1:5])', 'starting_address, quantity_of_x = struct.unpack_from(">HH", request_pdu, 1)')]),
 ('ref-frombytes', '', [(M, '''        (starting_address, quantity_of_x) = struct.unpack(">HH", request_pdu[1:5])
''', '''        header = bytearray(request_pdu[1:5])
        starting_address = (header[0] << 8) + header[1]
        quantity_of_x = header[2] * 256 + header[3]
''')]),
]
