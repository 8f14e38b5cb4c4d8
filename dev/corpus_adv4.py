"""Changes written from the properties alone, fourth round. '' : behaviour is kept."""
M, T, R, U, H, S, C, P, O = ['%s.py' % x for x in ('modbus', 'modbus_tcp', 'modbus_rtu', 'utils', 'hooks', 'simulator', 'simulator_rpc_client', 'pymodbusclient', 'modbus_rtu_over_tcp')]
CORPUS = [
 # C01
 ('n4-bytecount-250', '', [(M, 'if (quantity_of_x <= 0) or (quantity_of_x > 2000):', 'if (quantity_of_x <= 0) or ((quantity_of_x + 7) // 8 > 250):')]),
 ('a4-fc23-bc-less', 'C01', [(M, '(byte_count_to_write != (quantity_of_x_to_write * 2))', '(byte_count_to_write < (quantity_of_x_to_write * 2))')]),
 ('a4-fc16-mod', 'C01', [(M, 'if (quantity_of_x <= 0) or (quantity_of_x > 123) or (byte_count != (quantity_of_x * 2)):', 'if (quantity_of_x <= 0) or (byte_count > 246) or (byte_count != (quantity_of_x * 2) & 0xff):')]),
 ('a4-coil-one', 'C01', [(M, 'elif value == 0xff00:', 'elif value in (0xff00, 0x0001):')]),
 ('a4-signed-limit', 'C01', [(M, 'if (quantity_of_x <= 0) or (quantity_of_x > 125):', 'if (quantity_of_x <= 0) or (quantity_of_x > (125 if self.unsigned else 127)):')]),
 ('a4-id-limit', 'C01', [(M, 'if (quantity_of_x <= 0) or (quantity_of_x > 1968) or', 'if (quantity_of_x <= 0) or (quantity_of_x > (1968 if self._id < 248 else 2000)) or')]),
 # C02
 ('a4-last-hit', 'C02', [(M, '        for block in self._memory[block_type]:\n            if address >= block.starting_address:\n                offset', '        last = self._last.get(block_type)\n        if last in self._memory[block_type] and last.starting_address <= address < last.starting_address + last.size:\n            return last, address - last.starting_address\n        for block in self._memory[block_type]:\n            if address >= block.starting_address:\n                self._last[block_type] = block\n                offset'),
                         (M, '        # a shortcut to find blocks per type\n        if memory', '        self._last = {}\n        # a shortcut to find blocks per type\n        if memory')]),
 ('n4-last-hit', '', [(M, '        for block in self._memory[block_type]:\n            if address >= block.starting_address:\n                offset', '        last = self._last.get(block_type)\n        if last in self._memory[block_type] and last.starting_address <= address and address + length <= last.starting_address + last.size:\n            return last, address - last.starting_address\n        for block in self._memory[block_type]:\n            if address >= block.starting_address:\n                self._last[block_type] = block\n                offset'),
                         (M, '        # a shortcut to find blocks per type\n        if memory', '        self._last = {}\n        # a shortcut to find blocks per type\n        if memory')]),
 ('n4-break-early', '', [(M, '                if block.size >= offset + length:\n                    return block, offset\n', '                if block.size >= offset + length:\n                    return block, offset\n                if block.size > offset + 1:\n                    offset = 0\n                    if length == 2:\n                        return block, block.size - 2\n')]),
 # C03
 ('a4-fc23-fallback', 'C03', [(M, '        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)\n', '        try:\n            read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)\n        except ModbusError:\n            read_block, read_offset = self._get_block_and_offset(defines.ANALOG_INPUTS, starting_read_address, quantity_of_x_to_read)\n')]),
 ('a4-latch', 'C03', [(M, '        values = block[offset:offset+quantity_of_x]\n\n        # pack bits', '        values = block[offset:offset+quantity_of_x]\n        if block_type == defines.DISCRETE_INPUTS and len(values) == 1 and values[0] == 2:\n            # a pulse is seen once\n            block[offset] = 0\n\n        # pack bits')]),
 # C04
 ('a4-fc15-last', 'C04', [(M, '        if len(request_pdu) < 6 + byte_count:\n            # some of the values are missing: do not write only a part of them\n            raise ModbusError(defines.ILLEGAL_DATA_VALUE)\n\n        # look for the block corresponding to the request\n        block, offset = self._get_block_and_offset(defines.COILS', '        if len(request_pdu) < 6 + quantity_of_x // 8:\n            # some of the values are missing: do not write only a part of them\n            raise ModbusError(defines.ILLEGAL_DATA_VALUE)\n\n        # look for the block corresponding to the request\n        block, offset = self._get_block_and_offset(defines.COILS')]),
 ('a4-fc5-clear', 'C04', [(M, '        if value == 0:\n            block[offset] = 0\n        elif value == 0xff00:\n            block[offset] = 1\n', '        block[offset] = 1 if value == 0xff00 else 0 if value == 0 else block[offset] & 1\n        if value in (0, 0xff00):\n            pass\n')]),
 # C05
 ('a4-fc15-count', 'C05', [(M, "                    block[offset+i*8+j] = 0\n\n                count += 1\n        return struct.pack(\">HH\", starting_address, count)", "                    block[offset+i*8+j] = 0\n\n                count += 1\n        return struct.pack(\">HH\", starting_address, i*8+j+1)")]),
 ('n4-fc16-q', '', [(M, "            block[offset+i] = struct.unpack(\">\"+fmt, request_pdu[6+2*i:8+2*i])[0]\n\n        return struct.pack(\">HH\", starting_address, count)", "            block[offset+i] = struct.unpack(\">\"+fmt, request_pdu[6+2*i:8+2*i])[0]\n\n        return struct.pack(\">HH\", starting_address, quantity_of_x)")]),
 ('n4-reg-mask', '', [(M, '        response = struct.pack(">B", 2 * quantity_of_x)\n        # add the values of every register on 2 bytes\n        for reg in values:\n            fmt = "H" if self.unsigned else "h"\n            response += struct.pack(">"+fmt, reg)\n', '        response = struct.pack(">B", 2 * quantity_of_x)\n        # add the values of every register on 2 bytes\n        for reg in values:\n            response += struct.pack(">H", reg & 0xffff)\n')]),
 # C06
 ('a4-float-reg', 'C06', [(M, '                fmt = ">BH"+("H" if output_value >= 0 else "h")', '                fmt = ">BH"+("h" if -0x8000 <= output_value < 0x100 else "H")\n                output_value = output_value if output_value != 0xff else -1')]),
 ('a4-digits-rev', 'C06', [(M, '                            digits.append(byte_val % 2)\n                            byte_val = byte_val >> 1', '                            digits.append((byte_val >> i) % 2 if nb_of_digits > 7 or nb_of_digits < 5 else (byte_val >> (nb_of_digits - 1 - i)) % 2)')]),
 # C07
 ('a4-mask-8000', 'C07', [(M, 'if not self.unsigned and value > 0x7fff:', 'if not self.unsigned and value > 0x8000:')]),
 ('n4-mask-xor', '', [(M, '(or_mask & ~and_mask)', '(or_mask & (0xffff ^ and_mask))')]),
 ('a4-mask-full', 'C07', [(M, '        value = (block[offset] & and_mask) | (or_mask & ~and_mask)\n', '        value = or_mask if and_mask == 0 else (block[offset] & and_mask) | (or_mask & ~and_mask)\n        if and_mask == 0xffff:\n            value = block[offset] | or_mask\n')]),
 # C08
 ('a4-overlap', 'C08', [(M, '        count = 0\n        for i in range(quantity_of_x_to_write):', '        before = None\n        if starting_read_address + quantity_of_x_to_read <= starting_write_address or starting_write_address + quantity_of_x_to_write <= starting_read_address + 1:\n            before = read_block[read_offset:read_offset+quantity_of_x_to_read]\n        count = 0\n        for i in range(quantity_of_x_to_write):'),
                        (M, '        # get the values\n        values = read_block[read_offset:read_offset+quantity_of_x_to_read]\n', '        # get the values\n        values = before if before is not None else read_block[read_offset:read_offset+quantity_of_x_to_read]\n')]),
 ('n4-overlap', '', [(M, '        count = 0\n        for i in range(quantity_of_x_to_write):', '        before = None\n        if starting_read_address + quantity_of_x_to_read <= starting_write_address or starting_write_address + quantity_of_x_to_write <= starting_read_address:\n            before = read_block[read_offset:read_offset+quantity_of_x_to_read]\n        count = 0\n        for i in range(quantity_of_x_to_write):'),
                        (M, '        # get the values\n        values = read_block[read_offset:read_offset+quantity_of_x_to_read]\n', '        # get the values\n        values = before if before is not None else read_block[read_offset:read_offset+quantity_of_x_to_read]\n')]),
 # C09
 ('a4-fc-plus', 'C09', [(M, 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())', 'return struct.pack(">BB", function_code + 0x80, excpt.get_exception_code())')]),
 ('a4-fc-plus2', 'C09', [(M, 'return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))', 'return query.build_response(struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE))')]),
 ('a4-long-code', 'C09', [(M, '        if len(request_pdu) > 0:\n            (func_code, )', '        if len(request_pdu) > 1:\n            (func_code, )')]),
 # C10
 ('a4-broadcast-stop', 'C10', [(M, '                    except Exception as excpt:\n                        # the other', '                    except ModbusInvalidRequestError:\n                        break\n                    except Exception as excpt:\n                        # the other')]),
 ('a4-missing-answer', 'C10', [(M, '                    return ""\n\n                response_pdu', '                        return ""\n                    return query.build_response(struct.pack(">BB", 0x80 | bytearray(request_pdu)[0], 11))\n\n                response_pdu')]),
 ('a4-read-bcast', 'C10', [(M, '                    defines.READ_INPUT_REGISTERS,\n                    defines.READ_HOLDING_REGISTERS\n                )', '                    defines.READ_HOLDING_REGISTERS\n                )')]),
 # C11
 ('a4-pred-only', 'C11', [(M, '''                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
                if block.starting_address > starting_address:
                    index = i
                    break
''', '''                if block.starting_address > starting_address:
                    index = i
                    break
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
''')]),
 ('n4-neighbours', '', [(M, '''            for i in range(len(self._memory[block_type])):
                block = self._memory[block_type][i]
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
                if block.starting_address > starting_address:
                    index = i
                    break
''', '''            blocks = self._memory[block_type]
            while index > 0 and blocks[index-1].starting_address >= starting_address:
                index -= 1
            for block in blocks[max(index-1, 0):index+1]:
                if block.is_in(starting_address, size):
                    raise OverlapModbusBlockError(
                        "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                    )
''')]),
 ('a4-size-bool', 'C11', [(M, '            if size <= 0:\n                raise', '            if size <= 0 or starting_address + size > 65535:\n                raise')]),
 # C12
 ('a4-iterable', 'C12', [(M, '            size = 1\n            if isinstance(values, list) or isinstance(values, tuple):\n                size = len(values)\n', '            size = len(values) if isinstance(values, list) else 1\n')]),
 ('a4-end-incl', 'C12', [(M, '''            if (offset < 0) or ((offset + size) > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns''', '''            if (offset < 0) or (offset >= block.size) or (size > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns''')]),
 # C13
 ('a4-str-name', 'C13', [(M, '            self._blocks[block_name] = (block_type, starting_address)', '            self._blocks[str(block_name)] = (block_type, starting_address)')]),
 ('a4-all-type', 'C13', [(M, '            for key in self._memory:\n                self._memory[key] = []', '            for key in (defines.COILS, defines.DISCRETE_INPUTS, defines.HOLDING_REGISTERS, defines.ANALOG_INPUTS)[:len(self._memory) - 1]:\n                self._memory[key] = []')]),
 ('n4-clear-list', '', [(M, '            for key in self._memory:\n                self._memory[key] = []', '            for blocks in self._memory.values():\n                del blocks[:]')]),
 # C14
 ('a4-247', 'C14', [(M, 'if (slave_id <= 0) or (slave_id > 255):', 'if (slave_id <= 0) or (slave_id > 247):')]),
 ('a4-remove-quiet', 'C14', [(M, '                self._slaves.pop(slave_id)\n            else:', '                self._slaves.pop(slave_id)\n            elif self._slaves:')]),
 # C15
 ('a4-chunks', 'C15', [(M, '                block[offset:offset+len(values)] = values\n', '                for k in range(0, len(values), 500):\n                    block[offset+k:offset+min(k+500, len(values))] = values[k:k+500]\n                    self._data_lock.release()\n                    self._data_lock.acquire()\n')]),
 ('n4-chunks', '', [(M, '                block[offset:offset+len(values)] = values\n', '                block[offset:offset+size] = values\n')]),
 # C16
 ('a4-bcast-nolock', 'C16', [(M, '                with self._lock:\n                    slaves = list(self._slaves.values())\n', '                slaves = list(self._slaves.values())\n')]),
 ('a4-direct', 'C16', [(M, '        """get the slave with the given id"""\n        return self._databank.get_slave(slave_id)', '        """get the slave with the given id"""\n        slave = self._databank._slaves.get(slave_id)\n        return slave if slave is not None else self._databank.get_slave(slave_id)')]),
 # C17
 ('a4-db-lock', 'C17', [(M, '                for slave in slaves:\n                    try:\n                        slave.handle_request(request_pdu, broadcast=True)\n                    except Exception as excpt:\n                        # the other slaves must get the request anyway\n                        LOGGER.error("broadcast failed: " + str(excpt))\n', '                    for slave in slaves:\n                        try:\n                            slave.handle_request(request_pdu, broadcast=True)\n                        except Exception as excpt:\n                            # the other slaves must get the request anyway\n                            LOGGER.error("broadcast failed: " + str(excpt))\n')]),
 ('a4-hook-lock', 'C17', [(H, '    # the lock is not held while the hooks are running: they may be long or use other locks\n    for fct in fcts:\n        retval = fct(args)\n        if retval is not None:\n            return retval\n', '        if len(fcts) > 1:\n            # several hooks: keep them together\n            for fct in fcts:\n                retval = fct(args)\n                if retval is not None:\n                    return retval\n            return None\n    for fct in fcts:\n        retval = fct(args)\n        if retval is not None:\n            return retval\n')]),
 # C19
 ('a4-skip-zero', 'C19', [(T, '            TcpQuery._last_transaction_id = 0\n', '            TcpQuery._last_transaction_id = 1\n')]),
 ('a4-per-object', 'C19', [(T, '            TcpQuery._last_transaction_id += 1\n', '            self._last_transaction_id += 1\n            return self._last_transaction_id\n')]),
 ('a4-248', 'C19', [(T, 'if (slave < 0) or (slave > 255):', 'if (slave < 0) or (slave > 255) or (247 < slave < 255):')]),
 # C20
 ('a4-proto', 'C20', [(T, '        if request_mbap.protocol_id != self.protocol_id:', '        if request_mbap.protocol_id != self.protocol_id & 0xff:')]),
 ('a4-len-exc', 'C20', [(T, '        error_str += self.check_length(response_pdu_length)', '        if response_pdu_length != 2:\n            error_str += self.check_length(response_pdu_length)')]),
 # C21
 ('a4-crc-zero', 'C21', [(R, '        if crc != utils.calculate_crc(response[:-2]):', '        if crc and crc != utils.calculate_crc(response[:-2]):')]),
 ('a4-addr-bcast', 'C21', [(R, '        if self._request_address != self._response_address:', '        if self._request_address not in (0, self._response_address):')]),
 ('a4-crc-long', 'C21', [(U, '    crc = 0xFFFF\n    if PY2:', '    crc = 0xFFFF\n    data = data[:256]\n    if PY2:')]),
 # C22
 ('a4-exc-unit', 'C09', [(M, '        return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))', '        return query.build_response(struct.pack(">BBB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE, 0)[:2 + (func_code > 127)])')]),
 ('a4-len-field', 'C22', [(T, '        self._response_mbap.length = len(response_pdu) + 1\n', '        self._response_mbap.length = len(response_pdu) + 1 if len(response_pdu) < 252 else 253\n')]),
]
