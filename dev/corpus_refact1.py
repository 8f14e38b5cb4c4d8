"""behaviour-preserving refactorings of modbus.py and utils.py: every check must stay quiet"""
from defs import D
M = 'modbus.py'
U = 'utils.py'
CORPUS = []


def R(name, *edits):
    CORPUS.append(('R1-' + name, '', list(edits)))


R('digital-comp', D(M, 'Slave._read_digital', '''
def _read_digital(self, block_type, request_pdu):
    starting_address, quantity = struct.unpack(">HH", request_pdu[1:5])
    if not 0 < quantity <= 2000:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(block_type, starting_address, quantity)
    values = block[offset:offset + quantity]
    byte_count = (quantity + 7) // 8
    data = bytearray(byte_count)
    for index, coil in enumerate(values):
        if coil:
            data[index // 8] |= 1 << (index % 8)
    return struct.pack(">B", byte_count) + bytes(data)
'''))

R('digital-chunks', D(M, 'Slave._read_digital', '''
@staticmethod
def _pack_bits(bits):
    value = 0
    for i, bit in enumerate(bits):
        if bit:
            value |= 1 << i
    return value

def _read_digital(self, block_type, request_pdu):
    starting_address, quantity = struct.unpack(">HH", request_pdu[1:5])
    if quantity < 1 or quantity > 2000:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(block_type, starting_address, quantity)
    values = block[offset:offset + quantity]
    packed = [self._pack_bits(values[i:i + 8]) for i in range(0, quantity, 8)]
    response = struct.pack(">B", len(packed))
    for byte_value in packed:
        fmt = ">B"
        response += struct.pack(fmt, byte_value)
    return response
'''))

R('digital-divmod', D(M, 'Slave._read_digital', '''
def _read_digital(self, block_type, request_pdu):
    """read the value of coils and discrete inputs"""
    (starting_address, quantity_of_x) = struct.unpack(">HH", request_pdu[1:5])
    if (quantity_of_x <= 0) or (quantity_of_x > 2000):
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)
    values = block[offset:offset+quantity_of_x]
    full, rest = divmod(quantity_of_x, 8)
    byte_count = full + (1 if rest else 0)
    response = struct.pack(">B", byte_count)
    i = 0
    byte_value = 0
    for coil in values:
        byte_value = byte_value | ((1 if coil else 0) << i)
        i = i + 1
        if i == 8:
            response = response + struct.pack(">B", byte_value)
            i = 0
            byte_value = 0
    if i != 0:
        response = response + struct.pack(">B", byte_value)
    return response
'''))

R('regs-join', D(M, 'Slave._read_registers', '''
def _read_registers(self, block_type, request_pdu):
    start, count = struct.unpack_from(">HH", request_pdu, 1)
    if count < 1 or count > 125:
        LOGGER.debug("quantity_of_x is %d", count)
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(block_type, start, count)
    fmt = ">H" if self.unsigned else ">h"
    return struct.pack(">B", count * 2) + b"".join(struct.pack(fmt, reg) for reg in block[offset:offset + count])
'''))

R('regs-one-pack', D(M, 'Slave._read_registers', '''
def _read_registers(self, block_type, request_pdu):
    (start, count) = struct.unpack(">HH", request_pdu[1:5])
    if count not in range(1, 126):
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(block_type, start, count)
    values = block[offset:offset + count]
    code = "H" if self.unsigned else "h"
    return struct.pack(">B%d%s" % (count, code), 2 * count, *values)
'''))

R('regs-helper', D(M, 'Slave._read_registers', '''
def _check_quantity(self, quantity, limit):
    if quantity <= 0 or quantity > limit:
        LOGGER.debug("quantity is %d", quantity)
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)

def _register_format(self):
    return ">" + ("H" if self.unsigned else "h")

def _pack_registers(self, values):
    fmt = self._register_format()
    response = bytearray()
    for reg in values:
        response.extend(struct.pack(fmt, reg))
    return bytes(response)

def _read_registers(self, block_type, request_pdu):
    (starting_address, quantity_of_x) = struct.unpack(">HH", request_pdu[1:5])
    self._check_quantity(quantity_of_x, 125)
    block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)
    values = block[offset:offset+quantity_of_x]
    return struct.pack(">B", 2 * quantity_of_x) + self._pack_registers(values)
'''))

R('lookup-next', D(M, 'Slave._get_block_and_offset', '''
def _get_block_and_offset(self, block_type, address, length):
    last = address + length
    for block in self._memory[block_type]:
        start, end = block.starting_address, block.starting_address + block.size
        if start <= address and last <= end:
            return block, address - start
    raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
'''))

R('lookup-gen', D(M, 'Slave._get_block_and_offset', '''
def _get_block_and_offset(self, block_type, address, length):
    found = next(
        (b for b in self._memory[block_type]
         if b.starting_address <= address and address + length <= b.starting_address + b.size), None)
    if found is None:
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
    return found, address - found.starting_address
'''))

R('lookup-method', D(M, 'Slave._get_block_and_offset', '''
def _get_block_and_offset(self, block_type, address, length):
    for block in self._memory[block_type]:
        if block.contains(address, length):
            return block, block.offset_of(address)
    raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
'''), D(M, 'ModbusBlock.is_in', '''
def contains(self, address, length):
    """True if the whole range is inside the block"""
    return self.starting_address <= address and address + length <= self.starting_address + self.size

def offset_of(self, address):
    return address - self.starting_address

def is_in(self, starting_address, size):
    """overlap of two ranges (sizes are positive)"""
    end = starting_address + size
    own_end = self.starting_address + self.size
    return starting_address < own_end and self.starting_address < end
'''))

R('lookup-continue', D(M, 'Slave._get_block_and_offset', '''
def _get_block_and_offset(self, block_type, address, length):
    result = None
    for block in self._memory[block_type]:
        if address < block.starting_address:
            continue
        offset = address - block.starting_address
        if offset + length > block.size:
            continue
        result = (block, offset)
        break
    if result is None:
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
    return result
'''))

R('wmr-unpack', D(M, 'Slave._write_multiple_registers', '''
def _write_multiple_registers(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_multiple_registers_request", (self, request_pdu))
    (starting_address, quantity, byte_count) = struct.unpack(">HHB", request_pdu[1:6])
    if not (1 <= quantity <= 123) or byte_count != 2 * quantity or len(request_pdu) < 6 + byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity)
    code = "H" if self.unsigned else "h"
    values = struct.unpack(">%d%s" % (quantity, code), request_pdu[6:6 + byte_count])
    for i, value in enumerate(values):
        block[offset + i] = value
    return struct.pack(">HH", starting_address, quantity)
'''))

R('wmr-slice', D(M, 'Slave._write_multiple_registers', '''
def _write_multiple_registers(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_multiple_registers_request", (self, request_pdu))
    (starting_address, quantity_of_x, byte_count) = struct.unpack(">HHB", request_pdu[1:6])
    data = request_pdu[6:6 + byte_count]
    valid = 0 < quantity_of_x <= 123 and byte_count == quantity_of_x * 2
    if not valid:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    if len(data) != byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
    fmt = ">H" if self.unsigned else ">h"
    values = [struct.unpack(fmt, data[2 * i:2 * i + 2])[0] for i in range(quantity_of_x)]
    for i in range(len(values)):
        block[offset + i] = values[i]
    return request_pdu[1:5]
'''))

R('wmr-shared', D(M, 'Slave._write_multiple_registers', '''
def _store_registers(self, starting_address, quantity, data):
    """write the big-endian words of data"""
    block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity)
    fmt = ">" + ("H" if self.unsigned else "h")
    pos = 0
    index = offset
    while pos < 2 * quantity:
        block[index] = struct.unpack(fmt, data[pos:pos + 2])[0]
        pos += 2
        index += 1
    return quantity

def _write_multiple_registers(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_multiple_registers_request", (self, request_pdu))
    (starting_address, quantity_of_x, byte_count) = struct.unpack(">HHB", request_pdu[1:6])
    if (quantity_of_x <= 0) or (quantity_of_x > 123) or (byte_count != (quantity_of_x * 2)):
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    if len(request_pdu) < 6 + byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    count = self._store_registers(starting_address, quantity_of_x, request_pdu[6:6 + byte_count])
    return struct.pack(">HH", starting_address, count)
'''), D(M, 'Slave._read_write_multiple_registers', '''
def _read_write_multiple_registers(self, request_pdu):
    call_hooks("modbus.Slave.handle_read_write_multiple_registers_request", (self, request_pdu))
    (read_start, read_count, write_start, write_count, byte_count) = struct.unpack(">HHHHB", request_pdu[1:10])
    if not 0 < read_count <= 125:
        LOGGER.debug("quantity_of_x_to_read is %d", read_count)
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, read_start, read_count)
    if not 0 < write_count <= 123 or byte_count != write_count * 2:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    data = request_pdu[10:10 + byte_count]
    if len(data) < byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    self._store_registers(write_start, write_count, data)
    fmt = ">" + ("H" if self.unsigned else "h")
    values = read_block[read_offset:read_offset + read_count]
    return struct.pack(">B", 2 * len(values)) + b"".join([struct.pack(fmt, v) for v in values])
'''))

R('rwmr-reuse', D(M, 'Slave._read_write_multiple_registers', '''
def _read_write_multiple_registers(self, request_pdu):
    """execute modbus function 23"""
    call_hooks("modbus.Slave.handle_read_write_multiple_registers_request", (self, request_pdu))
    header = struct.unpack(">HHHHB", request_pdu[1:10])
    starting_read_address, quantity_to_read = header[0], header[1]
    starting_write_address, quantity_to_write, byte_count = header[2:]
    if quantity_to_read == 0 or quantity_to_read > 125:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_to_read)
    if quantity_to_write == 0 or quantity_to_write > 123 or byte_count != quantity_to_write * 2:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    if len(request_pdu) < 10 + byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_to_write)
    signed = not self.unsigned
    for i in range(quantity_to_write):
        (word, ) = struct.unpack(">H", request_pdu[10+2*i:12+2*i])
        if signed and word >= 0x8000:
            word -= 0x10000
        block[offset+i] = word
    return self._read_registers(defines.HOLDING_REGISTERS, request_pdu)
'''))

R('wmc-bits', D(M, 'Slave._write_multiple_coils', '''
def _write_multiple_coils(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_multiple_coils_request", (self, request_pdu))
    (starting_address, quantity, byte_count) = struct.unpack(">HHB", request_pdu[1:6])
    if quantity < 1 or quantity > 1968 or byte_count != (quantity + 7) // 8:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    if len(request_pdu) < 6 + byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity)
    for i in range(quantity):
        byte_value = struct.unpack(">B", request_pdu[6 + i // 8:7 + i // 8])[0]
        block[offset + i] = (byte_value >> (i % 8)) & 1
    return struct.pack(">HH", starting_address, quantity)
'''))

R('wmc-index', D(M, 'Slave._write_multiple_coils', '''
def _write_multiple_coils(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_multiple_coils_request", (self, request_pdu))
    (starting_address, quantity_of_x, byte_count) = struct.unpack(">HHB", request_pdu[1:6])
    expected = quantity_of_x // 8 + (1 if quantity_of_x % 8 else 0)
    if not 1 <= quantity_of_x <= 1968:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    if byte_count != expected:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    if len(request_pdu) - 6 < byte_count:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
    written = 0
    data = bytearray(request_pdu[6:])
    while written < quantity_of_x:
        pos, bit = divmod(written, 8)
        block[offset + written] = 1 if data[pos] & (1 << bit) else 0
        written += 1
    return struct.pack(">HH", starting_address, written)
'''))

R('mask-explicit', D(M, 'Slave._mask_write_register', '''
@staticmethod
def _apply_masks(current, and_mask, or_mask):
    return (current & and_mask) | (or_mask & (0xFFFF ^ and_mask))

def _mask_write_register(self, request_pdu):
    call_hooks("modbus.Slave.handle_mask_write_register_request", (self, request_pdu))
    address, and_mask, or_mask = struct.unpack(">HHH", request_pdu[1:7])
    block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, address, 1)
    word = self._apply_masks(block[offset] & 0xFFFF, and_mask, or_mask)
    if self.unsigned:
        block[offset] = word
    else:
        block[offset] = word - 0x10000 if word & 0x8000 else word
    return request_pdu[1:]
'''))

R('mask-struct', D(M, 'Slave._mask_write_register', '''
def _mask_write_register(self, request_pdu):
    call_hooks("modbus.Slave.handle_mask_write_register_request", (self, request_pdu))
    (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
    block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
    value = (block[offset] & and_mask) | (or_mask & ~and_mask)
    if not self.unsigned:
        (value, ) = struct.unpack(">h", struct.pack(">H", value & 0xFFFF))
    block[offset] = value
    return request_pdu[1:]
'''))

R('single-coil-dict', D(M, 'Slave._write_single_coil', '''
_COIL_VALUES = {0x0000: 0, 0xff00: 1}

def _write_single_coil(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_single_coil_request", (self, request_pdu))
    (data_address, value) = struct.unpack(">HH", request_pdu[1:5])
    block, offset = self._get_block_and_offset(defines.COILS, data_address, 1)
    try:
        block[offset] = self._COIL_VALUES[value]
    except KeyError:
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    return request_pdu[1:]
'''))

R('single-coil-guard', D(M, 'Slave._write_single_coil', '''
def _write_single_coil(self, request_pdu):
    call_hooks("modbus.Slave.handle_write_single_coil_request", (self, request_pdu))
    (data_address, value) = struct.unpack(">HH", request_pdu[1:5])
    block, offset = self._get_block_and_offset(defines.COILS, data_address, 1)
    if value not in (0, 0xff00):
        raise ModbusError(defines.ILLEGAL_DATA_VALUE)
    block[offset] = int(value == 0xff00)
    return request_pdu[1:]
'''))

R('handle-split', D(M, 'Slave.handle_request', '''
_CANT_BE_BROADCASTED = frozenset([
    defines.READ_COILS, defines.READ_DISCRETE_INPUTS,
    defines.READ_INPUT_REGISTERS, defines.READ_HOLDING_REGISTERS
])

def _execute_function(self, function_code, request_pdu, broadcast):
    handler = self._fn_code_map.get(function_code)
    if handler is None:
        raise ModbusError(defines.ILLEGAL_FUNCTION)
    if broadcast and function_code in self._CANT_BE_BROADCASTED:
        raise ModbusInvalidRequestError("Function %d can not be broadcasted" % function_code)
    response_pdu = handler(request_pdu)
    if not response_pdu:
        raise Exception("No response for function %d" % function_code)
    if not broadcast:
        return struct.pack(">B", function_code) + response_pdu
    call_hooks("modbus.Slave.on_handle_broadcast", (self, response_pdu))
    LOGGER.debug("broadcast: %s", get_log_buffer("!!", response_pdu))
    return ""

def handle_request(self, request_pdu, broadcast=False):
    with self._data_lock:
        (function_code, ) = struct.unpack(">B", request_pdu[0:1])
        try:
            retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
            if retval is not None:
                return retval
            return self._execute_function(function_code, request_pdu, broadcast)
        except ModbusError as excpt:
            return self._exception_response(function_code, excpt)

def _exception_response(self, function_code, excpt):
    LOGGER.debug(str(excpt))
    call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
    return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())
'''))

R('handle-getattr', D(M, 'Slave.__init__', '''
_HANDLERS = {
    defines.READ_COILS: "_read_coils",
    defines.READ_DISCRETE_INPUTS: "_read_discrete_inputs",
    defines.READ_INPUT_REGISTERS: "_read_input_registers",
    defines.READ_HOLDING_REGISTERS: "_read_holding_registers",
    defines.READ_EXCEPTION_STATUS: "_read_exception_status",
    defines.WRITE_SINGLE_COIL: "_write_single_coil",
    defines.WRITE_SINGLE_REGISTER: "_write_single_register",
    defines.WRITE_MULTIPLE_COILS: "_write_multiple_coils",
    defines.WRITE_MULTIPLE_REGISTERS: "_write_multiple_registers",
    defines.MASK_WRITE_REGISTER: "_mask_write_register",
    defines.READ_WRITE_MULTIPLE_REGISTERS: "_read_write_multiple_registers",
}
_TABLES = (defines.COILS, defines.DISCRETE_INPUTS, defines.HOLDING_REGISTERS, defines.ANALOG_INPUTS)

def __init__(self, slave_id, unsigned=True, memory=None):
    self._id = slave_id
    self.unsigned = unsigned
    self._blocks = {}
    self._memory = dict((table, []) for table in self._TABLES) if memory is None else memory
    self._data_lock = threading.RLock()
    self._fn_code_map = {code: getattr(self, name) for code, name in self._HANDLERS.items()}
'''))

R('fields', (M, 'self._memory', 'self._tables'), (M, 'self._blocks', 'self._block_map'), (M, 'self._data_lock', 'self._mutex'))

R('add-block-validate', D(M, 'Slave.add_block', '''
def _check_new_block(self, block_name, block_type, starting_address, size):
    if size <= 0:
        raise InvalidArgumentError("size must be a positive number")
    if starting_address < 0:
        raise InvalidArgumentError("starting address must be zero or positive number")
    if block_name in self._blocks:
        raise DuplicatedKeyError("Block {0} already exists. ".format(block_name))
    if block_type not in self._memory:
        raise InvalidModbusBlockError("Invalid block type {0}".format(block_type))
    for block in self._memory[block_type]:
        if block.is_in(starting_address, size):
            raise OverlapModbusBlockError(
                "Overlap block at {0} size {1}".format(block.starting_address, block.size)
            )

def add_block(self, block_name, block_type, starting_address, size):
    with self._data_lock:
        self._check_new_block(block_name, block_type, starting_address, size)
        blocks = self._memory[block_type]
        index = 0
        while index < len(blocks) and blocks[index].starting_address < starting_address:
            index += 1
        blocks.insert(index, ModbusBlock(starting_address, size, block_name))
        self._blocks[block_name] = (block_type, starting_address)
'''))

R('add-block-sort', D(M, 'Slave.add_block', '''
def add_block(self, block_name, block_type, starting_address, size):
    with self._data_lock:
        if size <= 0:
            raise InvalidArgumentError("size must be a positive number")
        if starting_address < 0:
            raise InvalidArgumentError("starting address must be zero or positive number")
        if block_name in self._blocks:
            raise DuplicatedKeyError("Block {0} already exists. ".format(block_name))
        if block_type not in self._memory:
            raise InvalidModbusBlockError("Invalid block type {0}".format(block_type))
        blocks = self._memory[block_type]
        overlapping = [b for b in blocks if b.is_in(starting_address, size)]
        if overlapping:
            raise OverlapModbusBlockError(
                "Overlap block at {0} size {1}".format(overlapping[0].starting_address, overlapping[0].size))
        blocks.append(ModbusBlock(starting_address, size, block_name))
        blocks.sort(key=lambda b: b.starting_address)
        self._blocks[block_name] = (block_type, starting_address)
'''))

R('is-in-ranges', D(M, 'ModbusBlock.is_in', '''
def is_in(self, starting_address, size):
    if starting_address == self.starting_address:
        return True
    first, last = (starting_address, starting_address + size), (self.starting_address, self.starting_address + self.size)
    low, high = (first, last) if first[0] < last[0] else (last, first)
    return low[1] > high[0]
'''))

R('values-normalize', D(M, 'Slave.set_values', '''
def _locate(self, block_name, address, size):
    block = self._get_block(block_name)
    offset = address - block.starting_address
    if not (0 <= offset and offset + size <= block.size):
        raise OutOfModbusBlockError(
            "address {0} size {1} is out of block {2}".format(address, size, block_name)
        )
    return block, offset

def set_values(self, block_name, address, values):
    with self._data_lock:
        if isinstance(values, (list, tuple)):
            size = len(values)
            block, offset = self._locate(block_name, address, size)
            block[offset:offset + size] = values
        else:
            block, offset = self._locate(block_name, address, 1)
            block[offset] = values
'''), D(M, 'Slave.get_values', '''
def get_values(self, block_name, address, size=1):
    with self._data_lock:
        block, offset = self._locate(block_name, address, size)
        if size == 1:
            return (block[offset], )
        return tuple(block[offset:offset + size])
'''))

R('get-values-slice', D(M, 'Slave.get_values', '''
def get_values(self, block_name, address, size=1):
    with self._data_lock:
        block = self._get_block(block_name)
        offset = address - block.starting_address
        if offset < 0 or offset > block.size - size:
            raise OutOfModbusBlockError(
                "address {0} size {1} is out of block {2}".format(address, size, block_name)
            )
        return tuple(block[offset:offset + size])
'''))

R('remove-helper', D(M, 'Slave.remove_block', '''
def remove_block(self, block_name):
    with self._data_lock:
        block = self._get_block(block_name)
        block_type, _ = self._blocks[block_name]
        self._memory[block_type] = [b for b in self._memory[block_type] if b is not block]
        del self._blocks[block_name]
'''), D(M, 'Slave.remove_all_blocks', '''
def remove_all_blocks(self):
    with self._data_lock:
        self._blocks = {}
        for blocks in self._memory.values():
            del blocks[:]
'''))

R('get-block-try', D(M, 'Slave._get_block', '''
def _get_block(self, block_name):
    try:
        block_type, starting_address = self._blocks[block_name]
    except KeyError:
        raise MissingKeyError("block {0} not found".format(block_name))
    for block in self._memory[block_type]:
        if block.starting_address == starting_address:
            return block
    raise Exception("Bug?: the block {0} is not registered properly in memory".format(block_name))
'''))

R('locked-decorator', D(M, 'Slave.remove_block', '''
def remove_block(self, block_name):
    self._data_lock.acquire()
    try:
        block = self._get_block(block_name)
        block_type = self._blocks.pop(block_name)[0]
        self._memory[block_type].remove(block)
    finally:
        self._data_lock.release()
'''), D(M, 'Slave.get_values', '''
def get_values(self, block_name, address, size=1):
    """return the values of n items at the given address of the given block"""
    with self._data_lock:
        return self._get_values(block_name, address, size)

def _get_values(self, block_name, address, size):
    block = self._get_block(block_name)
    offset = address - block.starting_address
    if (offset < 0) or ((offset + size) > block.size):
        raise OutOfModbusBlockError(
            "address {0} size {1} is out of block {2}".format(address, size, block_name)
        )
    return tuple(block[offset + i] for i in range(size)) if size != 1 else (block[offset], )
'''))

R('bank-split', D(M, 'Databank.handle_request', '''
def _broadcast(self, request_pdu):
    with self._lock:
        slaves = [self._slaves[key] for key in self._slaves]
    for slave in slaves:
        try:
            slave.handle_request(request_pdu, broadcast=True)
        except Exception as excpt:
            LOGGER.error("broadcast failed: " + str(excpt))

def _unicast(self, slave_id, request_pdu, query):
    try:
        slave = self.get_slave(slave_id)
    except MissingKeyError as excpt:
        if self.error_on_missing_slave:
            LOGGER.error("handle request failed: " + str(excpt))
        return ""
    return query.build_response(slave.handle_request(request_pdu))

def _failure(self, query, request_pdu):
    func_code = struct.unpack(">B", request_pdu[0:1])[0] if len(request_pdu) > 0 else 1
    return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))

def handle_request(self, query, request):
    request_pdu = ""
    slave_id = 0
    try:
        (slave_id, request_pdu) = query.parse_request(request)
        if slave_id == 0:
            self._broadcast(request_pdu)
            return None
        return self._unicast(slave_id, request_pdu, query)
    except ModbusInvalidRequestError as excpt:
        LOGGER.error("invalid request: " + str(excpt))
        return ""
    except Exception as excpt:
        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
        LOGGER.error("handle request failed: " + str(excpt))
    return self._failure(query, request_pdu) if slave_id != 0 else ""
'''))

R('bank-get', D(M, 'Databank.get_slave', '''
def get_slave(self, slave_id):
    with self._lock:
        slave = self._slaves.get(slave_id)
    if slave is None:
        raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))
    return slave
'''), D(M, 'Databank.remove_slave', '''
def remove_slave(self, slave_id):
    with self._lock:
        try:
            del self._slaves[slave_id]
        except KeyError:
            raise MissingKeyError("Slave {0} already exists".format(slave_id))
'''), D(M, 'Databank.add_slave', '''
def add_slave(self, slave_id, unsigned=True, memory=None):
    if not 0 < slave_id <= 255:
        raise Exception("Invalid slave id {0}".format(slave_id))
    with self._lock:
        if slave_id in self._slaves:
            raise DuplicatedKeyError("Slave {0} already exists".format(slave_id))
        slave = self._slaves[slave_id] = Slave(slave_id, unsigned, memory)
        return slave
'''))

R('bank-tuple', D(M, 'Databank.handle_request', '''
def handle_request(self, query, request):
    request_pdu = ""
    slave_id = 0
    try:
        slave_id, request_pdu = query.parse_request(request)
        if slave_id == 0:
            for slave in self._all_slaves():
                self._handle_broadcast(slave, request_pdu)
            return
        slave = self._find_slave(slave_id)
        if not slave:
            return ""
        response_pdu = slave.handle_request(request_pdu)
        return query.build_response(response_pdu)
    except ModbusInvalidRequestError as excpt:
        LOGGER.error("invalid request: %s", excpt)
        return ""
    except Exception as excpt:
        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
        LOGGER.error("handle request failed: %s", excpt)
    if slave_id == 0:
        return ""
    func_code = 1
    if request_pdu:
        func_code = struct.unpack(">B", request_pdu[:1])[0]
    exception_pdu = struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE)
    return query.build_response(exception_pdu)

def _all_slaves(self):
    with self._lock:
        return tuple(self._slaves.values())

def _handle_broadcast(self, slave, request_pdu):
    try:
        slave.handle_request(request_pdu, broadcast=True)
    except Exception as excpt:
        LOGGER.error("broadcast failed: %s", excpt)

def _find_slave(self, slave_id):
    try:
        return self.get_slave(slave_id)
    except MissingKeyError as excpt:
        if self.error_on_missing_slave:
            LOGGER.error("handle request failed: %s", excpt)
        return None
'''))

R('server-run', D(M, 'Server._run_server', '''
def _serve(self):
    try:
        self._do_init()
        while self._go.is_set():
            self._do_run()
        LOGGER.debug("%s has stopped", self.__class__)
    finally:
        self._do_exit()

def _run_server(self):
    try:
        self._serve()
    except Exception as excpt:
        LOGGER.error("server error: %s", str(excpt))
        call_hooks("modbus.Server.on_exception", (self, excpt))
    finally:
        self._make_thread()
'''), D(M, 'Server.stop', '''
def stop(self):
    thread = self._thread
    if not thread.is_alive():
        return
    self._go.clear()
    thread.join()
'''), D(M, 'Server._handle', '''
def _trace(self, prefix, data):
    if self._verbose:
        LOGGER.debug(get_log_buffer(prefix, data))

def _handle(self, request):
    self._trace("-->", request)
    query = self._make_query()
    replaced = call_hooks("modbus.Server.before_handle_request", (self, request))
    request = request if replaced is None else replaced
    response = self._databank.handle_request(query, request)
    replaced = call_hooks("modbus.Server.after_handle_request", (self, response))
    response = response if replaced is None else replaced
    if response:
        self._trace("<--", response)
    return response
'''))

R('server-init', D(M, 'Server.__init__', '''
def __init__(self, databank=None):
    if databank is None:
        databank = Databank()
    self._databank = databank
    self._verbose = False
    self._thread = self._go = None
    self._make_thread()
'''), D(M, 'Server._make_thread', '''
def _make_thread(self):
    self._go = threading.Event()
    self._thread = threading.Thread(target=self._run_server)
'''))

R('crc-enumerate', (U, '''        for c in data:
            crc = (crc >> 8) ^ CRC16table[((c) ^ crc) & 0xFF]
    return swap_bytes(crc)''', '''        for byte in bytearray(data):
            index = (crc ^ byte) & 0xFF
            crc = CRC16table[index] ^ (crc >> 8)
    return ((crc & 0xFF) << 8) | (crc >> 8)'''))

R('crc-bitwise', D(U, 'calculate_crc', '''
def _crc_byte(crc, byte):
    crc ^= byte
    for _ in range(8):
        if crc & 1:
            crc = (crc >> 1) ^ 0xA001
        else:
            crc >>= 1
    return crc

def calculate_crc(data):
    """Calculate the CRC16 of a datagram"""
    crc = 0xFFFF
    for byte in bytearray(data):
        crc = _crc_byte(crc, byte)
    return swap_bytes(crc)
'''))

R('threadsafe-with', D(U, 'threadsafe_function', '''
def threadsafe_function(fcn):
    """decorator making sure that the decorated function is thread safe"""
    lock = threading.RLock()

    @functools.wraps(fcn)
    def new(*args, **kwargs):
        if not kwargs.pop('threadsafe', True):
            return fcn(*args, **kwargs)
        with lock:
            return fcn(*args, **kwargs)
    return new
'''), (U, 'import threading\n', 'import functools\nimport threading\n'))

R('logbuf-join', D(U, 'get_log_buffer', '''
def get_log_buffer(prefix, buff):
    """Format binary data into a string for debug purpose"""
    if not len(buff):
        return prefix[:-1]
    return prefix + "-".join(str(ord(i) if PY2 else i) for i in buff)
'''))

R('flush-while', D(U, 'flush_socket', '''
def flush_socket(socks, lim=0):
    """remove the data present on the socket"""
    count = 0
    ready = select.select([socks], [socks], [socks], 0.0)[0]
    while ready:
        socks.recv(1024)
        count += 1
        if 0 < lim <= count:
            raise Exception("flush_socket: maximum number of iterations reached")
        ready = select.select([socks], [socks], [socks], 0.0)[0]
'''))

R('worker-split', D(U, 'WorkerThread._run', '''
def _loop(self):
    init_fct, main_fct, _ = self._fcts
    if init_fct:
        init_fct(*self._args)
    while self._go.is_set():
        main_fct(*self._args)

def _run(self):
    try:
        self._loop()
    except Exception as excpt:
        LOGGER.error("error: %s", str(excpt))
    finally:
        exit_fct = self._fcts[2]
        if exit_fct:
            exit_fct(*self._args)
'''))

R('interchar', D(U, 'calculate_rtu_inter_char', '''
def calculate_rtu_inter_char(baudrate):
    """calculates the interchar delay from the baudrate"""
    bits_per_char = 11.0
    return bits_per_char / baudrate if baudrate <= 19200 else 0.0005
'''))
