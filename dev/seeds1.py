M = 'modbus_tk/modbus.py'
HEAD = '''
import sys, struct
sys.path.insert(0, sys.argv[1])
import modbus_tk.defines as cst
from modbus_tk.modbus import Slave, Databank, ModbusError

def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
'''
SEEDS = [
 dict(id='c01-fc15-bytecount', prop='C01', needs='a write of coils whose quantity is not a multiple of 8, with a byte count one too big',
      breaks='write multiple coils accepts a byte count that does not match the quantity',
      edits=[(M, '''        if (quantity_of_x <= 0) or (quantity_of_x > 1968) or (byte_count != expected_byte_count):''',
                 '''        if (quantity_of_x <= 0) or (quantity_of_x > 1968) or (byte_count < expected_byte_count):''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 0, 100)
r = s.handle_request(struct.pack(">BHHBBBB", 15, 0, 10, 3, 255, 255, 255))
check(r == struct.pack(">BB", 0x8f, 3), "answer %r" % r)
check(sum(s.get_values("c", 0, 100)) == 0, "coils written")
'''),
 dict(id='c11-zero-gap', prop='C11', needs='a block added in front of a longer block that it reaches by exactly one cell',
      breaks='add_block accepts a block whose last cell is the first cell of the next block',
      edits=[(M, 'return (starting_address + size) > self.starting_address', 'return (starting_address + size - 1) > self.starting_address')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("a", cst.COILS, 50, 10)
try:
    s.add_block("b", cst.COILS, 45, 6)
except Exception as e:
    check(type(e).__name__ == "OverlapModbusBlockError", repr(e))
else:
    check(False, "overlapping block accepted")
s.add_block("d", cst.COILS, 45, 5)
'''),
 dict(id='c12-get-one', prop='C12', needs='get_values of one item at an address before the block',
      breaks='get_values(size=1) below the block returns a cell counted from the end',
      edits=[(M, '''            if (offset < 0) or ((offset + size) > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns the values
            if size == 1:
                return tuple([block[offset], ])
            else:''', '''            if size == 1:
                if offset >= block.size:
                    raise OutOfModbusBlockError(
                        "address {0} is out of block {1}".format(address, block_name)
                    )
                return tuple([block[offset], ])

            if (offset < 0) or ((offset + size) > block.size):
                raise OutOfModbusBlockError(
                    "address {0} size {1} is out of block {2}".format(address, size, block_name)
                )

            # returns the values
            else:''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("r", cst.HOLDING_REGISTERS, 100, 20)
for a in (99, 95, 0, 120):
    try:
        v = s.get_values("r", a)
    except Exception as e:
        check(type(e).__name__ == "OutOfModbusBlockError", repr(e))
    else:
        check(False, "get_values(%d) returned %r" % (a, v))
'''),
 dict(id='c13-remove-start', prop='C13', needs='two tables with a block at the same address, one of them removed',
      breaks='remove_block removes the name and leaves the block of the table when another name has the same address',
      edits=[(M, '''            block_type = self._blocks.pop(block_name)[0]
            self._memory[block_type].remove(block)''', '''            entry = self._blocks.pop(block_name)
            if entry[1] not in [x[1] for x in self._blocks.values()]:
                self._memory[entry[0]].remove(block)''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 10, 5)
s.add_block("r", cst.HOLDING_REGISTERS, 10, 5)
s.remove_block("r")
r = s.handle_request(struct.pack(">BHH", 3, 10, 2))
check(r == struct.pack(">BB", 0x83, 2), "cells of a removed block answered %r" % r)
s.add_block("r", cst.HOLDING_REGISTERS, 12, 5)
'''),
 dict(id='c04-fc6-late', prop='C04', needs='write single register on a signed slave, or any write: the block hook order; a coil value other than 0 and 0xff00',
      breaks='write single coil stores the coil before it refuses a wrong value',
      edits=[(M, '''        if value == 0:
            block[offset] = 0
        elif value == 0xff00:
            block[offset] = 1
        else:''', '''        block[offset] = 1 if value >> 8 else 0
        if value not in (0, 0xff00):''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("c", cst.COILS, 0, 8)
r = s.handle_request(struct.pack(">BHH", 5, 3, 0x0100))
check(r == struct.pack(">BB", 0x85, 3), repr(r))
check(sum(s.get_values("c", 0, 8)) == 0, "coil written by a refused request")
'''),
]
