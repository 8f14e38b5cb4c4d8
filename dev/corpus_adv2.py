from defs import D
from corpus_adv import M, T, R, U, LOOK
CACHE = D(M, LOOK, '''
    def _get_block_and_offset(self, block_type, address, length):
        """returns the block and offset corresponding to the given address"""
        last = self._last.get(block_type)
        if last is not None and address >= last.starting_address and address + length <= last.starting_address + last.size:
            return last, address - last.starting_address
        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    self._last[block_type] = block
                    return block, offset
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
 ''')
INIT = (M, '        self._blocks = {}\n', '        self._blocks = {}\n        self._last = {}\n')
NAMECACHE = D(M, 'Slave._get_block', '''
    def _get_block(self, block_name):
        """Find a block by its name and raise and exception if not found"""
        if block_name in self._last:
            return self._last[block_name]
        if block_name not in self._blocks:
            raise MissingKeyError("block {0} not found".format(block_name))
        (block_type, starting_address) = self._blocks[block_name]
        for block in self._memory[block_type]:
            if block.starting_address == starting_address:
                self._last[block_name] = block
                return block
        raise Exception("Bug?: the block {0} is not registered properly in memory".format(block_name))
 ''')
CORPUS = [
 ('lookup-cache-ok', '', [CACHE, INIT,
   (M, '            self._memory[block_type].remove(block)', '            self._memory[block_type].remove(block)\n            self._last.clear()'),
   (M, '            self._blocks.clear()\n', '            self._blocks.clear()\n            self._last.clear()\n')]),
 ('lookup-cache-all', 'C13', [CACHE, INIT,
   (M, '            self._memory[block_type].remove(block)', '            self._memory[block_type].remove(block)\n            self._last.pop(block_type, None)')]),
 ('lookup-cache-types', 'C03', [D(M, LOOK, '''
    def _get_block_and_offset(self, block_type, address, length):
        """returns the block and offset corresponding to the given address"""
        last = self._last
        if last is not None and address >= last.starting_address and address + length <= last.starting_address + last.size:
            return last, address - last.starting_address
        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    self._last = block
                    return block, offset
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
 '''), (M, '        self._blocks = {}\n', '        self._blocks = {}\n        self._last = None\n'),
   (M, '            self._memory[block_type].remove(block)', '            self._memory[block_type].remove(block)\n            self._last = None'),
   (M, '            self._blocks.clear()\n', '            self._blocks.clear()\n            self._last = None\n')]),
 ('name-cache', 'C13', [NAMECACHE, INIT]),
 ('name-cache-ok', '', [NAMECACHE, INIT,
   (M, '            block_type = self._blocks.pop(block_name)[0]\n', '            self._last.pop(block_name, None)\n            block_type = self._blocks.pop(block_name)[0]\n'),
   (M, '            self._blocks.clear()\n', '            self._blocks.clear()\n            self._last.clear()\n')]),
 ('response-cache', 'C06', [(M, '''        block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)

        # get the values
        values = block[offset:offset+quantity_of_x]
''', '''        block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)

        # get the values
        key = (block_type, starting_address, quantity_of_x)
        if key not in self._last:
            self._last[key] = block[offset:offset+quantity_of_x]
        values = self._last[key]
'''), INIT]),
 ('memo-ok', '', [(M, '''        block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)

        # get the values
        values = block[offset:offset+quantity_of_x]
''', '''        # the place of a range is remembered until the blocks change
        key = (block_type, starting_address, quantity_of_x)
        if key not in self._last:
            self._last[key] = self._get_block_and_offset(block_type, starting_address, quantity_of_x)
        block, offset = self._last[key]

        # get the values
        values = block[offset:offset+quantity_of_x]
'''), INIT,
   (M, '            block_type = self._blocks.pop(block_name)[0]\n', '            self._last.clear()\n            block_type = self._blocks.pop(block_name)[0]\n'),
   (M, '            self._blocks.clear()\n', '            self._blocks.clear()\n            self._last.clear()\n')]),
 ('memo-key', 'C02', [(M, '''        block, offset = self._get_block_and_offset(block_type, starting_address, quantity_of_x)

        # get the values
        values = block[offset:offset+quantity_of_x]
''', '''        # the place of a range is remembered until the blocks change
        key = (block_type, starting_address)
        if key not in self._last:
            self._last[key] = self._get_block_and_offset(block_type, starting_address, quantity_of_x)
        block, offset = self._last[key]

        # get the values
        values = block[offset:offset+quantity_of_x]
'''), INIT,
   (M, '            block_type = self._blocks.pop(block_name)[0]\n', '            self._last.clear()\n            block_type = self._blocks.pop(block_name)[0]\n'),
   (M, '            self._blocks.clear()\n', '            self._blocks.clear()\n            self._last.clear()\n')]),
 ('bisect-ok', '', [D(M, LOOK, '''
    def _get_block_and_offset(self, block_type, address, length):
        """returns the block and offset corresponding to the given address"""
        blocks = self._memory[block_type]
        lo, hi = 0, len(blocks)
        while lo < hi:
            mid = (lo + hi) // 2
            if blocks[mid].starting_address > address:
                hi = mid
            else:
                lo = mid + 1
        if lo > 0:
            block = blocks[lo - 1]
            offset = address - block.starting_address
            if block.size >= offset + length:
                return block, offset
        raise ModbusError(defines.ILLEGAL_DATA_ADDRESS)
 ''')]),
]
