"""(name, property expected to report it, [(file, old, new)])"""
S, D, B, M = "sparse_memory.py", "address_space.py", "buddy_allocator.py", "memory.py"
BUGS = [
    # C21
    ("as-find-le", "C21", [(D, "if address < base+size and base < address+length:", "if address <= base+size and base < address+length:")]),
    ("as-find-lt", "C21", [(D, "if address < base+size and base < address+length:", "if address < base+size and base+1 < address+length:")]),
    ("as-find-len", "C21", [(D, "        length = max(length, 1)\n", "")]),
    ("as-nosort", "C21", [(D, "        regions.sort()\n", "")]),
    ("as-reg-len", "C21", [(D, "if self.find_regions(base, size):", "if self.find_regions(base):")]),
    ("as-reg-offset", "C21", [(D, "self.regions.append((base, size, offset, region))", "self.regions.append((base, size, offset or 0, region))")]),
    ("as-reg-base", "C21", [(D, "region._base = self.get_absolute_address(base)", "region._base = base")]),
    ("as-nogap", "C21", [(D, "        for base, size, offset, region in regions:\n            if base > address:\n                raise Exception(\"Invalid address\")\n            seg_addr = address - base\n            seg_len = min(size-seg_addr, length)\n            if offset is None:\n                seg_addr = address\n                offset = 0\n            data.extend", "        for base, size, offset, region in regions:\n            seg_addr = address - base\n            seg_len = min(size-seg_addr, length)\n            if offset is None:\n                seg_addr = address\n                offset = 0\n            data.extend")]),
    ("as-notail", "C21", [(D, "        if length > 0:\n            raise Exception(\"Invalid address\")\n        return bytes(data)", "        return bytes(data)")]),
    ("as-off-sign", "C21", [(D, "region.read(seg_addr+offset, seg_len, **kwargs)", "region.read(seg_addr-offset, seg_len, **kwargs)")]),
    ("as-none", "C21", [(D, "            if offset is None:\n                seg_addr = address\n                offset = 0\n            await region.write", "            if offset is None:\n                offset = 0\n            await region.write")]),
    ("as-wstart", "C21", [(D, "data[start:start+seg_len], **kwargs)", "data[start:start+size], **kwargs)")]),
    ("as-wstart2", "C21", [(D, "            start += seg_len\n", "            start = seg_len\n")]),
    ("as-seglen", "C21", [(D, "            seg_len = min(size-seg_addr, length)\n            if offset is None:\n                seg_addr = address\n                offset = 0\n            data.extend", "            if offset is None:\n                seg_addr = address\n                offset = 0\n            seg_len = min(size-seg_addr, length)\n            data.extend")]),
    ("as-kw", "C21", [(D, "await region.read(seg_addr+offset, seg_len, **kwargs)", "await region.read(seg_addr+offset, seg_len)")]),
    # C22
    ("wi-noff", "C22", [(D, "self.parent.read(self.get_parent_address(address), length, **kwargs)", "self.parent.read(address, length, **kwargs)")]),
    ("wi-base", "C22", [(D, "return window_type(self, offset, size, base=self.get_absolute_address(offset))", "return window_type(self, offset, size, base=offset)")]),
    ("wi-defsize", "C22", [(D, "        if not size or size < 0:\n            size = self.size - offset", "        if not size or size < 0:\n            size = self.size")]),
    ("wi-nested", "C22", [(D, "        super().__init__(size, base=base, parent=parent, **kwargs)\n        self._offset = offset", "        super().__init__(size, base=base, parent=parent.parent or parent, **kwargs)\n        self._offset = offset")]),
    ("wi-poolsize", "C22", [(D, "        return self.create_window(self.allocator.alloc(size), size, window_type)", "        return self.create_window(self.allocator.alloc(size), window_type=window_type)")]),
    ("wi-poolalloc", "C22", [(D, "        self.window_type = window_type or Window\n        self.allocator = BuddyAllocator(size)", "        self.window_type = window_type or Window\n        self.allocator = BuddyAllocator(parent.size)")]),
    ("wi-region", "C22", [(D, "        self.register_region(region, base)\n        return region", "        self.register_region(region, base, offset=base)\n        return region")]),
    ("wi-kw", "C22", [(D, "await self.parent.write(self.get_parent_address(address), data, **kwargs)", "await self.parent.write(self.get_parent_address(address), data)")]),
    # C23
    ("cr-ge", "C23", [(D, "        if address < 0 or address >= self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs", "        if address < 0 or address >= self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size+1:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs")]),
    ("cr-neg", "C23", [(D, "        if address < 0 or address >= self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs", "        if address >= self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs")]),
    ("cr-write", "C23", [(D, "        self.check_range(address, len(data))\n", "        self.check_range(address)\n")]),
    ("cr-strict", "C23", [(D, "        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs", "        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length >= self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs")]),
    ("cr-zero", "C23", [(D, "        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs", "        if length <= 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs")]),
    ("cr-sparse", "C23", [(S, "        if address+len(data) > self.size:\n            raise ValueError(\"operation out of range\")\n", "")]),
    ("cr-sparse2", "C23", [(S, "        if length < 0:\n            raise ValueError(\"invalid length\")\n", "")]),
    ("cr-window", "C23", [(D, "        self.check_range(offset, size)\n        return window_type", "        self.check_range(offset)\n        return window_type")]),
    ("cr-spacelen", "C23", [(D, "        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n        length = max(length, 1)", "        if length < 0:\n            raise ValueError(\"invalid length\")\n        length = max(length, 1)")]),
    # C24
    ("sm-mask", "C24", [(S, ("block_offset = address & 0xfff", 1), "block_offset = address & 0x7ff")]),
    ("sm-4095", "C24", [(S, ("block_len = min(4096 - block_offset, length)", 1), "block_len = min(4095 - block_offset, length)")]),
    ("sm-over", "C24", [(S, "block_len = min(4096 - block_offset, length)\n            try:\n                block = self.segs[block_addr]\n            except KeyError:\n                block = bytearray(4096)", "block_len = min(4096, length)\n            try:\n                block = self.segs[block_addr]\n            except KeyError:\n                block = bytearray(4096)")]),
    ("sm-offset", "C24", [(S, "= data[offset:offset+block_len]", "= data[0:block_len]")]),
    ("sm-nostore", "C24", [(S, "                self.segs[block_addr] = block\n", "                self.segs[address] = block\n")]),
    ("sm-replace", "C24", [(S, "            try:\n                block = self.segs[block_addr]\n            except KeyError:\n                block = bytearray(4096)\n                self.segs[block_addr] = block\n", "            block = self.segs[block_addr] = bytearray(self.segs.get(block_addr, bytearray(4096))) if block_len < 4096 else bytearray(2048)\n")]),
    ("sm-loopend", "C24", [(S, ("        while length > 0:", 1), "        while length > 1:")]),
    ("sm-ff", "C24", [(S, "block = b'\\x00'*4096", "block = b'\\xff'*4096")]),
    ("sm-short", "C24", [(S, "block = b'\\x00'*4096", "block = b'\\x00'*1024")]),
    ("sm-idx", "C24", [(S, "return self.read(key, 1)[0]", "return self.read(key, 2)[-1]")]),
    ("sm-slice", "C24", [(S, "return self.read(start, stop-start)", "return self.read(start, stop)")]),
    ("sm-slicew", "C24", [(S, "                if stop-start != len(value):\n                    raise IndexError(\"slice assignment is wrong size\")\n", "")]),
    ("sm-step", "C24", [(S, "            start, stop, step = key.indices(self.size)\n            if step == 1:\n                return", "            start, stop, step = key.indices(self.size)\n            if step:\n                return")]),
    ("sm-inc", "C24", [(S, "            address += block_len\n            length -= block_len\n        return", "            address = block_addr + 4096\n            length -= 4096 - block_offset\n        return")]),
    # C26
    ("wd-size", "C26", [(D, "return await self.read_words(address, count, byteorder, 8, **kwargs)", "return await self.read_words(address, count, byteorder, 4, **kwargs)")]),
    ("wd-slice", "C26", [(D, "int.from_bytes(data[ws*k:ws*(k+1)], byteorder)", "int.from_bytes(data[2*k:2*k+ws], byteorder)")]),
    ("wd-order", "C26", [(D, "            data.extend(w.to_bytes(ws, byteorder))\n        await", "            data.extend(w.to_bytes(ws, 'little'))\n        await")]),
    ("wd-default", "C26", [(D, "async def write_dword(self, address, data, byteorder='little', **kwargs)", "async def write_dword(self, address, data, byteorder='big', **kwargs)")]),
    ("wd-kw", "C26", [(D, "await self.write_words(address, [data], byteorder, ws, **kwargs)", "await self.write_words(address, [data], byteorder, ws)")]),
    ("wd-signed", "C26", [(M, "words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder))", "words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder, signed=True))")]),
    ("wd-ws", "C26", [(M, "def write_word(self, address, data, byteorder='little', ws=2):\n        self.write_words(address, [data], byteorder, ws)", "def write_word(self, address, data, byteorder='little', ws=2):\n        self.write_words(address, [data], byteorder)")]),
    ("wd-count", "C26", [(M, "data = self.read(address, count*ws)", "data = self.read(address, count*2)")]),
    ("wd-two", "C26", [(D, "        return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]", "        return (await self.read_words(address, 2, byteorder, ws, **kwargs))[0]")]),
    ("wd-swap", "C26", [(M, "return self.read_words(address, count, byteorder, 4)", "return self.read_words(address, count, 4, byteorder)")]),
    ("wd-bytes", "C26", [("axil_master.py", "    def __bytes__(self):\n        return self.data", "    def __bytes__(self):\n        return self.data[:8]")]),
    # C30
    ("rm-nowrap", "C30", [("axi_ram.py", "self.write(address % self.size, data)", "self.write(address, data)")]),
    ("rm-mask", "C30", [("axil_ram.py", "return self.read(address % self.size, length)", "return self.read(address & (self.size-1), length)")]),
    ("rm-own", "C30", [("axi_ram.py", "self.read_if = AxiRamRead(bus.read, clock, reset, reset_active_level, mem=self.mem)", "self.read_if = AxiRamRead(bus.read, clock, reset, reset_active_level, size=self.size, mem=mem)")]),
    ("rm-copy", "C30", [(M, "            self.mem = mem\n", "            self.mem = bytearray(mem)\n")]),
    ("rm-size", "C30", [(M, "self.mem = SparseMemory(size)", "self.mem = SparseMemory(2**64)")]),
    ("rm-falsy", "C30", [(M, "        if mem is not None:\n", "        if mem:\n")]),
    ("rm-len", "C30", [(M, "self.mem[address:address+len(data)] = data", "self.mem[address:address+len(data)] = bytes(data[:len(self.mem)])")]),
    ("rm-region", "C30", [(D, "        self.mem[address:address+len(data)] = data", "        self.mem[address:] = data")]),
    ("rm-apb", "C30", [("apb.py", "return self.read(address % self.size, length)", "return self.read(address, length)")]),
    ("rm-if", "C30", [("axil_ram.py", "self.read_if = AxiLiteRamRead(bus.read, clock, reset, reset_active_level, mem=self.mem)", "self.read_if = AxiLiteRamRead(bus.read, clock, reset, reset_active_level, size=size)")]),
]
