S, D, B, M = "sparse_memory.py", "address_space.py", "buddy_allocator.py", "memory.py"
REFACTORS = [
    ("sm-end", [(S, "        data = bytearray()\n        while length > 0:\n            block_offset = address & 0xfff\n            block_addr = address - block_offset\n            block_len = min(4096 - block_offset, length)\n            try:\n                block = self.segs[block_addr]\n            except KeyError:\n                block = b'\\x00'*4096\n            data.extend(block[block_offset:block_offset+block_len])\n            address += block_len\n            length -= block_len\n",
                 "        data = bytearray()\n        end = address+length\n        while address < end:\n            block_addr = address & ~0xfff\n            start = address - block_addr\n            stop = min(4096, end - block_addr)\n            block = self.segs.get(block_addr)\n            if block is None:\n                data.extend(bytes(stop-start))\n            else:\n                data.extend(block[start:stop])\n            address += stop-start\n")]),
    ("sm-helper", [(S, "            try:\n                block = self.segs[block_addr]\n            except KeyError:\n                block = bytearray(4096)\n                self.segs[block_addr] = block\n            block[", "            block = self._segment(block_addr)\n            block["),
                   (S, "    def clear(self):", "    def _segment(self, addr):\n        if addr not in self.segs:\n            self.segs[addr] = bytearray(4096)\n        return self.segs[addr]\n\n    def clear(self):")]),
    ("sm-setdef", [(S, "            try:\n                block = self.segs[block_addr]\n            except KeyError:\n                block = bytearray(4096)\n                self.segs[block_addr] = block\n", "            block = self.segs.setdefault(block_addr, bytearray(4096))\n")]),
    ("sm-divmod", [(S, ("            block_offset = address & 0xfff\n            block_addr = address - block_offset\n", -1), "            block_addr, block_offset = divmod(address, 4096)\n            block_addr *= 4096\n")]),
    ("sm-check", [(S, "        if address < 0 or address >= self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n        data", "        self._check(address, length)\n        data"),
                  (S, "        if address < 0 or address >= self.size:\n            raise ValueError(\"address out of range\")\n        if address+len(data) > self.size:\n            raise ValueError(\"operation out of range\")\n", "        self._check(address, len(data))\n"),
                  (S, "    def clear(self):", "    def _check(self, address, length):\n        if not 0 <= address < self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if self.size - length < address:\n            raise ValueError(\"operation out of range\")\n\n    def clear(self):")]),
    ("as-comp", [(D, "        for (base, size, translate, region) in self.regions:\n            if address < base+size and base < address+length:\n                regions.append((base, size, translate, region))\n        regions.sort()\n        return regions", "        end = address+length\n        return sorted(r for r in self.regions if r[0] < end and address < r[0]+r[1])"), (D, "        regions = []\n        if address < 0", "        if address < 0")]),
    ("as-cont", [(D, "            if address < base+size and base < address+length:\n                regions.append((base, size, translate, region))\n", "            if base >= address+length or base+size <= address:\n                continue\n            regions.append((base, size, translate, region))\n")]),
    ("as-read", [(D, "        for base, size, offset, region in regions:\n            if base > address:\n                raise Exception(\"Invalid address\")\n            seg_addr = address - base\n            seg_len = min(size-seg_addr, length)\n            if offset is None:\n                seg_addr = address\n                offset = 0\n            data.extend(bytes(await region.read(seg_addr+offset, seg_len, **kwargs)))\n            address += seg_len\n            length -= seg_len\n        if length > 0:",
                  "        end = address + length\n        for base, size, offset, region in regions:\n            if base > address:\n                raise Exception(\"Invalid address\")\n            seg_len = min(base+size, end) - address\n            local = address if offset is None else address - base + offset\n            data += bytes(await region.read(local, seg_len, **kwargs))\n            address += seg_len\n        if address < end:")]),
    ("as-write", [(D, "            await region.write(seg_addr+offset, data[start:start+seg_len], **kwargs)\n            address += seg_len\n            start += seg_len\n            length -= seg_len\n", "            await region.write(seg_addr+offset, data[:seg_len], **kwargs)\n            data = data[seg_len:]\n            address += seg_len\n            length -= seg_len\n"), (D, "        start = 0\n        length = len(data)\n        regions", "        length = len(data)\n        regions")]),
    ("as-reg", [(D, "        region._parent = self\n        if offset == 0:\n            region._base = self.get_absolute_address(base)\n        else:\n            region._base = None\n", "        region._parent = self\n        region._base = self.get_absolute_address(base) if offset == 0 else None\n")]),
    ("wi-inline", [(D, "return await self.parent.read(self.get_parent_address(address), length, **kwargs)", "data = await self._parent.read(self.get_parent_address(address), length, **kwargs)\n        return data")]),
    ("wi-create", [(D, "        if not size or size < 0:\n            size = self.size - offset\n        window_type = window_type or self.window_type or Window\n", "        if size is None or size <= 0:\n            size = self.size - offset\n        if window_type is None:\n            window_type = self.window_type or Window\n")]),
    ("wi-alloc", [(D, "        return self.create_window(self.allocator.alloc(size), size, window_type)", "        addr = self.allocator.alloc(size)\n        return self.create_window(addr, size=size, window_type=window_type)")]),
    ("cr-chain", [(D, "        if address < 0 or address >= self.size:\n            raise ValueError(\"address out of range\")\n        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs", "        if not 0 <= address < self._size:\n            raise ValueError(\"address out of range\")\n        if not 0 <= length <= self._size - address:\n            raise ValueError(\"invalid length\")\n\n    def get_abs")]),
    ("wd-comp", [(D, "        words = []\n        for k in range(count):\n            words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder))\n        return words", "        return [int.from_bytes(data[k*ws:k*ws+ws], byteorder) for k in range(count)]")]),
    ("wd-join", [(D, "        words = data\n        data = bytearray()\n        for w in words:\n            data.extend(w.to_bytes(ws, byteorder))\n        await self.write(address, data, **kwargs)", "        await self.write(address, b''.join(w.to_bytes(ws, byteorder) for w in data), **kwargs)")]),
    ("wd-plus", [(M, "            data.extend(w.to_bytes(ws, byteorder))\n", "            data += w.to_bytes(ws, byteorder=byteorder)\n")]),
    ("wd-step", [(M, "        for k in range(count):\n            words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder))", "        for off in range(0, count*ws, ws):\n            words.append(int.from_bytes(data[off:off+ws], byteorder=byteorder))")]),
    ("wd-direct", [(D, "        return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]", "        return int.from_bytes(bytes(await self.read(address, ws, **kwargs)), byteorder)")]),
    ("rm-var", [("axi_ram.py", "        self.write(address % self.size, data)", "        offset = address % self.size\n        self.mem[offset:offset+len(data)] = data")]),
    ("rm-else", [(M, "        if mem is not None:\n            self.mem = mem\n        else:\n            self.mem = SparseMemory(size)\n", "        if mem is None:\n            mem = SparseMemory(size)\n        self.mem = mem\n")]),
    ("rm-kw", [("axil_ram.py", "self.read_if = AxiLiteRamRead(bus.read, clock, reset, reset_active_level, mem=self.mem)", "self.read_if = AxiLiteRamRead(bus=bus.read, clock=clock, reset=reset, reset_active_level=reset_active_level, size=self.size, mem=self.mem)")]),
]
