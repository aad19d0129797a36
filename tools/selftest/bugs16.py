"""faults of streams, memories and address spaces, written from the property texts"""
S = "stream.py"
A = "axis.py"
Y = "memory.py"
SP = "sparse_memory.py"
AS = "address_space.py"
B = "buddy_allocator.py"
W = "axi_slave.py"
R = "axi_ram.py"
BUGS = [
    # C05
    ("d5-pause", "C05", [(S, "                    if has_valid:\n                        self.valid.value = 0\n                    self.active = not self.queue.empty()\n", "                    if has_valid and self.queue.empty():\n                        self.valid.value = 0\n                    self.active = not self.queue.empty()\n")]),
    ("d5-drop", "C05", [(S, "            if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue.empty() and not self.pause:\n", "            if (ready_sample and valid_sample) or (not valid_sample) or self.pause:\n                if not self.queue.empty() and not self.pause:\n")]),
    ("d5-rdy", "C05", [(S, "            if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue", "            if ready_sample or (not valid_sample):\n                if not self.queue")]) if False else
    ("d5-peek", "C05", [(S, "                    self.bus.drive(self.queue.get_nowait())\n                    self.dequeue_event.set()\n", "                    self.bus.drive(self.queue.get_nowait() if self.queue.qsize() == 1 else self.queue._queue[-1])\n                    self.dequeue_event.set()\n")]),
    ("d5-lifo", "C05", [(S, "        self.queue = Queue()\n        self.dequeue_event", "        self.queue = LifoQueue()\n        self.dequeue_event"), (S, "from cocotb.queue import Queue, QueueFull", "from cocotb.queue import LifoQueue, Queue, QueueFull")]),
    # C06
    ("d6-full", "C06", [(S, "                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n\n            if has_ready:", "                self.bus.sample(obj)\n                if not self.full():\n                    self.queue.put_nowait(obj)\n                self.active_event.set()\n\n            if has_ready:")]),
    ("d6-obj", "C06", [(S, "        wake_event = self.wake_event.wait()\n\n        while True:\n            await clock_edge_event\n\n            # read handshake signals\n            ready_sample = not has_ready or self.ready.value\n            valid_sample = not has_valid or self.valid.value\n\n            if ready_sample and valid_sample:\n                obj = self._transaction_obj()\n", "        wake_event = self.wake_event.wait()\n\n        obj = self._transaction_obj()\n\n        while True:\n            await clock_edge_event\n\n            # read handshake signals\n            ready_sample = not has_ready or self.ready.value\n            valid_sample = not has_valid or self.valid.value\n\n            if ready_sample and valid_sample:\n")]),
    ("d6-nordy", "C06", [(S, "            if ready_sample and valid_sample:\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n\n            if has_ready:", "            if (ready_sample or self.pause) and valid_sample:\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n\n            if has_ready:")]),
    ("d6-deliver", "C06", [(A, ("                if not has_tlast or self.bus.tlast.value:\n                    frame.sim_time_end", 1), "                if not has_tlast or self.bus.tlast.value or len(frame) >= 4096*self.byte_lanes:\n                    frame.sim_time_end")]),
    ("d6-tkeep", "C06", [(A, ("                    if has_tkeep:\n                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)\n", 2), "                    if has_tkeep and int(self.bus.tkeep.value):\n                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)\n")]),
    # C07
    ("d7-wake", "C07", [(S, "    def _pause_update(self, val):\n        self.wake_event.set()\n", "    def _pause_update(self, val):\n        if val:\n            self.wake_event.set()\n")]),
    ("d7-clr", "C07", [(S, "        self.dequeue_event.set()\n        self.wake_event.set()\n        if not self.active:", "        self.dequeue_event.set()\n        if not self.active:")]),
    ("d7-deq", "C07", [(S, "                    self.bus.drive(self.queue.get_nowait())\n                    self.dequeue_event.set()\n", "                    self.bus.drive(self.queue.get_nowait())\n                    if self.queue.empty():\n                        self.dequeue_event.set()\n")]),
    ("d7-samp", "C07", [(S, "                if (not valid_sample or paused) and (pause_sample == bool(self.pause)):", "                if not valid_sample or paused:")]),
    ("d7-mon", "C07", [(S, "        if self.valid is not None:\n            cocotb.start_soon(self._run_valid_monitor())\n        if self.ready", "        if self.valid is not None and self.ready is not None:\n            cocotb.start_soon(self._run_valid_monitor())\n        if self.ready")]),
    # C22
    ("d22-base", "C22", [(AS, "        return window_type(self, offset, size, base=self.get_absolute_address(offset))", "        return window_type(self.parent or self, offset, size, base=self.get_absolute_address(offset))")]),
    ("d22-neg", "C22", [(AS, "        if not size or size < 0:\n            size = self.size - offset\n", "        if not size or size < 0 or size > self.size - offset:\n            size = self.size - offset\n")]) if False else
    ("d22-pool", "C22", [(AS, "        self.allocator = BuddyAllocator(size)\n", "        self.allocator = BuddyAllocator(parent.size)\n")]),
    ("d22-alloc", "C22", [(AS, "        return self.create_window(self.allocator.alloc(size), size, window_type)", "        return self.create_window(self.allocator.alloc(size-1) if size > 1 else self.allocator.alloc(size), size, window_type)")]),
    ("d22-wr", "C22", [(AS, "        await self.parent.write(self.get_parent_address(address), data, **kwargs)", "        await self.parent._write(self.get_parent_address(address), data, **kwargs)")]),
    ("d22-par", "C22", [(AS, "        return address+self.offset\n", "        return address | self.offset\n")]),
    # C23
    ("d23-len0", "C23", [(AS, "        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs", "        if length and address+length-1 > self.size:\n            raise ValueError(\"operation out of range\")\n\n    def get_abs")]),
    ("d23-late", "C23", [(SP, "        if address+len(data) > self.size:\n            raise ValueError(\"operation out of range\")\n        offset = 0\n        length = len(data)\n        while length > 0:\n            block_offset = address & 0xfff\n", "        offset = 0\n        length = len(data)\n        while length > 0:\n            if address >= self.size:\n                raise ValueError(\"operation out of range\")\n            block_offset = address & 0xfff\n")]),
    ("d23-refuse", "C23", [(SP, "        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length > self.size:", "        if length < 0:\n            raise ValueError(\"invalid length\")\n        if address+length >= self.size and length > 4096:")]),
    ("d23-win", "C23", [(AS, "        self.check_range(address, len(data))\n        await self._write", "        self.check_range(address)\n        await self._write")]),
    # C24
    ("d24-share", "C24", [(SP, "                block = bytearray(4096)\n                self.segs[block_addr] = block\n", "                block = self.blank[:] if length < 4096 else self.blank\n                self.segs[block_addr] = block\n"), (SP, "        self.segs = {}\n", "        self.segs = {}\n        self.blank = bytearray(4096)\n")]),
    ("d24-rdalloc", "C24", [(SP, "                block = b'\\x00'*4096\n", "                block = self.segs.setdefault(block_addr, bytearray(4096))\n")]),
    ("d24-mask", "C24", [(SP, ("            block_offset = address & 0xfff\n", -1), "            block_offset = address & 0x7ff\n")]),
    ("d24-off", "C24", [(SP, "            block[block_offset:block_offset+block_len] = data[offset:offset+block_len]\n", "            block[block_offset:block_offset+block_len] = data[offset:offset+4096]\n")]),
    ("d24-clear", "C24", [(SP, "        self.segs.clear()\n", "        for block in self.segs.values():\n            block[:-1] = bytes(4095)\n")]),
    # C21
    ("d21-sort", "C21", [(AS, "        regions.sort()\n        return regions", "        return regions")]),
    ("d21-ovl", "C21", [(AS, "            if address < base+size and base < address+length:\n", "            if address < base+size and base <= address:\n")]),
    ("d21-edge", "C21", [(AS, "            if address < base+size and base < address+length:\n", "            if address <= base+size and base < address+length and size:\n")]),
    ("d21-gap", "C21", [(AS, ("            if base > address:\n                raise Exception(\"Invalid address\")\n", 1), "            if base > address and not data:\n                raise Exception(\"Invalid address\")\n")]),
    ("d21-tail", "C21", [(AS, "        if length > 0:\n            raise Exception(\"Invalid address\")\n        return bytes(data)", "        return bytes(data)")]),
    ("d21-off", "C21", [(AS, ("                seg_addr = address\n                offset = 0\n", 1), "                seg_addr = address\n                offset = base\n")]),
    # C25
    ("d25-split", "C25", [(B, "                self.free_lists[bucket].append(block+2**bucket)\n", "                self.free_lists[bucket].append(block+2**orig_bucket)\n")]),
    ("d25-nomerge", "C25", [(B, "                addr = min(addr, buddy)\n                bucket += 1\n", "                addr = max(addr, buddy)\n                bucket += 1\n")]),
    ("d25-pop", "C25", [(B, "        bucket = self.allocations.pop(addr)\n", "        bucket = self.allocations[addr]\n")]),
    # C30
    ("d30-mod", "C30", [(R, ("address % self.size", 1), "address % (self.size-1)")]),
    ("d30-two", "C30", [(R, "        self.read_if = AxiRamRead(bus.read, clock, reset, reset_active_level, mem=self.mem)", "        self.read_if = AxiRamRead(bus.read, clock, reset, reset_active_level, size=size)")]),
    # C08
    ("d8-nolimit", "C08", [(S, ("        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit:\n", 1), "        if self.queue_occupancy_limit >= 0 and self.count() >= self.queue_occupancy_limit:\n")]),
    ("d8-recount", "C08", [(S, "        while self.full():\n            self.dequeue_event.clear()\n", "        if self.full():\n            self.dequeue_event.clear()\n")]),
    # C29
    ("d29-twice", "C29", [(A, "                    if not has_tlast or self.bus.tlast.value:", "                    if not has_tlast or self.bus.tlast.value:")]) if False else
    ("d29-none", "C29", [(A, "        if isinstance(self.tx_complete, Event):\n            self.tx_complete.set(self)\n        elif callable", "        if isinstance(self.tx_complete, Event) and self.sim_time_end is not None:\n            self.tx_complete.set(self)\n        elif callable")]),
    ("d29-data", "C29", [(A, "            self.tx_complete.set(self)\n", "            self.tx_complete.set()\n")]),
    # C28
    ("d28-ext", "C28", [(A, "            self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))", "            self.tkeep = self.tkeep[:n] + [1]*(n-len(self.tkeep))")]),
    ("d28-fold", "C28", [(A, "            elif all(self.tdest[0] == i for i in self.tdest):\n                self.tdest = self.tdest[0]\n", "            elif any(self.tdest[0] == i for i in self.tdest[1:] or self.tdest):\n                self.tdest = self.tdest[0]\n")]),
    ("d28-cpy", "C28", [(A, "                    self.tuser = list(tdata.tuser)\n", "                    self.tuser = tdata.tuser\n")]),
    # C26
    ("d26-q", "C26", [(AS, "        return (await self.read_qwords(address, 1, byteorder, **kwargs))[0]", "        return (await self.read_qwords(address, 1, **kwargs))[0]")]),
    ("d26-w", "C26", [(Y, "        self.write_words(address, [data], byteorder, ws)\n", "        self.write_words(address, [data], byteorder)\n")]),
    ("d26-rw", "C26", [(Y, "            words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder))\n", "            words.append(int.from_bytes(data[ws*k:ws*k+2], byteorder))\n")]),
]
