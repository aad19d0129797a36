B = "buddy_allocator.py"
REFACTORS = [
    ("bd-xor", [(B, "            if (addr // size) % 2:\n                buddy = addr - size\n            else:\n                buddy = addr + size\n", "            buddy = addr ^ size\n")]),
    ("bd-and", [(B, "            if (addr // size) % 2:", "            if addr & size:")]),
    ("bd-shift", [(B, "size = 2**bucket", "size = 1 << bucket"), (B, "block+2**bucket", "block + (1 << bucket)")]),
    ("bd-for", [(B, "            while bucket > orig_bucket:\n                # split block, keep lower half\n                bucket -= 1\n                self.free_lists[bucket].append(block+2**bucket)\n", "            for b in range(bucket-1, orig_bucket-1, -1):\n                self.free_lists[b].append(block+2**b)\n"), (B, "self.allocations[block] = bucket", "self.allocations[block] = orig_bucket")]),
    ("bd-helper", [(B, "    def alloc(self, size):", "    def _split(self, block, bucket, target):\n        while bucket > target:\n            bucket -= 1\n            self.free_lists[bucket].append(block+2**bucket)\n        return bucket\n\n    def alloc(self, size):"), (B, "            while bucket > orig_bucket:\n                # split block, keep lower half\n                bucket -= 1\n                self.free_lists[bucket].append(block+2**bucket)\n", "            bucket = self._split(block, bucket, orig_bucket)\n")]),
    ("bd-range", [(B, "        while bucket < len(self.free_lists):\n            # find free", "        for bucket in range(orig_bucket, len(self.free_lists)):\n            # find free"), (B, "                bucket += 1\n                continue", "                continue")]),
    ("bd-initall", [(B, "range((self.size-1).bit_length())]\n        self.free_lists.append([0])", "range((self.size-1).bit_length()+1)]\n        self.free_lists[-1].append(0)")]),
    ("bd-upper", [(B, "                self.free_lists[bucket].append(block+2**bucket)\n", "                self.free_lists[bucket].append(block)\n                block += 2**bucket\n"), (B, "if block+size <= self.size]", "if block+2**bucket <= self.size]")]),
    ("bd-del", [(B, "bucket = self.allocations.pop(addr)", "bucket = self.allocations[addr]\n        del self.allocations[addr]")]),
    ("bd-mn", [(B, "addr = min(addr, buddy)", "if buddy < addr:\n                    addr = buddy")]),
    ("bd-index", [(B, "            self.free_lists[bucket].remove(block)\n", "            free = self.free_lists[bucket]\n            free.remove(block)\n")]),
    ("bd-minsel", [(B, "block = blocks[0]", "block = min(blocks)")]),
    ("bd-while-true", [(B, "            if buddy in self.free_lists[bucket]:\n                # buddy is free, merge\n                self.free_lists[bucket].remove(buddy)\n                addr = min(addr, buddy)\n                bucket += 1\n            else:\n                # buddy is not free, so add to free list\n                self.free_lists[bucket].append(addr)\n                return\n", "            if buddy not in self.free_lists[bucket]:\n                self.free_lists[bucket].append(addr)\n                return\n\n            self.free_lists[bucket].remove(buddy)\n            addr = min(addr, buddy)\n            bucket += 1\n")]),
]
REFACTORS = [r for r in REFACTORS if r[0] != "bd-upper"]
M = "axi_master.py"
REFACTORS += [
    ("id-get", [(M, "        if tag in self._context_mapping:\n            return self._context_mapping[tag]\n        elif self._context_idle_list:", "        context = self._context_mapping.get(tag)\n        if context is not None:\n            return context\n        if self._context_idle_list:")]),
    ("id-try", [(M, "        if tag in self._context_mapping:\n            return self._context_mapping[tag]\n        elif self._context_idle_list:", "        try:\n            return self._context_mapping[tag]\n        except KeyError:\n            pass\n        if len(self._context_idle_list) > 0:")]),
    ("id-new", [(M, "        else:\n            context = TagContext(self)\n            self._context_list.append(context)\n        context._start()", "        else:\n            context = self._new_context()\n        context._start()"), (M, "    def start_cmd(self, tag, cmd):", "    def _new_context(self):\n        ctx = TagContext(self)\n        self._context_list.append(ctx)\n        return ctx\n\n    def start_cmd(self, tag, cmd):")]),
    ("id-put1", [(M, "        context = self._get_context(tag)\n        context._cmd_queue.put_nowait(cmd)", "        self._get_context(tag)._cmd_queue.put_nowait(cmd)")]),
    ("id-order", [(M, "        context._start()\n        context.current_tag = tag\n        self._context_mapping[tag] = context\n", "        self._context_mapping[tag] = context\n        context.current_tag = tag\n        context._start()\n")]),
    ("id-idlef", [(M, "            if self._cmd_queue.empty() and self._resp_queue.empty():\n                self._manager._set_idle(self)", "            if not self._cmd_queue.empty():\n                continue\n            if not self._resp_queue.empty():\n                continue\n            self._manager._set_idle(self)")]),
    ("id-idleh", [(M, "            if self._cmd_queue.empty() and self._resp_queue.empty():\n                self._manager._set_idle(self)", "            self._release()"), (M, "    async def _process_queue(self):", "    def _release(self):\n        if self._cmd_queue.empty() and self._resp_queue.empty():\n            self._manager._set_idle(self)\n\n    async def _process_queue(self):")]),
    ("id-idlepop", [(M, "        if context.current_tag in self._context_mapping:\n            del self._context_mapping[context.current_tag]\n            self._context_idle_list.append(context)\n", "        tag = context.current_tag\n        if tag in self._context_mapping:\n            self._context_mapping.pop(tag)\n            self._context_idle_list.append(context)\n")]),
    ("id-flushq", [(M, "        while not self._cmd_queue.empty():\n            flushed_cmds.append(self._cmd_queue.get_nowait())", "        while self._cmd_queue.qsize() > 0:\n            cmd = self._cmd_queue.get_nowait()\n            flushed_cmds.append(cmd)")]),
    ("id-flushinit", [(M, "        if self._current_cmd is not None:\n            flushed_cmds.append(self._current_cmd)\n            self._current_cmd = None\n        while not self._cmd", "        cmd = self._current_cmd\n        self._current_cmd = None\n        if cmd is not None:\n            flushed_cmds.append(cmd)\n        while not self._cmd")]),
    ("id-flushsum", [(M, "        for c in self._context_list:\n            flushed_cmds.extend(c._flush())\n", "        for c in self._context_list:\n            flushed_cmds += c._flush()\n")]),
    ("id-flushfor", [(M, "        for c in self._context_list:\n            flushed_cmds.extend(c._flush())\n", "        for context in self._context_list:\n            for cmd in context._flush():\n                flushed_cmds.append(cmd)\n")]),
    ("id-loc", [(M, "            self.tag_context_manager.put_resp(bid, b)", "            mgr = self.tag_context_manager\n            mgr.put_resp(tag=bid, resp=b)")]),
    ("id-cnt", [(M, "            self.active_id[bid] -= 1\n", "            self.active_id[bid] = self.active_id[bid]-1\n")]),
    ("id-auto", [(M, "            if cmd.awid is not None:\n                awid = cmd.awid\n            else:\n                awid = self.cur_id\n                self.cur_id = (self.cur_id+1) % self.id_count\n", "            awid = cmd.awid\n            if awid is None:\n                awid = self.cur_id\n                self.cur_id = (self.cur_id+1) % self.id_count\n")]),
    ("id-autoh", [(M, "            if cmd.awid is not None:\n                awid = cmd.awid\n            else:\n                awid = self.cur_id\n                self.cur_id = (self.cur_id+1) % self.id_count\n", "            awid = cmd.awid if cmd.awid is not None else self._next_id()\n"), (M, "    async def _process_write(self):", "    def _next_id(self):\n        i = self.cur_id\n        self.cur_id = (i+1) % self.id_count\n        return i\n\n    async def _process_write(self):")]),
]
