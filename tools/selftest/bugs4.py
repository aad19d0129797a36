B = "buddy_allocator.py"
BUGS = [
    ("bd-fit", "C25", [(B, "if block+size <= self.size]", "if block < self.size]")]),
    ("bd-size", "C25", [(B, "if size < 1 or size > self.size:", "if size < 1:")]),
    ("bd-zero", "C25", [(B, "if size < 1 or size > self.size:", "if size > self.size:")]),
    ("bd-bucket", "C25", [(B, "bucket = (size-1).bit_length()\n        orig", "bucket = max(size.bit_length()-1, 0)\n        orig")]),
    ("bd-noremove", "C25", [(B, "            self.free_lists[bucket].remove(block)\n", "")]),
    ("bd-split-deep", "C25", [(B, "while bucket > orig_bucket:", "while bucket >= orig_bucket:")]),
    ("bd-split-half", "C25", [(B, "append(block+2**bucket)", "append(block+2**(bucket+1))")]),
    ("bd-split-order", "C25", [(B, "                bucket -= 1\n                self.free_lists[bucket].append(block+2**bucket)", "                self.free_lists[bucket-1].append(block+2**bucket)\n                bucket -= 1")]),
    ("bd-rec", "C25", [(B, "self.allocations[block] = bucket", "self.allocations[block] = orig_bucket+1")]),
    ("bd-skip", "C25", [(B, "                bucket += 1\n                continue", "                bucket += 2\n                continue")]),
    ("bd-last", "C25", [(B, "while bucket < len(self.free_lists):\n            # find free", "while bucket < len(self.free_lists)-1:\n            # find free")]),
    ("bd-init", "C25", [(B, "(self.size-1).bit_length())]", "self.size.bit_length()-1)]")]),
    ("bd-alias", "C25", [(B, "[[] for x in range((self.size-1).bit_length())]", "[[]]*(self.size-1).bit_length()")]),
    ("bd-free-get", "C25", [(B, "bucket = self.allocations.pop(addr)", "bucket = self.allocations[addr]")]),
    ("bd-free-unk", "C25", [(B, "        if addr not in self.allocations:\n            raise ValueError(\"unknown allocation\")\n\n        bucket = self.allocations.pop(addr)", "        bucket = self.allocations.pop(addr, 0)")]),
    ("bd-buddy", "C25", [(B, "if (addr // size) % 2:", "if addr % size:")]),
    ("bd-buddy2", "C25", [(B, "buddy = addr + size", "buddy = addr + 2*size")]),
    ("bd-min", "C25", [(B, "addr = min(addr, buddy)", "addr = max(addr, buddy)")]),
    ("bd-nomin", "C25", [(B, "                addr = min(addr, buddy)\n", "")]),
    ("bd-merge-keep", "C25", [(B, "                self.free_lists[bucket].remove(buddy)\n", "")]),
    ("bd-nomerge", "C25", [(B, "if buddy in self.free_lists[bucket]:", "if buddy in self.free_lists[bucket] and bucket > 0:")]),
    ("bd-noinc", "C25", [(B, "addr = min(addr, buddy)\n                bucket += 1", "addr = min(addr, buddy)\n                bucket += 2")]),
    ("bd-minalloc-fit", "C25", [(B, "        blocks = [block for", "        blocks = [block for") ,(B, "            blocks = [block for block in self.free_lists[bucket] if block+size <= self.size]", "            blocks = [block for block in self.free_lists[bucket] if block+2**bucket <= self.size]")]),
    ("bd-free-wrong", "C25", [(B, "self.free_lists[bucket].append(addr)", "self.free_lists[bucket-1].append(addr)")]),
    ("bd-fail-mut", "C25", [(B, "            if not blocks:\n                bucket += 1\n                continue\n", "            if not blocks:\n                self.free_lists[bucket].clear()\n                bucket += 1\n                continue\n")]),
]
M = "axi_master.py"
BUGS += [
    ("id-nomap", "C18", [(M, "        self._context_mapping[tag] = context\n        return", "        return")]),
    ("id-noreuse", "C18", [(M, "        if tag in self._context_mapping:\n            return self._context_mapping[tag]\n        elif", "        if")]),
    ("id-idlepeek", "C18", [(M, "context = self._context_idle_list.pop()", "context = self._context_idle_list[-1]")]),
    ("id-notag", "C18", [(M, "        context.current_tag = tag\n        self._context_mapping", "        self._context_mapping")]),
    ("id-nostart", "C18", [(M, "        context._start()\n", "")]),
    ("id-nolist", "C18", [(M, "            self._context_list.append(context)\n", "")]),
    ("id-respq", "C18", [(M, "context._resp_queue.put_nowait(resp)", "context._cmd_queue.put_nowait(resp)")]),
    ("id-lifo", "C18", [(M, "        self._resp_queue = Queue()\n        self._cr", "        self._resp_queue = LifoQueue()\n        self._cr"), (M, "from cocotb.queue import Queue", "from cocotb.queue import Queue, LifoQueue")]),
    ("id-idle-cmd", "C18", [(M, "if self._cmd_queue.empty() and self._resp_queue.empty():", "if self._resp_queue.empty():")]),
    ("id-idle-resp", "C18", [(M, "if self._cmd_queue.empty() and self._resp_queue.empty():", "if self._cmd_queue.empty():")]),
    ("id-idle-or", "C18", [(M, "if self._cmd_queue.empty() and self._resp_queue.empty():", "if self._cmd_queue.empty() or self._resp_queue.empty():")]),
    ("id-idle-early", "C18", [(M, "            await self._manager._process(self, cmd)\n            self._current_cmd = None\n\n            if self._cmd_queue.empty() and self._resp_queue.empty():\n                self._manager._set_idle(self)", "            if self._cmd_queue.empty() and self._resp_queue.empty():\n                self._manager._set_idle(self)\n\n            await self._manager._process(self, cmd)\n            self._current_cmd = None")]),
    ("id-par", "C18", [(M, "            await self._manager._process(self, cmd)\n", "            cocotb.start_soon(self._manager._process(self, cmd))\n")]),
    ("id-nocur", "C18", [(M, "            self._current_cmd = cmd\n            await", "            await")]),
    ("id-nocurclr", "C18", [(M, "            await self._manager._process(self, cmd)\n            self._current_cmd = None\n", "            await self._manager._process(self, cmd)\n")]),
    ("id-idle-double", "C18", [(M, "            del self._context_mapping[context.current_tag]\n            self._context_idle_list.append(context)", "            del self._context_mapping[context.current_tag]\n        self._context_idle_list.append(context)")]),
    ("id-idle-nodel", "C18", [(M, "            del self._context_mapping[context.current_tag]\n", "")]),
    ("id-flush-cur", "C18", [(M, "        if self._current_cmd is not None:\n            flushed_cmds.append(self._current_cmd)\n            self._current_cmd = None\n        while not self._cmd", "        self._current_cmd = None\n        while not self._cmd")]),
    ("id-flush-curkeep", "C18", [(M, "            flushed_cmds.append(self._current_cmd)\n            self._current_cmd = None\n        while not self._cmd", "            flushed_cmds.append(self._current_cmd)\n        while not self._cmd")]),
    ("id-flush-one", "C18", [(M, "        while not self._cmd_queue.empty():\n            flushed_cmds", "        if not self._cmd_queue.empty():\n            flushed_cmds")]),
    ("id-flush-resp", "C18", [(M, "        while not self._resp_queue.empty():\n            self._resp_queue.get_nowait()\n        return", "        return")]),
    ("id-flush-nokill", "C18", [(M, "            self._cr.kill()\n            self._cr = None\n        self._manager", "            self._cr = None\n        self._manager")]),
    ("id-flush-crkeep", "C18", [(M, "            self._cr.kill()\n            self._cr = None\n        self._manager", "            self._cr.kill()\n        self._manager")]),
    ("id-flush-noidle", "C18", [(M, "        self._manager._set_idle(self)\n        if self._current_cmd", "        if self._current_cmd")]),
    ("id-flush-last", "C18", [(M, "            flushed_cmds.extend(c._flush())\n        return", "            flushed_cmds = c._flush()\n        return")]),
    ("id-flush-idle", "C18", [(M, "        for c in self._context_list:", "        for c in self._context_idle_list:")]),
    ("id-tag-w", "C18", [(M, "self.tag_context_manager.start_cmd(awid, resp_cmd)", "self.tag_context_manager.start_cmd(self.cur_id, resp_cmd)")]),
    ("id-tag-awid", "C18", [(M, "aw.awid = awid", "aw.awid = self.cur_id")]),
    ("id-tag-ar", "C18", [(M, "ar.arid = arid", "ar.arid = 0")]),
    ("id-count-after", "C18", [(M, "                    self.active_id[arid] += 1\n                    await self.ar_channel.send(ar)", "                    await self.ar_channel.send(ar)\n                    self.active_id[arid] += 1")]),
    ("id-count2", "C18", [(M, "            self.active_id[rid] -= 1\n", "                self.active_id[rid] -= 1\n")]),
    ("id-count-none", "C18", [(M, "            self.active_id[bid] -= 1\n", "")]),
    ("id-resp0", "C18", [(M, "bid = int(getattr(b, 'bid', 0))", "bid = int(getattr(b, 'bid', 0)) & 7")]),
    ("id-respdef", "C18", [(M, "rid = int(getattr(r, 'rid', 0))", "rid = int(getattr(r, 'rid', 1))")]),
    ("id-reset-count", "C18", [(M, "            self.active_id = Counter()\n", "")]),
    ("id-recv-direct", "C18", [(M, "                r = await context.get_resp()", "                r = await self.r_channel.recv()")]),
]
