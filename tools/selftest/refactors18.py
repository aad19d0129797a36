"""larger rewrites of the APB models and the per-ID contexts that keep the behaviour"""
P = "apb.py"
M = "axi_master.py"

SW = '''                # perform writes
                try:
                    for addr, data in write_ops:
                        await self._write(addr, data)
                except Exception:
                    self.log.warning("Write operation failed")
                    pslverr = True
            else:
                try:
                    data = await self._read(addr, self.byte_lanes)
                except Exception:
                    self.log.warning("Read operation failed")
                    data = bytes(self.byte_lanes)
                    pslverr = True
'''
SW_H = '''                pslverr = not await self._perform(write_ops)
            else:
                data, pslverr = await self._fetch(addr)
'''
SW_DEF = '''    async def _perform(self, write_ops):
        try:
            for addr, data in write_ops:
                await self._write(addr, data)
        except Exception:
            self.log.warning("Write operation failed")
            return False
        return True

    async def _fetch(self, addr):
        try:
            return await self._read(addr, self.byte_lanes), False
        except Exception:
            self.log.warning("Read operation failed")
            return bytes(self.byte_lanes), True

    async def _run(self):
'''
SW_ELSE = SW.replace('''                    data = bytes(self.byte_lanes)
                    pslverr = True
''', '''                    data, pslverr = b"\\x00"*self.byte_lanes, True
''')
MH = '''            length = 0
            pwrite = False

            if isinstance(cmd, ApbWriteCmd):
                length = len(cmd.data)
                pwrite = True
            else:
                length = cmd.length
                pwrite = False
'''
MH_2 = '''            pwrite = isinstance(cmd, ApbWriteCmd)
            length = len(cmd.data) if pwrite else cmd.length
'''
MB = '''                if k == 0:
                    start = start_offset
                    strb &= strb_start
                if k == cycles-1:
                    stop = end_offset
                    strb &= strb_end
'''
MB_2 = '''                if k == 0:
                    start = start_offset
                if k == cycles-1:
                    stop = end_offset
                strb = ((1 << (stop-start))-1) << start
'''
GC = '''        if tag in self._context_mapping:
            return self._context_mapping[tag]
        elif self._context_idle_list:
            context = self._context_idle_list.pop()
        else:
            context = TagContext(self)
            self._context_list.append(context)
        context._start()
        context.current_tag = tag
        self._context_mapping[tag] = context
        return context
'''
GC_TRY = '''        try:
            return self._context_mapping[tag]
        except KeyError:
            pass
        if self._context_idle_list:
            context = self._context_idle_list.pop()
        else:
            context = TagContext(self)
            self._context_list.append(context)
        self._context_mapping[tag] = context
        context.current_tag = tag
        context._start()
        return context
'''
GC_GET = '''        context = self._context_mapping.get(tag)
        if context is None:
            context = self._take_idle()
            context.current_tag = tag
            context._start()
            self._context_mapping[tag] = context
        return context

    def _take_idle(self):
        if len(self._context_idle_list) > 0:
            return self._context_idle_list.pop(0)
        context = TagContext(self)
        self._context_list.append(context)
        return context
'''
FL = '''        while not self._cmd_queue.empty():
            flushed_cmds.append(self._cmd_queue.get_nowait())
        while not self._resp_queue.empty():
            self._resp_queue.get_nowait()
        return flushed_cmds
'''
FL_H = '''        flushed_cmds.extend(self._drain(self._cmd_queue))
        self._drain(self._resp_queue)
        return flushed_cmds

    @staticmethod
    def _drain(queue):
        items = []
        while not queue.empty():
            items.append(queue.get_nowait())
        return items
'''
FL_N = '''        for _ in range(self._cmd_queue.qsize()):
            flushed_cmds.append(self._cmd_queue.get_nowait())
        for _ in range(self._resp_queue.qsize()):
            self._resp_queue.get_nowait()
        return flushed_cmds
'''
MF = '''        flushed_cmds = []
        for c in self._context_list:
            flushed_cmds.extend(c._flush())
        return flushed_cmds
'''
MF_C = '''        return [cmd for context in self._context_list for cmd in context._flush()]
'''
MF_S = '''        return sum((context._flush() for context in self._context_list), [])
'''
SI = '''        if context.current_tag in self._context_mapping:
            del self._context_mapping[context.current_tag]
            self._context_idle_list.append(context)
        context.current_tag = None
'''
SI_P = '''        if self._context_mapping.pop(context.current_tag, None) is not None:
            self._context_idle_list.append(context)
        context.current_tag = None
'''
PQ = '''            cmd = await self._cmd_queue.get()
            self._current_cmd = cmd
            await self._manager._process(self, cmd)
            self._current_cmd = None

            if self._cmd_queue.empty() and self._resp_queue.empty():
                self._manager._set_idle(self)
'''
PQ_2 = '''            self._current_cmd = await self._cmd_queue.get()
            await self._manager._process(self, self._current_cmd)
            self._current_cmd = None

            if self._cmd_queue.qsize() or self._resp_queue.qsize():
                continue
            self._manager._set_idle(self)
'''
FLC = '''            while not self.command_queue.empty():
                cmd = self.command_queue.get_nowait()
                flush_cmd(cmd)

            if self.current_command:
                cmd = self.current_command
                self.current_command = None
                flush_cmd(cmd)
'''
FLC_2 = '''            pending = [] if self.current_command is None else [self.current_command]
            self.current_command = None
            while not self.command_queue.empty():
                pending.append(self.command_queue.get_nowait())
            for cmd in pending:
                flush_cmd(cmd)
'''
FLC_M = '''            flush_cmd = self._flush_cmd

            if self.current_command:
                flush_cmd(self.current_command)
                self.current_command = None

            while self.command_queue.qsize():
                flush_cmd(self.command_queue.get_nowait())
'''
# known limits (DESIGN.md): FL_N, FLC_2 are judged wrongly
REFACTORS = [
    ("ri-sw", [(P, SW, SW_H), (P, ("    async def _run(self):\n", 2), SW_DEF)]) if False else ("ri-sw", [(P, SW, SW_H), (P, "    async def _read(self, address, length):\n        return await self.target.read(address, length)\n", "    async def _read(self, address, length):\n        return await self.target.read(address, length)\n\n"+SW_DEF.replace("    async def _run(self):\n", ""))]),
    ("ri-swelse", [(P, SW, SW_ELSE)]),
    ("ri-mh", [(P, MH, MH_2)]),
    ("ri-mb", [(P, MB, MB_2)]),
    ("ri-gctry", [(M, GC, GC_TRY)]),
    ("ri-gcget", [(M, GC, GC_GET)]),
    ("ri-fl", [(M, FL, FL_H)]),
    ("ri-mfc", [(M, MF, MF_C)]),
    ("ri-mfs", [(M, MF, MF_S)]),
    ("ri-si", [(M, SI, SI_P)]),
    ("ri-pq", [(M, PQ, PQ_2)]),
    ("ri-flm", [(P, '''            def flush_cmd(cmd):
                self.log.warning("Flushed write operation during reset: %s", cmd)
                if cmd.event:
                    cmd.event.set(None)

'''+FLC, FLC_M), (P, "    async def write(self, address, data, prot=AxiProt.NONSECURE):\n", '''    def _flush_cmd(self, cmd):
        self.log.warning("Flushed write operation during reset: %s", cmd)
        if cmd.event:
            cmd.event.set(None)

    async def write(self, address, data, prot=AxiProt.NONSECURE):
''')]),
]
