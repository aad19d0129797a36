"""faults of masters, reset and memories, written from the property texts"""
M = "axi_master.py"
L = "axil_master.py"
P = "apb.py"
S = "stream.py"
A = "axis.py"
R = "reset.py"
FL = "            while not self.write_command_queue.empty():\n                cmd = self.write_command_queue.get_nowait()\n                flush_cmd(cmd)\n"
BUGS = [
    # C09
    ("c9-wr", "C09", [(M, ("        data = bytes(data)\n\n        self.in_flight", 2), "        data = bytes(data) if len(data) <= self.byte_lanes else data\n\n        self.in_flight")]),
    ("c9-mv", "C09", [(M, ("        data = bytes(data)\n", 1), "        data = memoryview(data)\n")]),
    ("c9-late", "C09", [(L, "        event = Event()\n        data = bytes(data)\n\n        self.in_flight_operations += 1\n        self._idle.clear()\n\n        await self.write_command_queue.put(AxiLiteWriteCmd(address, data, prot, event))", "        event = Event()\n        self.in_flight_operations += 1\n        self._idle.clear()\n\n        while self.write_command_queue.full():\n            await self._idle.wait()\n        data = bytes(data)\n        await self.write_command_queue.put(AxiLiteWriteCmd(address, data, prot, event))")]),
    ("c9-wuser", "C09", [(M, ("            wuser = list(wuser)\n", 1), "            wuser = wuser if isinstance(wuser, list) else list(wuser)\n")]),
    ("c9-wuser2", "C09", [(M, "            wuser = list(wuser)\n\n        event = Event()", "            wuser = iter(wuser) if not hasattr(wuser, '__len__') else wuser\n\n        event = Event()")]),
    ("c9-apb", "C09", [(P, ("        data = bytes(data)\n", 2), "        data = bytearray(data) if not isinstance(data, bytearray) else data\n")]),
    ("c9-frame", "C09", [(A, "            self.tdata = bytearray(tdata.tdata)", "            self.tdata = tdata.tdata")]),
    # C13
    ("c13-last", "C13", [(M, "            if burst_resp != AxiResp.OKAY:\n                resp = burst_resp\n", "            resp = burst_resp\n")]),
    ("c13-and", "C13", [(M, "            if burst_resp != AxiResp.OKAY:\n                resp = burst_resp\n", "            if burst_resp in (AxiResp.SLVERR, AxiResp.DECERR):\n                resp = burst_resp\n")]),
    ("c13-max", "C13", [(M, "            if burst_resp != AxiResp.OKAY:\n                resp = burst_resp\n", "            resp = AxiResp(resp | burst_resp)\n")]),
    ("c13-apb", "C13", [(P, "                if self.pslverr_present and int(self.bus.pslverr.value):\n                    resp = AxiResp.SLVERR\n", "                if self.pslverr_present:\n                    resp = AxiResp.SLVERR if int(self.bus.pslverr.value) else AxiResp.OKAY\n")]),
    ("c13-apb2", "C13", [(P, "                if self.pslverr_present and int(self.bus.pslverr.value):\n", "                if self.pslverr_present and pwrite and int(self.bus.pslverr.value):\n")]),
    ("c13-apb3", "C13", [(P, "                    resp = AxiResp.SLVERR\n\n                start = 0", "                    resp = AxiResp.DECERR\n\n                start = 0")]),
    ("c13-first", "C13", [(M, "            if burst_resp != AxiResp.OKAY:\n                resp = burst_resp\n", "            if burst_resp != AxiResp.OKAY and not user:\n                resp = burst_resp\n")]),
    # C03 / C06
    ("c3-nokill", "C03", [(M, "            if self._process_write_resp_cr is not None:\n                self._process_write_resp_cr.kill()\n                self._process_write_resp_cr = None\n", "")]),
    ("c3-wclear", "C03", [(M, "            self.aw_channel.clear()\n            self.w_channel.clear()\n            self.b_channel.clear()\n", "            self.aw_channel.clear()\n            self.w_channel.clear()\n")]),
    ("c3-flushone", "C03", [(L, FL, FL.replace("while not", "if not"))]),
    ("c3-tags", "C03", [(M, "            for cmd in self.tag_context_manager.flush():\n                flush_cmd(cmd)\n\n            self.cur_id = 0\n            self.active_id = Counter()\n\n            self.in_flight_operations = 0\n            self._idle.set()\n        else:\n            self.log.info(\"Reset de-asserted\")\n            if self._process_write_cr is None", "            for cmd in self.tag_context_manager.flush():\n                flush_cmd(cmd)\n\n            self.cur_id = 0\n\n            self.in_flight_operations = 0\n            self._idle.set()\n        else:\n            self.log.info(\"Reset de-asserted\")\n            if self._process_write_cr is None")]),
    ("c3-psel", "C03", [(P, "            self.bus.psel.value = False\n            self.bus.penable.value = False\n\n            if self._run_cr", "            self.bus.psel.value = False\n\n            if self._run_cr")]),
    ("c3-pen", "C03", [(P, "            self.bus.psel.value = False\n            self.bus.penable.value = False\n\n            if self._run_cr is not None:\n                self._run_cr.kill()\n                self._run_cr = None\n\n            def", "            if self._run_cr is not None:\n                self.bus.psel.value = False\n                self.bus.penable.value = False\n                self._run_cr.kill()\n                self._run_cr = None\n            self.bus.penable.value = True\n\n            def")]),
    ("c3-cur", "C03", [(P, "            if self.current_command:\n                cmd = self.current_command\n                self.current_command = None\n                flush_cmd(cmd)\n", "            if self.current_command:\n                cmd = self.current_command\n                flush_cmd(cmd)\n")]),
    ("c3-idle", "C02", [(P, "            self.in_flight_operations = 0\n            self._idle.set()\n        else:", "            self.in_flight_operations = 0\n        else:")]),
    ("c3-resp", "C03", [(M, "        while not self._resp_queue.empty():\n            self._resp_queue.get_nowait()\n        return flushed_cmds", "        return flushed_cmds")]),
    # C04
    ("c4-same", "C04", [(R, "        if self._reset_state != new_state:\n            self._reset_state = new_state\n            self._handle_reset(new_state)", "        if self._reset_state != new_state or new_state:\n            self._reset_state = new_state\n            self._handle_reset(new_state)")]),
    ("c4-ext", "C04", [(R, "                self._ext_reset = not active_level\n                self._update_reset()", "                self._ext_reset = not active_level\n                self._local_reset = False\n                self._update_reset()")]),
    ("c4-val", "C04", [(R, "            self._local_reset = bool(val)\n", "            self._local_reset = bool(val) or self._ext_reset\n")]),
    # C11
    ("c11-end", "C11", [(M, ("address+len(data) > 2**self.address_width", 1), "address+len(data) >= 2**self.address_width")]),
    ("c11-rlen", "C11", [(M, ("        if length < 0:\n", 2), "        if length <= 0:\n")]),
    ("c11-fix", "C11", [(M, ("burst != AxiBurstType.FIXED and address+len(data)", 2), "burst == AxiBurstType.INCR and address+len(data)")]),
    ("c11-qos", "C11", [(M, ("if not self.awqos_present and qos != 0:", 2), "if not self.awqos_present and qos > 1:")]),
    ("c11-cache", "C11", [(M, ("if not self.arcache_present and cache != 0b0011:", 1), "if not self.arcache_present and cache & 0b1100:")]),
    ("c11-after", "C11", [(P, "        if not self.pprot_present and prot != AxiProt.NONSECURE:\n            raise ValueError(\"arprot sideband signal value specified, but signal is not connected\")\n\n        event = Event()\n\n        self.in_flight_operations += 1\n        self._idle.clear()\n", "        event = Event()\n\n        self.in_flight_operations += 1\n        self._idle.clear()\n\n        if not self.pprot_present and prot != AxiProt.NONSECURE:\n            raise ValueError(\"arprot sideband signal value specified, but signal is not connected\")\n")]),
    ("c11-size", "C11", [(M, ("        elif size > self.max_burst_size:\n", 1), "        elif size >= self.max_burst_size+1 and size < 8:\n")]),
    ("c11-event", "C11", [(L, ("        if not isinstance(event, Event):\n", 1), "        if event and not isinstance(event, Event):\n")]),
    # C10
    ("c10-cache", "C10", [(M, "                    aw.awcache = cmd.cache\n", "                    aw.awcache = cmd.cache if burst_length > 1 else cmd.cache & 0b0011\n")]),
    ("c10-reg", "C10", [(M, "                    aw.awregion = cmd.region\n", "                    aw.awregion = cmd.region if transfer_count == 1 else 0\n")]),
    ("c10-wuser", "C10", [(M, "                        w.wuser = wuser[k]\n", "                        w.wuser = wuser[n-1]\n")]),
    ("c10-wuser2", "C10", [(M, "                    if wuser and k < len(wuser):\n", "                    if wuser and k < len(wuser)-1:\n")]),
    ("c10-rd", "C10", [(M, "return self.read_if.init_read(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)", "return self.read_if.init_read(address, length, arid, burst, size, lock, cache, prot, region, qos, user, event)")]),
    ("c10-apb", "C10", [(P, "                if self.pprot_present:\n                    self.bus.pprot.value = cmd.prot\n", "                if self.pprot_present and k == 0 and pwrite:\n                    self.bus.pprot.value = cmd.prot\n")]),
    ("c10-id0", "C10", [(M, ("            if cmd.awid is not None:\n", 1), "            if cmd.awid:\n")]),
    # C01
    ("c1-size", "C16", [(M, "                    cur_addr = aligned_addr + num_bytes\n", "                    cur_addr += num_bytes\n")]),
    ("c1-4k", "C16", [(M, ("0x1000-(cur_addr & 0xfff)", 1), "0x1000-(cmd.address & 0xfff)")]),
]
