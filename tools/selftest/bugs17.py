"""faults of slaves, APB, dumps and pauses, written from the property texts"""
W = "axi_slave.py"
L = "axil_slave.py"
P = "apb.py"
A = "axis.py"
S = "stream.py"
M = "axi_master.py"
LM = "axil_master.py"
U = "utils.py"
Y = "memory.py"
AS = "address_space.py"
BUGS = [
    # C14
    ("e14-retry", "C14", [(W, "                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n", "                except ValueError:\n                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n")]),
    ("e14-base", "C14", [(L, "            except Exception:\n                self.log.warning(\"Read operation failed\")\n", "            except (ValueError, IndexError, OSError):\n                self.log.warning(\"Read operation failed\")\n")]),
    ("e14-ok", "C14", [(W, "            for n in range(length):\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                w = await", "            for n in range(length):\n                b.bresp = AxiResp.OKAY\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                w = await")]),
    ("e14-brk", "C14", [(W, "                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n\n                r.rdata = int.from_bytes(data, 'little')\n\n                await self.r_channel.send(r)\n", "                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n\n                r.rdata = int.from_bytes(data, 'little')\n\n                await self.r_channel.send(r)\n                if r.rresp != AxiResp.OKAY:\n                    break\n")]),
    ("e14-nowait", "C14", [(W, "            await self.b_channel.send(b)\n", "            if not self.b_channel.full():\n                self.b_channel.send_nowait(b)\n            else:\n                cocotb.start_soon(self.b_channel.send(b))\n")]),
    ("e14-id", "C14", [(W, "            b.bid = awid\n", "            b.bid = awid & 0xff\n")]),
    ("e14-rid", "C14", [(W, "            arid = int(getattr(ar, 'arid', 0))\n", "            arid = int(getattr(ar, 'arid', 0)) if hasattr(self.bus.ar, 'arlen') else 0\n")]),
    ("e14-apb", "C14", [(P, "                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    pslverr = True\n", "                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    pslverr = len(write_ops) > 0 and addr == write_ops[-1][0]\n")]),
    ("e14-lerr", "C14", [(L, "                self.log.warning(\"Write operation failed\")\n                b.bresp = AxiResp.SLVERR\n", "                self.log.warning(\"Write operation failed\")\n                b.bresp = AxiResp.SLVERR if strb else AxiResp.OKAY\n                if strb != self.strb_mask:\n                    b.bresp = AxiResp.OKAY\n")]),
    # C15
    ("e15-last", "C15", [(W, "                assert last == (n == length-1)\n", "                assert last or n != length-1\n")]),
    ("e15-4k", "C15", [(W, ("                assert 0x1000-(aligned_addr & 0xfff) >= transfer_size\n", -1), "                assert 0x1000-(addr & 0xfff) >= transfer_size or length == 1\n")]),
    ("e15-4kx", "C15", [(W, ("                assert 0x1000-(aligned_addr & 0xfff) >= transfer_size\n", -1), "                assert 0x1000-(aligned_addr & 0xfff) > transfer_size or length == 1\n")]),
    ("e15-size", "C15", [(W, ("            assert 0 < num_bytes <= self.byte_lanes\n", -1), "            assert 0 < num_bytes <= max(self.byte_lanes, 8)\n")]),
    ("e15-rlast", "C15", [(M, "                    assert int(r.rlast) == (k == cycles-1)\n", "                    assert not int(r.rlast) or k == cycles-1\n")]) if False else ("e15-none", "C15", [(W, "                last = int(w.wlast)\n", "                last = int(w.wlast) if length > 1 else 1\n")]),
    # C19
    ("e19-wrap", "C19", [(W, ("                lower_wrap_boundary = (addr // transfer_size) * transfer_size\n", -1), "                lower_wrap_boundary = (addr // (self.byte_lanes*length)) * (self.byte_lanes*length)\n")]),
    ("e19-strb", "C19", [(W, "                        start_offset = None\n\n                    offset += 1\n\n                if start_offset is not None and", "                        start_offset = None\n\n                    offset += 1\n\n                if start_offset is not None and strb >> 1 and")]),
    ("e19-lstrb", "C19", [(L, "                strb = int(getattr(w, 'wstrb', self.strb_mask))\n", "                strb = int(getattr(w, 'wstrb', self.strb_mask)) or self.strb_mask\n")]),
    ("e19-apb", "C19", [(P, "            addr = (int(self.bus.paddr.value) // self.byte_lanes) * self.byte_lanes\n", "            addr = int(self.bus.paddr.value)\n")]),
    ("e19-big", "C19", [(W, "                r.rdata = int.from_bytes(data, 'little')\n", "                r.rdata = int.from_bytes(data[:num_bytes] if num_bytes < self.byte_lanes and cur_addr == cur_word_addr else data, 'little')\n")]),
    ("e19-wr1", "C19", [(W, ("                        if cur_addr == upper_wrap_boundary:\n", 1), "                        if cur_addr > upper_wrap_boundary:\n")]),
    # C20
    ("e20-en", "C20", [(P, "                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int", "                await clock_edge_event\n                self.bus.penable.value = True\n\n                if k == 0:\n                    await clock_edge_event\n                while not int")]),
    ("e20-sel", "C20", [(P, "                    read_data.append((cycle_data >> j*8) & 0xff)\n\n                self.bus.psel.value = False\n", "                    read_data.append((cycle_data >> j*8) & 0xff)\n\n                self.bus.psel.value = k < cycles-1\n")]),
    ("e20-dat", "C20", [(P, "                self.bus.pwdata.value = val\n", "                if pwrite:\n                    self.bus.pwdata.value = val\n")]) if False else
    ("e20-prot", "C20", [(P, "                if self.pprot_present:\n                    self.bus.pprot.value = cmd.prot\n\n                self.bus.pwrite", "                if self.pprot_present and k == 0:\n                    self.bus.pprot.value = cmd.prot\n\n                self.bus.pwrite")]) if False else
    ("e20-rst", "C03", [(P, "            self.bus.psel.value = False\n            self.bus.penable.value = False\n\n            if self._run_cr", "            self.bus.psel.value = False\n\n            if self._run_cr")]),
    ("e20-err", "C20", [(P, "                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n", "                await clock_edge_event\n                if self.pslverr_present and int(self.bus.pslverr.value):\n                    resp = AxiResp.SLVERR\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n")]),
    ("e20-slv", "C20", [(P, "            if not int(self.bus.penable.value):\n                self.log.warning(\"penable not asserted\")\n\n            self.bus.pready.value = False\n", "            if not int(self.bus.penable.value):\n                self.log.warning(\"penable not asserted\")\n                await clock_edge_event\n\n            self.bus.pready.value = False\n")]),
    ("e20-ps", "C14", [(P, "            pslverr = False\n\n            while self.pause:\n", "            pslverr = self.pslverr_present and bool(int(self.bus.pslverr.value))\n\n            while self.pause:\n")]),
    ("e20-strb", "C17", [(P, "                else:\n                    strb = 0\n\n                while self.pause", "                elif cycles > 1:\n                    strb = 0\n\n                while self.pause")]),
    # C33
    ("e33-apb", "C33", [(P, "                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n", "                while k == 0 and self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n")]),
    ("e33-slv", "C33", [(P, "            while self.pause:\n                await clock_edge_event\n\n            if (int(", "            while self.pause and not int(self.bus.penable.value):\n                await clock_edge_event\n\n            if (int(")]),
    ("e33-if", "C33", [(P, "            while self.pause:\n                await clock_edge_event\n\n            if (int(", "            if self.pause:\n                await clock_edge_event\n\n            if (int(")]),
    ("e33-gen", "C33", [(S, "        for val in self._pause_generator:\n            self.pause = val\n            await clock_edge_event\n", "        for val in self._pause_generator:\n            self.pause = val\n            await clock_edge_event\n        self.pause = False\n")]),
    ("e33-set", "C33", [(S, "        if self._pause != val:\n            self._pause_update(val)\n        self._pause = val\n", "        if self._pause != val:\n            self._pause_update(val)\n            self._pause = bool(val) and not self.empty() if hasattr(self, 'active_event') else bool(val)\n")]),
    ("e33-kill", "C33", [(P, "        if self._pause_cr is not None:\n            self._pause_cr.kill()\n            self._pause_cr = None\n\n        self._pause_generator = generator\n", "        if self._pause_cr is not None and generator is None:\n            self._pause_cr.kill()\n            self._pause_cr = None\n\n        self._pause_generator = generator\n")]),
    # C34
    ("e34-mid", "C34", [(A, ("                    frame.sim_time_end = get_sim_time()\n", -1), "                    frame.sim_time_end = get_sim_time() if len(frame.tdata) > self.byte_lanes else frame.sim_time_start\n")]),
    ("e34-cpy", "C34", [(A, "            self.sim_time_start = tdata.sim_time_start\n", "            self.sim_time_start = tdata.sim_time_start or None\n")]),
    ("e34-clr", "C34", [(A, ("                frame.sim_time_end = None\n", 1), "                frame.sim_time_end = frame.sim_time_start\n")]),
    # C36
    ("e36-len0", "C36", [(U, ("    stop = min(start+length, len(data)) if length else len(data)\n", 1), "    stop = min(start+length, len(data)-1) if length else len(data)\n")]),
    ("e36-asc", "C36", [(U, "        c += chr(ch) if 32 < ch < 127 else \".\"\n", "        c += chr(ch) if 32 < ch <= 127 else \".\"\n")]),
    ("e36-off", "C36", [(U, "        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n", "        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k-start+offset, row_size))\n")]),
    # C17
    ("e17-lstrb", "C17", [(LM, ("            strb_end = self.strb_mask >> (self.byte_lanes - end_offset)\n", 1), "            strb_end = self.strb_mask >> (self.byte_lanes - end_offset) if len(cmd.data) > 1 else self.strb_mask\n")]),
    ("e17-apb", "C17", [(P, "                if k == 0:\n                    start = start_offset\n                if k == cycles-1:\n                    stop = end_offset\n\n                for j in range(start, stop):\n                    read_data", "                if k == 0:\n                    start = start_offset\n                elif k == cycles-1:\n                    stop = end_offset\n\n                for j in range(start, stop):\n                    read_data")]),
    # C16
    ("e16-apb", "C16", [(P, "                    self.bus.paddr.value = word_addr + k*self.byte_lanes\n", "                    self.bus.paddr.value = cmd.address + k*self.byte_lanes\n")]),
    ("e16-cyc", "C16", [(LM, ("            cycles = (len(cmd.data) + (cmd.address % self.byte_lanes) + self.byte_lanes-1) // self.byte_lanes\n", 1), "            cycles = max((len(cmd.data) + (cmd.address % self.byte_lanes) + self.byte_lanes-1) // self.byte_lanes, 1)\n")]),
    ("e16-rc", "C16", [(LM, "AxiLiteWriteRespCmd(cmd.address, len(cmd.data), cycles, cmd.prot, cmd.event)", "AxiLiteWriteRespCmd(cmd.address, len(cmd.data), max(cycles, 1), cmd.prot, cmd.event)")]),
    # C12
    ("e12-apb", "C12", [(P, "                if self.pslverr_present and int(self.bus.pslverr.value):\n", "                if (self.pslverr_present or not self.pprot_present) and int(self.bus.pslverr.value):\n")]),
    ("e12-axis", "C12", [(A, ("                    if has_tuser:\n", 1), "                    if has_tuser or has_tdest:\n")]),
    # C35
    ("e35-apb", "C35", [(P, ("            assert self.byte_lanes == len(self.bus.pstrb)\n", 1), "            assert self.byte_lanes <= len(self.bus.pstrb)\n")]),
    ("e35-lane", "C35", [(W, ("        assert self.byte_lanes * self.byte_size == self.width\n", 1), "        assert self.byte_lanes * self.byte_size <= self.width\n")]),
    ("e20-if", "C20", [(P, "                    read_data.append((cycle_data >> j*8) & 0xff)\n\n                self.bus.psel.value = False\n", "                    read_data.append((cycle_data >> j*8) & 0xff)\n\n                if k == cycles-1:\n                    self.bus.psel.value = False\n")]),
]
