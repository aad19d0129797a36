S = "axi_slave.py"
L = "axil_slave.py"
P = "apb.py"
BUGS = [
    ("v-id", "C14", [(S, "            b.bid = awid", "            b.bid = 0")]),
    ("v-idonce", "C14", [(S, "                r.rid = arid\n                r.rlast = n == length-1\n", "                r.rlast = n == length-1\n                if r.rlast:\n                    r.rid = arid\n")]),
    ("v-last", "C14", [(S, "r.rlast = n == length-1", "r.rlast = n == length-2 or length == 1")]),
    ("v-lastfix", "C14", [(S, "r.rlast = n == length-1", "r.rlast = (n & 0xf) == ((length-1) & 0xf)")]),
    ("v-len", "C14", [(S, "            for n in range(length):\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                r =", "            for n in range(length if burst != AxiBurstType.FIXED else min(length, 16)):\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                r =")]),
    ("v-brk", "C14", [(S, "                    r.rresp = AxiResp.SLVERR\n\n                r.rdata = int.from_bytes(data, 'little')\n\n                await self.r_channel.send(r)\n", "                    r.rresp = AxiResp.SLVERR\n\n                r.rdata = int.from_bytes(data, 'little')\n\n                await self.r_channel.send(r)\n\n                if r.rresp != AxiResp.OKAY:\n                    break\n")]),
    ("v-okay", "C14", [(S, "                # perform writes\n                try:\n", "                # perform writes\n                b.bresp = AxiResp.OKAY\n                try:\n")]),
    ("v-else", "C14", [(S, "                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n", "                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n                else:\n                    b.bresp = AxiResp.OKAY\n")]),
    ("v-exc", "C14", [(S, "                except Exception:\n                    self.log.warning(\"Read operation failed\")", "                except ValueError:\n                    self.log.warning(\"Read operation failed\")")]),
    ("v-noerr", "C14", [(S, "                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n", "                    data = bytes(self.byte_lanes)\n")]),
    ("v-exok", "C14", [(S, "                    b.bresp = AxiResp.SLVERR\n", "                    b.bresp = AxiResp.EXOKAY\n")]),
    ("v-ordr", "C14", [(S, "                try:\n                    data = await self._read(cur_word_addr, self.byte_lanes)\n                except Exception:\n                    self.log.warning(\"Read operation failed\")\n                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n\n", "                try:\n                    data = await self._read(cur_word_addr, self.byte_lanes)\n                except Exception:\n                    self.log.warning(\"Read operation failed\")\n                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n                r.rresp = AxiResp.OKAY\n\n")]),
    ("v-inloop", "C14", [(S, "                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n\n            await self.b_channel.send(b)", "                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n\n                if last:\n                    await self.b_channel.send(b)")]),
    ("v-early", "C14", [(L, "            # perform writes\n            try:\n", "            await self.b_channel.send(b)\n\n            # perform writes\n            try:\n"), (L, "                b.bresp = AxiResp.SLVERR\n\n            await self.b_channel.send(b)", "                b.bresp = AxiResp.SLVERR\n")]),
    ("v-skip", "C14", [(L, "            # generate operation list\n", "            if not strb:\n                continue\n\n            # generate operation list\n")]),
    ("v-ltry", "C14", [(L, "            # perform writes\n            try:\n                for addr, data in write_ops:\n                    await self._write(addr, data)\n            except Exception:\n                self.log.warning(\"Write operation failed\")\n                b.bresp = AxiResp.SLVERR\n", "            # perform writes\n            for addr, data in write_ops:\n                try:\n                    await self._write(addr, data)\n                    b.bresp = AxiResp.OKAY\n                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n")]),
    ("v-ret", "C14", [(L, "                data = bytes(self.byte_lanes)\n                r.rresp = AxiResp.SLVERR\n", "                data = bytes(self.byte_lanes)\n                r.rresp = AxiResp.SLVERR\n                await self.r_channel.send(r)\n                return\n")]),
    ("v-dup", "C14", [(L, "                data = bytes(self.byte_lanes)\n                r.rresp = AxiResp.SLVERR\n", "                data = bytes(self.byte_lanes)\n                r.rresp = AxiResp.SLVERR\n                await self.r_channel.send(r)\n")]),
    ("v-apb", "C14", [(P, "                    data = bytes(self.byte_lanes)\n                    pslverr = True\n", "                    data = bytes(self.byte_lanes)\n")]),
    ("v-apbsticky", "C14", [(P, "            pslverr = False\n\n            while self.pause", "            while self.pause"), (P, "        self.bus.pready.value = False\n\n        while True:\n            await clock_edge_event\n\n            if not int(self.bus.psel", "        self.bus.pready.value = False\n        pslverr = False\n\n        while True:\n            await clock_edge_event\n\n            if not int(self.bus.psel")]),
    ("v-apbord", "C14", [(P, "            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready.value = True\n            await clock_edge_event\n", "            self.bus.pready.value = True\n            await clock_edge_event\n            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n")]),
    ("v-wtry", "C14", [(S, "                for i in range(self.byte_lanes):\n                    if strb & (1 << i):", "                await self._write(cur_word_addr, b'')\n\n                for i in range(self.byte_lanes):\n                    if strb & (1 << i):")]),
]
ASR = "                assert 0x1000-(aligned_addr & 0xfff) >= transfer_size"
BUGS += [
    ("v-c15size", "C15", [(S, "            assert 0 < num_bytes <= self.byte_lanes\n", "            assert 0 < num_bytes\n")]),
    ("v-c15lt", "C15", [(S, "            assert 0 < num_bytes <= self.byte_lanes\n", "            assert 0 < num_bytes < self.byte_lanes\n")]),
    ("v-c154k", "C15", [(S, ASR, "                assert 0x1000-(aligned_addr & 0xfff) > transfer_size")]),
    ("v-c154k2", "C15", [(S, ASR, "                assert 0x1000-(addr & 0xfff) >= length")]),
    ("v-c15un", "C15", [(S, ASR, "                assert 0x1000-(addr & 0xfff) >= transfer_size")]),
    ("v-c15wrap", "C15", [(S, "            if burst == AxiBurstType.INCR:\n                # check 4k boundary crossing\n"+ASR, "            if burst != AxiBurstType.WRAP:\n                # check 4k boundary crossing\n"+ASR)]),
    ("v-c15last", "C15", [(S, "                assert last == (n == length-1)\n", "                if n == length-1:\n                    assert last\n")]),
    ("v-c15last2", "C15", [(S, "                assert last == (n == length-1)\n", "                assert last or n < length-1\n")]),
    ("v-c15last3", "C15", [(S, "                assert last == (n == length-1)\n", "                assert last == (n % 16 == (length-1) % 16)\n")]),
    ("v-c15try", "C15", [(S, "                assert last == (n == length-1)\n\n", ""), (S, "                try:\n                    for addr, data in write_ops:", "                try:\n                    assert last == (n == length-1)\n                    for addr, data in write_ops:")]),
    ("v-fixed", "C19", [(S, ("                if burst != AxiBurstType.FIXED:\n                    cur_addr += num_bytes\n\n                    if burst == AxiBurstType.WRAP:\n                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n", 1), "                cur_addr += num_bytes\n\n                if burst == AxiBurstType.WRAP:\n                    if cur_addr == upper_wrap_boundary:\n                        cur_addr = lower_wrap_boundary\n")]),
    ("v-wrapgt", "C19", [(S, "if cur_addr == upper_wrap_boundary:", "if cur_addr > upper_wrap_boundary:")]),
    ("v-wraplo", "C19", [(S, "cur_addr = lower_wrap_boundary", "cur_addr = aligned_addr")]),
    ("v-wrapbase", "C19", [(S, "lower_wrap_boundary = (addr // transfer_size) * transfer_size", "lower_wrap_boundary = (addr // self.byte_lanes) * self.byte_lanes")]),
    ("v-wraplen", "C19", [(S, "                upper_wrap_boundary = lower_wrap_boundary + transfer_size", "                upper_wrap_boundary = lower_wrap_boundary + transfer_size - num_bytes")]),
    ("v-step", "C19", [(S, "cur_addr += num_bytes", "cur_addr += self.byte_lanes")]),
    ("v-word", "C19", [(S, "cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes", "cur_word_addr = (cur_addr // num_bytes) * num_bytes")]),
    ("v-big", "C19", [(S, "r.rdata = int.from_bytes(data, 'little')", "r.rdata = int.from_bytes(data, 'big')")]),
    ("v-wbig", "C19", [(S, "data = data.to_bytes(self.byte_lanes, 'little')", "data = data.to_bytes(self.byte_lanes, 'big')")]),
    ("v-rlen", "C19", [(S, "data = await self._read(cur_word_addr, self.byte_lanes)", "data = await self._read(cur_word_addr, num_bytes)")]),
    ("v-bit", "C19", [(L, "                if strb & (1 << i):", "                if strb & (1 << (i & 7)):")]),
    ("v-runreset", "C19", [(L, "                        write_ops.append((addr+start_offset, data[start_offset:offset]))\n                    start_offset = None\n", "                        write_ops.append((addr+start_offset, data[start_offset:offset]))\n                        start_offset = offset\n")]),
    ("v-end", "C19", [(L, "            if start_offset is not None and offset != start_offset:\n                write_ops.append((addr+start_offset, data[start_offset:offset]))\n\n            # perform", "            if start_offset is not None and offset != self.byte_lanes:\n                write_ops.append((addr+start_offset, data[start_offset:offset]))\n\n            # perform")]),
    ("v-off", "C19", [(L, "write_ops.append((addr+start_offset, data[start_offset:offset]))", "write_ops.append((addr+start_offset, data[start_offset:offset+1]))")]),
    ("v-data", "C19", [(P, "write_ops.append((addr+start_offset, data[start_offset:offset]))", "write_ops.append((addr+start_offset, data[:offset-start_offset]))")]),
    ("v-lanes", "C19", [(P, "                for i in range(self.byte_lanes):\n", "                for i in range(min(self.byte_lanes, 4)):\n")]),
    ("v-mask", "C19", [(P, "                else:\n                    strb = self.strb_mask\n", "                else:\n                    strb = 1\n")]),
    ("v-addr", "C19", [(P, "            addr = (int(self.bus.paddr.value) // self.byte_lanes) * self.byte_lanes", "            addr = int(self.bus.paddr.value)")]),
    ("v-first", "C19", [(S, "                    for addr, data in write_ops:", "                    for addr, data in write_ops[:1]:")]),
    ("v-brkw", "C19", [(S, "                        await self._write(addr, data)\n", "                        await self._write(addr, data)\n                        break\n")]),
    ("v-noop", "C19", [(S, "                        if start_offset is None:\n                            start_offset = offset\n                    else:", "                        start_offset = offset\n                    else:")]),
    ("v-lastop", "C19", [(S, "                if start_offset is not None and offset != start_offset:\n                    write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))\n\n                # perform", "                if start_offset is not None and offset != start_offset:\n                    write_ops = [(cur_word_addr+start_offset, data[start_offset:offset])]\n\n                # perform")]),
    ("v-laddr", "C19", [(L, "data = await self._read(addr, self.byte_lanes)", "data = await self._read(addr & ~3, self.byte_lanes)")]),
]
