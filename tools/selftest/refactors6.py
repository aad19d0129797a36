S = "axi_slave.py"
L = "axil_slave.py"
P = "apb.py"
OLDW = "            cur_addr = aligned_addr\n\n            b = self.b_channel._transaction_obj()\n            b.bid = awid\n            b.bresp = AxiResp.OKAY\n"
REFACTORS = [
    ("v-respvar", [(S, OLDW, "            cur_addr = aligned_addr\n\n            resp = AxiResp.OKAY\n"), (S, "                    b.bresp = AxiResp.SLVERR\n", "                    resp = AxiResp.SLVERR\n"), (S, "            await self.b_channel.send(b)", "            b = self.b_channel._transaction_obj()\n            b.bid = awid\n            b.bresp = resp\n            await self.b_channel.send(b)")]),
    ("v-failed", [(S, OLDW, "            cur_addr = aligned_addr\n\n            failed = False\n"), (S, "                    b.bresp = AxiResp.SLVERR\n", "                    failed = True\n"), (S, "            await self.b_channel.send(b)", "            b = self.b_channel._transaction_obj()\n            b.bid = awid\n            b.bresp = AxiResp.SLVERR if failed else AxiResp.OKAY\n            await self.b_channel.send(b)")]),
    ("v-while", [(S, "            for n in range(length):\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                r =", "            n = 0\n            while n < length:\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                r ="), (S, "                r.rlast = n == length-1\n", "                n += 1\n                r.rlast = n == length\n")]),
    ("v-len", [(S, "            length = int(getattr(ar, 'arlen', 0))\n", "            length = int(getattr(ar, 'arlen', 0)) + 1\n"), (S, "arid, addr, length, size, prot)\n\n            num_bytes = 2**size\n            assert 0 < num_bytes <= self.byte_lanes\n\n            aligned_addr = (addr // num_bytes) * num_bytes\n            length += 1\n", "arid, addr, length-1, size, prot)\n\n            num_bytes = 1 << size\n            assert num_bytes > 0\n            assert num_bytes <= self.byte_lanes\n\n            aligned_addr = addr - addr % num_bytes\n")]),
    ("v-helper", [(S, "                try:\n                    data = await self._read(cur_word_addr, self.byte_lanes)\n                except Exception:\n                    self.log.warning(\"Read operation failed\")\n                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n", "                data, r.rresp = await self._fetch(cur_word_addr)\n"), (S, "                r.rresp = AxiResp.OKAY\n\n                data, r", "\n                data, r"), (S, "    async def _process_read(self):", "    async def _fetch(self, addr):\n        try:\n            return await self._read(addr, self.byte_lanes), AxiResp.OKAY\n        except Exception:\n            self.log.warning(\"Read operation failed\")\n            return bytes(self.byte_lanes), AxiResp.SLVERR\n\n    async def _process_read(self):")]),
    ("v-wrapmod", [(S, ("                if burst != AxiBurstType.FIXED:\n                    cur_addr += num_bytes\n\n                    if burst == AxiBurstType.WRAP:\n                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n", -1), "                if burst == AxiBurstType.INCR:\n                    cur_addr += num_bytes\n                elif burst == AxiBurstType.WRAP:\n                    cur_addr = lower_wrap_boundary + (cur_addr + num_bytes - lower_wrap_boundary) % transfer_size\n")]),
    ("v-wrapmask", [(S, ("                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n", -1), "                        if cur_addr >= upper_wrap_boundary:\n                            cur_addr -= transfer_size\n")]),
    ("v-direct", [(S, "            for n in range(length):\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                r =", "            for n in range(length):\n                if burst == AxiBurstType.FIXED:\n                    cur_addr = aligned_addr\n                elif burst == AxiBurstType.WRAP:\n                    cur_addr = lower_wrap_boundary + (aligned_addr - lower_wrap_boundary + n*num_bytes) % transfer_size\n                else:\n                    cur_addr = aligned_addr + n*num_bytes\n                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes\n\n                r ="), (S, "                            arid, cur_addr, ' '.join((f'{c:02x}' for c in data)))\n\n                if burst != AxiBurstType.FIXED:\n                    cur_addr += num_bytes\n\n                    if burst == AxiBurstType.WRAP:\n                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n", "                            arid, cur_addr, ' '.join((f'{c:02x}' for c in data)))\n")]),
    ("v-runs", [(S, "                def_placeholder", "x")] if 0 else [(L, "            offset = 0\n            start_offset = None\n            write_ops = []\n", "            start_offset = None\n            write_ops = []\n"), (L, "            for i in range(self.byte_lanes):\n                if strb & (1 << i):\n                    if start_offset is None:\n                        start_offset = offset\n                else:\n                    if start_offset is not None and offset != start_offset:\n                        write_ops.append((addr+start_offset, data[start_offset:offset]))\n                    start_offset = None\n\n                offset += 1\n\n            if start_offset is not None and offset != start_offset:\n                write_ops.append((addr+start_offset, data[start_offset:offset]))\n", "            for i in range(self.byte_lanes):\n                if (strb >> i) & 1:\n                    if start_offset is None:\n                        start_offset = i\n                elif start_offset is not None:\n                    write_ops.append((addr+start_offset, data[start_offset:i]))\n                    start_offset = None\n\n            if start_offset is not None:\n                write_ops.append((addr+start_offset, data[start_offset:]))\n")]),
    ("v-bytes", [(L, "                if strb & (1 << i):\n                    if start_offset is None:\n                        start_offset = offset\n                else:\n                    if start_offset is not None and offset != start_offset:\n                        write_ops.append((addr+start_offset, data[start_offset:offset]))\n                    start_offset = None\n\n                offset += 1\n\n            if start_offset is not None and offset != start_offset:\n                write_ops.append((addr+start_offset, data[start_offset:offset]))\n", "                if strb & (1 << i):\n                    write_ops.append((addr+i, data[i:i+1]))\n")]),
    ("v-opshelper", [(P, "                # generate operation list\n                offset = 0\n                start_offset = None\n                write_ops = []\n", "                # generate operation list\n"), (P, "                for i in range(self.byte_lanes):\n                    if strb & (1 << i):\n                        if start_offset is None:\n                            start_offset = offset\n                    else:\n                        if start_offset is not None and offset != start_offset:\n                            write_ops.append((addr+start_offset, data[start_offset:offset]))\n                        start_offset = None\n\n                    offset += 1\n\n                if start_offset is not None and offset != start_offset:\n                    write_ops.append((addr+start_offset, data[start_offset:offset]))\n", "                write_ops = self._ops(addr, data, strb)\n"), (P, "    def _handle_reset(self, state):\n        if state:\n            self.log.info(\"Reset asserted\")\n\n            self.bus.pready", "    def _ops(self, addr, data, strb):\n        ops = []\n        start = None\n        for i in range(self.byte_lanes):\n            if strb & (1 << i):\n                if start is None:\n                    start = i\n            else:\n                if start is not None:\n                    ops.append((addr+start, data[start:i]))\n                start = None\n        if start is not None:\n            ops.append((addr+start, data[start:self.byte_lanes]))\n        return ops\n\n    def _handle_reset(self, state):\n        if state:\n            self.log.info(\"Reset asserted\")\n\n            self.bus.pready")]),
    ("v-lastif", [(S, "                assert last == (n == length-1)\n", "                if n == length-1:\n                    assert last\n                else:\n                    assert not last\n")]),
    ("v-lastraise", [(S, "                assert last == (n == length-1)\n", "                if bool(last) != (n == length-1):\n                    raise AssertionError(\"wlast mismatch\")\n")]),
    ("v-apberr", [(P, "            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready.value = True\n            await clock_edge_event\n", "            self.bus.pready.value = True\n            if self.pslverr_present:\n                self.bus.pslverr.value = 1 if pslverr else 0\n            await clock_edge_event\n")]),
    ("v-4k", [(S, ("                assert 0x1000-(aligned_addr & 0xfff) >= transfer_size", -1), "                assert (aligned_addr % 4096) + transfer_size <= 4096")]),
    ("v-4kb", [(S, ("                assert 0x1000-(aligned_addr & 0xfff) >= transfer_size", -1), "                assert aligned_addr >> 12 == (aligned_addr + transfer_size - 1) >> 12")]),
    ("v-wtry", [(L, "            # perform writes\n            try:\n                for addr, data in write_ops:\n                    await self._write(addr, data)\n            except Exception:\n                self.log.warning(\"Write operation failed\")\n                b.bresp = AxiResp.SLVERR\n", "            # perform writes\n            for a, d in write_ops:\n                try:\n                    await self._write(a, d)\n                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n")]),
]
