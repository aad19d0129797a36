M = "axi_master.py"
L = "axil_master.py"
A = "apb.py"
REFACTORS = [
    ("b-page", [(M, """                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes

                    burst_list.append(burst_length)

                    aw =""", """                    room = 0x1000 - cur_addr % 0x1000
                    beats = -(-room // num_bytes)
                    if burst_length > beats:
                        burst_length = beats

                    burst_list.append(burst_length)

                    aw =""")]),
    ("b-page2", [(M, """                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes

                    burst_list.append(burst_length)

                    ar =""", """                    page_end = (cur_addr | 0xfff) + 1
                    first_word = cur_addr // num_bytes
                    burst_length = min(burst_length, page_end // num_bytes - first_word)

                    burst_list.append(burst_length)

                    ar =""")]),
    ("b-count", [(M, "                n += 1\n                if n >= burst_length:\n                    n = 0\n", "                if n == 0:\n"), (M, "                    burst_list.append(burst_length)\n\n                    ar =", "                    n = burst_length\n                    burst_list.append(n)\n\n                    ar ="),
                 (M, "                if cmd.burst == AxiBurstType.FIXED:\n                    cur_addr = cmd.address\n                elif k == 0:\n                    cur_addr = aligned_addr + num_bytes\n                else:\n                    cur_addr += num_bytes\n\n            resp_cmd", "                n -= 1\n\n                if cmd.burst != AxiBurstType.FIXED:\n                    cur_addr = aligned_addr + (k+1)*num_bytes\n\n            resp_cmd")]),
    ("b-while", [(M, "            for k in range(cycles):\n                start = cycle_offset\n", "            k = 0\n            while k < cycles:\n                start = cycle_offset\n"), (M, "                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n            resp_cmd", "                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n                k += 1\n\n            resp_cmd")]),
    ("b-down", [(M, "            for k in range(cycles):\n\n                n += 1", "            remaining = cycles\n            while remaining > 0:\n                k = cycles - remaining\n                n += 1"), (M, "                else:\n                    cur_addr += num_bytes\n\n            resp_cmd = AxiReadRespCmd", "                else:\n                    cur_addr += num_bytes\n\n                remaining -= 1\n\n            resp_cmd = AxiReadRespCmd")]),
    ("b-lastk", [(M, "w.wlast = n >= burst_length", "w.wlast = int(n == burst_length)")]),
    ("b-maxattr", [(M, "                    burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))\n                    # FIXED bursts are limited to 16 transfers\n                    if cmd.burst == AxiBurstType.FIXED:\n                        burst_length = min(burst_length, 16)\n                    # split on 4k address boundary\n                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes\n\n                    burst_list.append(burst_length)\n\n                    ar", "                    cap = 16 if cmd.burst == AxiBurstType.FIXED else 256\n                    limit = self.max_burst_len if self.max_burst_len > 0 else 1\n                    burst_length = min(cycles-k, cap, limit, (0x1000-(cur_addr & 0xfff)+num_bytes-1)//num_bytes)\n\n                    burst_list.append(burst_length)\n\n                    ar")]),
    ("b-laddr", [(L, "                if k == 0:\n                    ar.araddr = cmd.address\n                else:\n                    ar.araddr = word_addr + k*self.byte_lanes\n", "                ar.araddr = cmd.address if not k else word_addr + k*self.byte_lanes\n")]),
    ("b-laddr2", [(L, "            for k in range(cycles):\n                ar = self.ar_channel._transaction_obj()\n                if k == 0:\n                    ar.araddr = cmd.address\n                else:\n                    ar.araddr = word_addr + k*self.byte_lanes\n                ar.arprot = cmd.prot\n\n                await self.ar_channel.send(ar)\n", "            addr = cmd.address\n            for k in range(cycles):\n                ar = self.ar_channel._transaction_obj()\n                ar.araddr = addr\n                ar.arprot = cmd.prot\n\n                await self.ar_channel.send(ar)\n                addr = word_addr + (k+1)*self.byte_lanes\n")]),
    ("b-helper", [(M, "    async def _process_read(self):\n", "    def _beats(self, address, length, num_bytes):\n        return (length + num_bytes-1 + (address % num_bytes)) // num_bytes\n\n    async def _process_read(self):\n"), (M, "cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes", "cycles = self._beats(cmd.address, cmd.length, num_bytes)")]),
    ("b-acyc", [(A, "cycles = (length + (cmd.address % self.byte_lanes) + self.byte_lanes-1) // self.byte_lanes", "cycles = (cmd.address + length - 1) // self.byte_lanes - cmd.address // self.byte_lanes + 1")]),
    ("b-shift", [(M, "            num_bytes = 2**cmd.size\n\n            aligned_addr = (cmd.address // num_bytes) * num_bytes\n\n            cycles", "            num_bytes = 1 << cmd.size\n\n            aligned_addr = cmd.address & ~(num_bytes-1)\n\n            cycles")]),
    ("b-resplen", [(M, "        for burst_length in cmd.burst_list:\n            b = await", "        for i in range(len(cmd.burst_list)):\n            burst_length = cmd.burst_list[i]\n            b = await")]),
    ("b-respwhile", [(L, "            for k in range(cmd.cycles):\n                b = await", "            remaining = cmd.cycles\n            while remaining:\n                remaining -= 1\n                b = await")]),
    ("l-frombytes", [(L, "                val = 0\n                for j in range(start, stop):\n                    val |= cmd.data[offset] << j*8\n                    offset += 1\n", "                val = int.from_bytes(cmd.data[offset:offset+stop-start], 'little') << start*8\n                offset += stop-start\n")]),
    ("l-frombytes2", [(M, "                val = 0\n                for j in range(start, stop):\n                    val |= cmd.data[offset] << j*8\n                    offset += 1\n", "                count = stop - start\n                val = int.from_bytes(cmd.data[offset:offset+count], 'little') << (8*start)\n                offset += count\n")]),
    ("l-strb", [(M, "strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))", "strb = ((1 << (stop-start)) - 1) << start")]),
    ("l-strbloop", [(L, "                val = 0\n                for j in range(start, stop):\n                    val |= cmd.data[offset] << j*8\n", "                val = 0\n                strb = 0\n                for j in range(start, stop):\n                    strb |= 1 << j\n                    val |= cmd.data[offset] << j*8\n")]),
    ("l-rslice", [(L, "                for j in range(start, stop):\n                    data.append((cycle_data >> j*8) & 0xff)\n", "                data.extend(cycle_data.to_bytes(self.byte_lanes, 'little')[start:stop])\n")]),
    ("l-rslice2", [(M, "                for j in range(start, stop):\n                    data.append((cycle_data >> j*8) & 0xff)\n\n                if cmd.burst", "                data += cycle_data.to_bytes(self.byte_lanes, 'little')[start:stop]\n\n                if cmd.burst")]),
    ("l-rfirst", [(M, "                if first:\n                    start = start_offset\n\n                for j in range(start, stop):\n                    data", "                if not data:\n                    start = start_offset\n\n                for j in range(start, stop):\n                    data")]),
    ("l-while", [(M, "                for j in range(start, stop):\n                    val |= cmd.data[offset] << j*8\n                    offset += 1\n", "                j = start\n                while j < stop:\n                    val |= cmd.data[offset] << j*8\n                    offset += 1\n                    j += 1\n")]),
    ("l-cycaddr", [(M, "                start = cycle_offset\n                stop = cycle_offset+num_bytes\n\n                if k == 0:\n                    start = start_offset\n", "                start = cur_addr % self.byte_lanes\n                stop = cycle_offset+num_bytes\n")]),
    ("l-helper", [(A, "    async def _run(self):\n        clock_edge_event = RisingEdge(self.clock)\n\n        await clock_edge_event\n", "    def _lane_mask(self, start, stop):\n        return ((1 << stop) - 1) & ~((1 << start) - 1)\n\n    async def _run(self):\n        clock_edge_event = RisingEdge(self.clock)\n\n        await clock_edge_event\n"), (A, "                if k == 0:\n                    start = start_offset\n                    strb &= strb_start\n                if k == cycles-1:\n                    stop = end_offset\n                    strb &= strb_end\n", "                if k == 0:\n                    start = start_offset\n                if k == cycles-1:\n                    stop = end_offset\n                strb = self._lane_mask(start, stop)\n")]),
    ("l-enum", [(A, "                        val |= cmd.data[offset] << j*8\n                        offset += 1\n", "                        val += cmd.data[offset] * 256**j\n                        offset = offset + 1\n")]),
]
