M = "axi_master.py"
L = "axil_master.py"
A = "apb.py"
W, R = "C16", "C17"
SPLIT = """                    # split on 4k address boundary
                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes

                    burst_list.append(burst_length)

                    %s = self.%s_channel"""
CURW = """                if cmd.burst == AxiBurstType.FIXED:
                    cur_addr = cmd.address
                elif k == 0:
                    cur_addr = aligned_addr + num_bytes
                else:
                    cur_addr += num_bytes

                if cmd.burst"""
CURR = """                if cmd.burst == AxiBurstType.FIXED:
                    cur_addr = cmd.address
                elif k == 0:
                    cur_addr = aligned_addr + num_bytes
                else:
                    cur_addr += num_bytes

            resp_cmd"""


def split(ch, new):
    old = SPLIT % (ch, ch)
    return (M, old, old.replace("(min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes", new))


BUGS = [
    ("b-4kfloor", W, [split("ar", "max(1, min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))//num_bytes)+0"), (M, "                n += 1\n                if n >= burst_length:\n                    n = 0\n\n                    # split on burst length\n                    burst_length = min(cycles-k,", "                n += 1\n                if n >= burst_length:\n                    n = 0\n\n                    # split on burst length\n                    burst_length = min(cycles-k+1,")]),
    ("b-4kmask", W, [split("aw", "(min(burst_length*num_bytes, 0x1000-(cur_addr & 0x7ff))+num_bytes-1)//num_bytes")]),
    ("b-4kbase", W, [split("aw", "(min(burst_length*num_bytes, 0x1000-(cmd.address & 0xfff))+num_bytes-1)//num_bytes")]),
    ("b-4kbig", W, [split("ar", "(min(burst_length*num_bytes, 0x2000-(cur_addr & 0x1fff))+num_bytes-1)//num_bytes")]),
    ("b-4kround", W, [split("ar", "min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff)+num_bytes-1)//num_bytes+(0 if cmd.address % num_bytes == 0 else 1)")]),
    ("b-4kalways", W, [split("aw", "burst_length if cmd.burst == AxiBurstType.INCR and burst_length <= 16 else (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes")]),
    ("b-max257", W, [(M, "                    transfer_count += 1\n                    n = 0\n\n                    # split on burst length\n                    burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))", "                    transfer_count += 1\n                    n = 0\n\n                    # split on burst length\n                    burst_length = min(cycles-k, min(max(self.max_burst_len, 1)+1, 256))")]),
    ("b-nomax", W, [(M, ("self.max_burst_len = max(min(max_burst_len, 256), 1)", 2), "self.max_burst_len = max(max_burst_len, 1)"), (M, ("min(cycles-k, min(max(self.max_burst_len, 1), 256))", 2), "min(cycles-k, max(self.max_burst_len, 1))")]),
    ("b-left", W, [(M, "                    transfer_count += 1\n                    n = 0\n\n                    # split on burst length\n                    burst_length = min(cycles-k, ", "                    transfer_count += 1\n                    n = 0\n\n                    # split on burst length\n                    burst_length = min(cycles, ")]),
    ("b-fixed32", W, [(M, "                        burst_length = min(burst_length, 16)\n                    # split on 4k address boundary\n                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes\n\n                    burst_list.append(burst_length)\n\n                    ar", "                        burst_length = min(burst_length, 32)\n                    # split on 4k address boundary\n                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes\n\n                    burst_list.append(burst_length)\n\n                    ar")]),
    ("b-lastoff", W, [(M, "w.wlast = n >= burst_length", "w.wlast = k == cycles-1")]),
    ("b-lastmax", W, [(M, "w.wlast = n >= burst_length", "w.wlast = n >= min(burst_length, 255)")]),
    ("b-lastfix", W, [(M, "w.wlast = n >= burst_length", "w.wlast = n >= burst_length or (cmd.burst == AxiBurstType.FIXED and n >= 8)")]),
    ("b-len0", W, [(M, "aw.awlen = burst_length-1", "aw.awlen = burst_length-1 if burst_length < 256 else 0")]),
    ("b-noalignw", W, [(M, CURW, CURW.replace("                elif k == 0:\n                    cur_addr = aligned_addr + num_bytes\n", ""))]),
    ("b-noalignr", W, [(M, CURR, CURR.replace("                elif k == 0:\n                    cur_addr = aligned_addr + num_bytes\n", ""))]),
    ("b-fixaddr", W, [(M, CURR, CURR.replace("cur_addr = cmd.address\n", "cur_addr = aligned_addr + (num_bytes if k >= 15 else 0)\n"))]),
    ("b-align0", W, [(M, CURW, CURW.replace("cur_addr = aligned_addr + num_bytes", "cur_addr = word_addr + num_bytes"))]),
    ("b-listmax", W, [(M, "                    burst_list.append(burst_length)\n\n                    ar =", "                    burst_list.append(min(burst_length, 255))\n\n                    ar =")]),
    ("b-listlate", W, [(M, "                    burst_list.append(burst_length)\n\n                    ar =", "                    if k or cycles == burst_length:\n                        burst_list.append(burst_length)\n                    else:\n                        burst_list.append(burst_length - (cmd.address % num_bytes > 1))\n\n                    ar =")]),
    ("b-cycw", W, [(M, "            cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes\n", "            cycles = (len(cmd.data) + num_bytes-1) // num_bytes\n")]),
    ("b-cycr", W, [(M, "cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes", "cycles = (cmd.length + num_bytes + (cmd.address % num_bytes)) // num_bytes")]),
    ("b-resetn", W, [(M, "                    transfer_count += 1\n                    n = 0\n", "                    transfer_count += 1\n                    n = 0 if k == 0 or cmd.address % num_bytes == 0 else n - burst_length + (n > 16)\n")]),
    ("b-strictn", W, [(M, "                n += 1\n                if n >= burst_length:\n                    n = 0\n", "                n += 1\n                if n > burst_length:\n                    n = 0\n")]),
    ("b-lcyc", W, [(L, "cycles = (cmd.length + self.byte_lanes-1 + (cmd.address % self.byte_lanes)) // self.byte_lanes", "cycles = (cmd.length + self.byte_lanes-1) // self.byte_lanes")]),
    ("b-laddr", W, [(L, "araddr = word_addr + k*self.byte_lanes", "araddr = cmd.address + k*self.byte_lanes")]),
    ("b-laddr2", W, [(L, "awaddr = word_addr + k*self.byte_lanes", "awaddr = word_addr | k*self.byte_lanes")]),
    ("b-lresp", W, [(L, "            for k in range(cmd.cycles):\n                b = await", "            for k in range(max(1, (cmd.length+self.byte_lanes-1)//self.byte_lanes)):\n                b = await")]),
    ("b-aaddr", W, [(A, "self.bus.paddr.value = word_addr + k*self.byte_lanes", "self.bus.paddr.value = cmd.address + k*self.byte_lanes")]),
    ("b-acyc", W, [(A, "cycles = (length + (cmd.address % self.byte_lanes) + self.byte_lanes-1) // self.byte_lanes", "cycles = (length + start_offset + self.byte_lanes) // self.byte_lanes")]),
    ("b-respbl", W, [(M, "        for burst_length in cmd.burst_list:\n            b = await", "        for burst_length in cmd.burst_list[:256]:\n            b = await")]),
    ("b-respbl2", W, [(M, "        for burst_length in cmd.burst_list:\n            for k in range(burst_length):", "        for burst_length in cmd.burst_list:\n            for k in range(min(burst_length, 255)):")]),
    ("l-stop", R, [(M, "                if k == cycles-1:\n                    stop = cycle_offset+end_offset\n", "                if k == cycles-1 and cycles > 1:\n                    stop = cycle_offset+end_offset\n")]),
    ("l-endoff", R, [(M, "            end_offset = ((cmd.address + len(cmd.data) - 1) % num_bytes) + 1", "            end_offset = (cmd.address + len(cmd.data)) % num_bytes or self.byte_lanes")]),
    ("l-endoff2", R, [(M, "            end_offset = ((cmd.address + len(cmd.data) - 1) % num_bytes) + 1", "            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1")]),
    ("l-wrapcyc", R, [(M, "                if cmd.burst != AxiBurstType.FIXED:\n                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n            resp_cmd", "                if cmd.burst != AxiBurstType.FIXED:\n                    cycle_offset = min(cycle_offset + num_bytes, self.byte_lanes) % self.byte_lanes if cmd.address < 0x1000 - num_bytes else cycle_offset\n\n            resp_cmd")]),
    ("l-fixcyc", R, [(M, "                if cmd.burst != AxiBurstType.FIXED:\n                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n            resp_cmd", "                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n            resp_cmd")]),
    ("l-strb", R, [(M, "strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))", "strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> max(self.byte_lanes - stop - (num_bytes == 1 and self.byte_lanes == 16), 0))")]),
    ("l-strbk", R, [(M, "strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))", "strb = (self.strb_mask << (start if k == 0 else cycle_offset - cycle_offset % 4)) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))")]),
    ("l-datashift", R, [(M, "val |= cmd.data[offset] << j*8", "val |= cmd.data[offset] << (j-start+start_offset if k == 0 else j)*8 if k == 0 else cmd.data[offset] << (j % num_bytes + cycle_offset // num_bytes * num_bytes if num_bytes > 2 else j % 4)*8")]),
    ("l-dataoff", R, [(M, "val |= cmd.data[offset] << j*8\n                    offset += 1", "val |= cmd.data[offset] << j*8\n                    offset = min(offset+1, len(cmd.data)-2) if len(cmd.data) > 40 else offset+1")]),
    ("l-rstart", R, [(M, "                if first:\n                    start = start_offset\n\n                for j in range(start, stop):\n                    data", "                if k == 0:\n                    start = start_offset\n\n                for j in range(start, stop):\n                    data")]),
    ("l-rstart2", R, [(M, "                start = cycle_offset\n                stop = cycle_offset+num_bytes\n\n                if first:\n                    start = start_offset", "                start = cycle_offset\n                stop = cycle_offset+num_bytes\n\n                if first and burst_length > 1:\n                    start = start_offset")]),
    ("l-rcyc", R, [(M, "        cycle_offset = aligned_addr - word_addr\n        data", "        cycle_offset = 0 if num_bytes >= 4 else aligned_addr - word_addr\n        data")]),
    ("l-rcut", R, [(M, "        data = data[:cmd.length]\n\n        if not self.ruser", "        data = data[:max(cmd.length, num_bytes)]\n\n        if not self.ruser")]),
    ("l-rcut2", R, [(M, "        data = data[:cmd.length]\n\n        if not self.ruser", "        data = data[-cmd.length:]\n\n        if not self.ruser")]),
    ("l-rmod", R, [(M, "                    data.append((cycle_data >> j*8) & 0xff)\n\n                if cmd.burst", "                    data.append((cycle_data >> (j % 8)*8) & 0xff)\n\n                if cmd.burst")]),
    ("l-rfixed", R, [(M, "                if cmd.burst != AxiBurstType.FIXED:\n                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n                first", "                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes\n\n                first")]),
    ("l-lstrb", R, [(L, "strb_end = self.strb_mask >> (self.byte_lanes - end_offset)", "strb_end = self.strb_mask >> ((self.byte_lanes - end_offset) & 7)")]),
    ("l-lstrbone", R, [(L, "                if k == cycles-1:\n                    stop = end_offset\n                    strb &= strb_end", "                elif k == cycles-1:\n                    stop = end_offset\n                    strb &= strb_end")]),
    ("l-lrd", R, [(L, "                if k == cmd.cycles-1:\n                    stop = end_offset\n\n                for j", "                elif k == cmd.cycles-1:\n                    stop = end_offset\n\n                for j")]),
    ("l-lrd2", R, [(L, "end_offset = ((cmd.address + cmd.length - 1) % self.byte_lanes) + 1", "end_offset = ((cmd.length - 1) % self.byte_lanes) + 1")]),
    ("l-arstrb", R, [(A, "                else:\n                    strb = 0\n", "                elif cycles > 1:\n                    strb = 0\n")]),
    ("l-astrb", R, [(A, "                    strb &= strb_end\n", "                    strb = strb_end\n")]),
    ("l-aoff", R, [(A, "                        val |= cmd.data[offset] << j*8\n", "                        val |= cmd.data[offset] << (j-start)*8\n")]),
    ("l-ardata", R, [(A, "range(start, stop):\n                    read", "range(start if cycles > 1 else 0, stop):\n                    read")]),
]
