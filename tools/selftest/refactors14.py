"""variants in which every property still holds"""
P = "apb.py"
OLD = "                    read_data.append((cycle_data >> j*8) & 0xff)\n\n                self.bus.psel.value = False\n"
HEAD = "                    read_data.append((cycle_data >> j*8) & 0xff)\n\n"
REFACTORS = [
    ("re-psel1", [(P, OLD, HEAD+"                if k == cycles-1 or self.pause:\n                    self.bus.psel.value = False\n")]),
    ("re-psel2", [(P, OLD, HEAD+"                self.bus.psel.value = k < cycles-1 and not self.pause\n")]),
    ("re-psel3", [(P, OLD, HEAD+"                more = k+1 < cycles and not self.pause\n                self.bus.psel.value = more\n")]),
    ("re-psel4", [(P, OLD, HEAD+"                if not (k < cycles-1) or self.pause:\n                    self.bus.psel.value = False\n")]),
    ("re-slverr", [(P, "            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n", "            if self.pslverr_present:\n                self.bus.pslverr.value = 1 if pslverr else 0\n")]),
    ("re-zero", [("axil_master.py", ("                val = 0\n                for j in range(start, stop):\n                    val |= cmd.data[offset] << j*8\n                    offset += 1\n", 1), "                val = int.from_bytes(cmd.data[offset:offset+stop-start], 'little') << start*8\n                offset += stop-start\n")]),
]
