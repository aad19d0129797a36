U, Y, SP, AS = "utils.py", "memory.py", "sparse_memory.py", "address_space.py"
STOP = ("    stop = min(start+length, len(data)) if length else len(data)\n", -1)
BUGS = [
    ("h-stop", "C36", [(U, STOP, "    stop = min(length, len(data)) if length else len(data)\n")]),
    ("h-stop2", "C36", [(U, STOP, "    stop = start+length if length else len(data)\n")]),
    ("h-off", "C36", [(U, "print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))", "print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k-start+offset, row_size))")]),
    ("h-tail", "C36", [(U, "lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))", "lines.append(prefix+hexdump_line(data[k:k+row_size], k+offset, row_size))")]),
    ("h-row", "C36", [(U, "lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))", "lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset))")]),
    ("h-pfx", "C36", [(U, "lines.append(prefix+hexdump_line(", "lines.append(hexdump_line(")]),
    ("h-chr", "C36", [(U, "32 < ch < 127", "32 < ch <= 127")]),
    ("h-hex", "C36", [(U, "{ch:02x} ", "{ch:2x} ")]),
    ("h-hex2", "C36", [(U, "{offset:08x}", "{offset:04x}")]),
    ("h-pad", "C36", [(U, "{h:{row_size*3}}", "{h:{row_size*2}}")]),
    ("h-rev", "C36", [(U, "        c += chr(ch) if 32 < ch < 127 else \".\"\n", "        c = (chr(ch) if 32 < ch < 127 else \".\") + c\n")]),
    ("h-str", "C36", [(U, "hexdump_lines(data, start, length, row_size, prefix, offset))", "hexdump_lines(data, start, length, row_size, prefix))")]),
    ("h-str2", "C36", [(U, "hexdump_lines(data, start, length, row_size, prefix, offset))", "hexdump_lines(data, start, row_size, length, prefix, offset))")]),
    ("h-range", "C36", [(U, ("for k in range(start, stop, row_size):", -1), "for k in range(start, stop-1, row_size):")]),
    ("h-range2", "C36", [(U, "    lines = []\n    stop", "    lines = []\n    start -= start % row_size\n    stop")]),
    ("h-mem", "C36", [(Y, "        return hexdump_lines(self.read(address, length), prefix=prefix, offset=address)", "        return hexdump_lines(self.read(address, length), prefix=prefix)")]),
    ("h-mem2", "C36", [(SP, "        hexdump(self.read(address, length), prefix=prefix, offset=address)", "        hexdump(self.read(0, length), prefix=prefix, offset=address)")]),
    ("h-mem3", "C36", [(AS, "        return hexdump_str(self.mem[address:address+length], prefix=prefix, offset=address)", "        return hexdump_str(self.mem[address:length], prefix=prefix, offset=address)")]),
    ("h-mem4", "C36", [(AS, "        return self.mem.hexdump_str(address, length, prefix=prefix)", "        return self.mem.hexdump_str(address, length)")]),
    ("h-mem5", "C36", [(AS, "        return self.mem.hexdump_lines(address, length, prefix=prefix)", "        self.mem.hexdump_lines(address, length, prefix=prefix)")]),
]
