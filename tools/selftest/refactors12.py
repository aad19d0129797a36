from bugs12 import U, Y, SP, AS, STOP
REFACTORS = [
    ("hr-stop", [(U, STOP, "    stop = len(data)\n    if length:\n        stop = min(stop, start+length)\n")]),
    ("hr-join", [(U, "    for ch in data[0:row_size]:\n        h += f\"{ch:02x} \"\n        c += chr(ch) if 32 < ch < 127 else \".\"\n", "    h = ''.join(f\"{ch:02x} \" for ch in data[0:row_size])\n    c = ''.join(chr(ch) if 32 < ch < 127 else '.' for ch in data[0:row_size])\n")]),
    ("hr-if", [(U, "        c += chr(ch) if 32 < ch < 127 else \".\"\n", "        if ch <= 32 or ch >= 127:\n            c += \".\"\n        else:\n            c += chr(ch)\n")]),
    ("hr-cat", [(U, "        h += f\"{ch:02x} \"\n", "        h += f\"{ch:02x}\" + \" \"\n")]),
    ("hr-row", [(U, "        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))", "        row = data[k:min(k+row_size, stop)]\n        lines.append(prefix+hexdump_line(row, offset+k, row_size))")]),
    ("hr-print", [(U, "    stop = min(start+length, len(data)) if length else len(data)\n    for k in range(start, stop, row_size):\n        print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n", "    for line in hexdump_lines(data, start, length, row_size, prefix, offset):\n        print(line)\n")]),
    ("hr-print2", [(U, "    stop = min(start+length, len(data)) if length else len(data)\n    for k in range(start, stop, row_size):\n        print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n", "    print(hexdump_str(data, start, length, row_size, prefix, offset))\n")]),
    ("hr-while", [(U, "    lines = []\n    stop = min(start+length, len(data)) if length else len(data)\n    for k in range(start, stop, row_size):\n        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n", "    lines = []\n    stop = min(start+length, len(data)) if length else len(data)\n    k = start\n    while k < stop:\n        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n        k += row_size\n")]),
    ("hr-comp", [(U, "    lines = []\n    stop = min(start+length, len(data)) if length else len(data)\n    for k in range(start, stop, row_size):\n        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n    return lines\n", "    stop = min(start+length, len(data)) if length else len(data)\n    return [prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size) for k in range(start, stop, row_size)]\n")]),
    ("hr-kw", [(U, "hexdump_lines(data, start, length, row_size, prefix, offset))", "hexdump_lines(data, start=start, length=length, row_size=row_size, prefix=prefix, offset=offset))")]),
    ("hr-mem", [(Y, "        return hexdump_str(self.read(address, length), prefix=prefix, offset=address)", "        return \"\\n\".join(self.hexdump_lines(address, length, prefix))")]),
    ("hr-mem2", [(AS, "        return hexdump_str(self.mem[address:address+length], prefix=prefix, offset=address)", "        data = self.mem[address:address+length]\n        return hexdump_str(data, 0, None, 16, prefix, address)")]),
    ("hr-mem3", [(SP, "        hexdump(self.read(address, length), prefix=prefix, offset=address)", "        hexdump(bytes(self.read(address, length)), prefix=prefix, offset=address, length=length)")]),
    ("hr-fmt", [(U, "        h += f\"{ch:02x} \"\n", "        h += \"{:02x} \".format(ch)\n")]),
    ("hr-fmt2", [(U, "        h += f\"{ch:02x} \"\n", "        h += \"%02x \" % ch\n")]),
]
