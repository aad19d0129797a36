ID = 's38'
PROPERTY = 'C36'
EDITS = [
    ('utils.py',
r"""        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
""",
r"""        lines.append(prefix+hexdump_line(data[k:k+row_size], k+offset, row_size))
"""),
]
NEEDS = 'a range that ends within a row, before the end of the data'
BREAKS = 'the last row shows bytes beyond the range'
PLAIN = True
DEMO = r'''
from cocotbext.axi.utils import hexdump_lines, hexdump_str

data = bytes(range(64, 128))
assert hexdump_lines(data, start=0, length=20) == [
    "00000000: "+data[:16].hex(" ")+"  "+"@ABCDEFGHIJKLMNO",
    "00000010: "+data[16:20].hex(" ")+" "+" "*36+" PQRS"], hexdump_lines(data, start=0, length=20)
'''
