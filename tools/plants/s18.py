ID = 's18'
PROPERTY = 'C24'
EDITS = [
    ('sparse_memory.py',
r"""            block_len = min(4096 - block_offset, length)
            try:
                block = self.segs[block_addr]
            except KeyError:
                block = bytearray(4096)
                self.segs[block_addr] = block
            block[block_offset:block_offset+block_len] = data[offset:offset+block_len]
""",
r"""            block_len = min(4096 - block_offset, length)
            block = self.segs.get(block_addr)
            if block is None or block_len == 4096:
                block = bytearray(4096)
                if any(data[offset:offset+block_len]):
                    # blocks that are all zero need not be stored
                    self.segs[block_addr] = block
            block[block_offset:block_offset+block_len] = data[offset:offset+block_len]
"""),
]
NEEDS = 'a complete 4 KB block that already holds data is overwritten with zeros'
BREAKS = 'the write of zeros over a whole stored block is lost and the old data stays'
PLAIN = True
DEMO = r'''
from cocotbext.axi.sparse_memory import SparseMemory

mem = SparseMemory(2**20)
mem.write(0x1ff0, b"x"*32)
mem.write(0x2000, b"y"*4096)
mem.write(0x5000, bytes(100))
assert mem.read(0x5000, 100) == bytes(100)
mem.write(0x1f00, bytes(0x1200))
assert mem.read(0x1f00, 0x1200) == bytes(0x1200)
'''
