ID = 's29'
PROPERTY = 'C26'
EDITS = [
    ('memory.py',
r"""    def read_qwords(self, address, count, byteorder='little'):
        return self.read_words(address, count, byteorder, 8)
""",
r"""    def read_qwords(self, address, count, byteorder='little'):
        # a quad word is a pair of double words
        d = self.read_dwords(address, count*2, byteorder)
        return [lo | hi << 32 for lo, hi in zip(d[::2], d[1::2])]
"""),
]
NEEDS = 'big-endian quad words'
BREAKS = 'the two halves of a big-endian quad word are exchanged'
PLAIN = True
DEMO = r'''
from cocotbext.axi.memory import Memory

m = Memory(4096)
for order in ("little", "big"):
    m.write_qwords(16, [0x0102030405060708, 0x1112131415161718], order)
    assert m.read_qwords(16, 2, order) == [0x0102030405060708, 0x1112131415161718], order
'''
