ID = 's16'
PROPERTY = 'C21'
EDITS = [
    ('address_space.py',
r"""            seg_addr = address - base
            seg_len = min(size-seg_addr, length)
            if offset is None:
                seg_addr = address
                offset = 0
            await region.write""",
r"""            seg_addr = address - base
            if offset is None:
                seg_addr = address
                offset = 0
            seg_len = min(base+size-seg_addr, length)
            await region.write"""),
]
NEEDS = 'a write that runs from a region with an address offset over its end into the next region, the first region not at address 0'
BREAKS = 'the part written to the first region is computed from the wrong start, so it also receives the bytes of the next region'
PLAIN = True
DEMO = r'''
import asyncio
from cocotbext.axi import AddressSpace, PeripheralRegion


class Rec:
    def __init__(self):
        self.log = []

    async def read(self, address, length, **kwargs):
        return bytes(length)

    async def write(self, address, data, **kwargs):
        self.log.append((address, bytes(data)))


a, b = Rec(), Rec()
space = AddressSpace(4096)
space.register_region(PeripheralRegion(a, 256), 256, 16)
space.register_region(PeripheralRegion(b, 256), 272, 16)
asyncio.run(space.write(264, bytes(range(16))))
assert a.log == [(8, bytes(range(8)))], a.log
assert b.log == [(0, bytes(range(8, 16)))], b.log
'''
