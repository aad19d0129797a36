ID = 's28'
PROPERTY = 'C23'
EDITS = [
    ('address_space.py',
r"""        if length < 0:
            raise ValueError("invalid length")
        if address+length > self.size:
            raise ValueError("operation out of range")

    def get_absolute_address""",
r"""        if length < 0:
            raise ValueError("invalid length")
        if self.base is not None and self.base+address+length > self.base+self.size or length > self.size:
            raise ValueError("operation out of range")

    def get_absolute_address"""),
]
NEEDS = 'an interface without a known absolute base (a region registered with an offset) and an access that starts inside and ends past its end'
BREAKS = 'the end of the access is not checked when the base is unknown'
PLAIN = True
DEMO = r'''
import asyncio
from cocotbext.axi import AddressSpace, PeripheralRegion


class Rec:
    def __init__(self):
        self.log = []

    async def read(self, address, length, **kwargs):
        self.log.append((address, length))
        return bytes(length)

    async def write(self, address, data, **kwargs):
        self.log.append((address, len(data)))


for offset in (0, 4):
    p = Rec()
    region = PeripheralRegion(p, 64)
    space = AddressSpace(4096)
    space.register_region(region, 256, 32, offset)
    try:
        asyncio.run(region.write(60, bytes(8)))
    except ValueError:
        pass
    assert not p.log, (offset, p.log)
    asyncio.run(region.write(56, bytes(8)))
    assert p.log == [(56, 8)]
'''
