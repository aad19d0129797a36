ID = 's17'
PROPERTY = 'C22'
EDITS = [
    ('address_space.py',
r"""    async def _write(self, address, data, **kwargs):
        await self.parent.write(self.get_parent_address(address), data, **kwargs)


class WindowPool""",
r"""    async def _write(self, address, data, **kwargs):
        await self.parent.write(self.get_parent_address(address), data, **kwargs)

    async def write_words(self, address, data, byteorder='little', ws=2, **kwargs):
        # let the parent assemble the words
        await self.parent.write_words(self.get_parent_address(address), data, byteorder, ws, **kwargs)


class WindowPool"""),
]
NEEDS = 'a word write that starts inside a window and ends beyond it, the window not reaching to the end of its parent'
BREAKS = 'the words past the end of the window are written into the parent outside the window'
PLAIN = True
DEMO = r'''
import asyncio
from cocotbext.axi import MemoryRegion

mem = bytearray(64)
region = MemoryRegion(64, mem=mem)
window = region.create_window(0, 16)
try:
    asyncio.run(window.write_dwords(8, [0x11111111]*4))
except ValueError:
    pass
assert not any(mem[16:]), bytes(mem)
asyncio.run(window.write_dwords(8, [0x11111111]*2))
assert mem[8:16] == b"\x11"*8
'''
