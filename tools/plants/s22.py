ID = 's22'
PROPERTY = 'C30'
EDITS = [
    ('axi_ram.py',
r"""        return self.read(address % self.size, length)
""",
r"""        return self.read(address & (self.size-1), length)
"""),
]
NEEDS = 'a RAM whose size is not a power of two'
BREAKS = 'bus reads and bus writes of the same address use different bytes of the memory'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def odd_size(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    ram = AxiRam(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, size=12288)
    await reset(dut)
    await with_timeout(m.write(0x1000, b"abcdefgh"), 2000, "ns")
    assert bytes(ram.read(0x1000, 8)) == b"abcdefgh"
    assert (await with_timeout(m.read(0x1000, 8), 2000, "ns")).data == b"abcdefgh"
'''
