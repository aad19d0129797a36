ID = 's31'
PROPERTY = 'C31'
EDITS = [
    ('axi_channels.py',
r"""    def from_channels(cls, aw, w, b, ar, r):
        write = AxiWriteBus.from_channels(aw, w, b)
""",
r"""    def from_channels(cls, aw, w, b, ar, r):
        write = AxiWriteBus.from_channels(aw, b, w)
"""),
]
NEEDS = 'a bus built from separately made channels'
BREAKS = 'write data and write response channels are exchanged'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def channels(dut):
    p = AxiBus.from_prefix(dut, "axi")
    bus = AxiBus.from_channels(p.write.aw, p.write.w, p.write.b, p.read.ar, p.read.r)
    assert bus.write.w is p.write.w and bus.write.b is p.write.b and bus.write.aw is p.write.aw
    assert bus.read.ar is p.read.ar and bus.read.r is p.read.r
'''
