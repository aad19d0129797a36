ID = 's37'
PROPERTY = 'C35'
EDITS = [
    ('axis.py',
r"""        if self.byte_lanes * self.byte_size != self.width:
            raise ValueError(f"Bus does not evenly divide into byte lanes "
""",
r"""        if self.width % self.byte_size:
            raise ValueError(f"Bus does not evenly divide into byte lanes "
"""),
]
NEEDS = 'a number of lanes that does not divide the data width while the rounded lane width does'
BREAKS = 'the component is created and transmits only part of the data signal'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def uneven_lanes(dut):
    await start(dut)
    # 32 bits do not divide into 7 lanes
    try:
        AxiStreamSource(AxiStreamBus.from_prefix(dut, "nk"), dut.clk, dut.rst, byte_lanes=7)
    except ValueError:
        pass
    else:
        assert False, "uneven lanes accepted"
    s = AxiStreamSource(AxiStreamBus.from_prefix(dut, "nk"), dut.clk, dut.rst, byte_lanes=2)
    assert s.byte_size == 16
'''
