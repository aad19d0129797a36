ID = 's35'
PROPERTY = 'C33'
EDITS = [
    ('stream.py',
r"""        if self._pause_cr is not None:
            self._pause_cr.kill()
            self._pause_cr = None

        self._pause_generator = generator
""",
r"""        if self._pause_cr is not None and generator is None:
            self._pause_cr.kill()
            self._pause_cr = None

        self._pause_generator = generator
"""),
]
NEEDS = 'a pause generator replaced by another one without clearing it first'
BREAKS = 'the old generator goes on changing the pause state, and does so even after the generator has been cleared'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

import itertools


@cocotb.test()
async def replaced_generator(dut):
    await start(dut)
    src = AxiAWSource(AxiAWBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    await reset(dut)
    src.set_pause_generator(itertools.cycle([True]))
    await clocks(dut, 5)
    src.set_pause_generator(itertools.cycle([False]))
    await clocks(dut, 5)
    src.clear_pause_generator()
    src.pause = False
    for _ in range(10):
        await RisingEdge(dut.clk)
        await Timer(1, "ns")
        assert not src.pause
'''
