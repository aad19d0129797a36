ID = 's23'
PROPERTY = 'C03'
EDITS = [
    ('stream.py',
r"""        if state:
            if self.valid is not None:
                self.valid.value = 0
""",
r"""        if state:
            if self.valid is not None and self.active:
                self.valid.value = 0
"""),
]
NEEDS = 'reset while an item is on the bus and not yet accepted (the base class has already cleared the active flag)'
BREAKS = 'valid stays high during and after the reset, so the item of before the reset is still transferred'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def valid_drops_in_reset(dut):
    await start(dut)
    m = AxiLiteMaster(AxiLiteBus.from_prefix(dut, "axil"), dut.clk, dut.rst)
    dut.axil_arready.value = 0
    await reset(dut)
    m.init_read(0, 4)
    await clocks(dut, 10)
    assert int(dut.axil_arvalid.value)
    dut.rst.value = 1
    await clocks(dut, 3)
    assert not int(dut.axil_arvalid.value)
'''
