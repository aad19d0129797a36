ID = 's15'
PROPERTY = 'C20'
EDITS = [
    ('apb.py',
r"""                self.bus.penable.value = True

                await clock_edge_event
                while not int(self.bus.pready.value):
""",
r"""                self.bus.penable.value = True

                while not int(self.bus.pready.value):
"""),
]
NEEDS = 'a slave that is always ready (pready constantly high)'
BREAKS = 'pready is taken before the access phase has begun, so the transfer ends without an access cycle and the read data is sampled too early'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def always_ready(dut):
    await start(dut)
    m = ApbMaster(ApbBus.from_prefix(dut, "apb"), dut.clk, dut.rst)
    await reset(dut)
    dut.apb_pready.value = 1
    dut.apb_pslverr.value = 0
    op = m.init_write(0x10, b"abcd")
    access = 0
    for _ in range(20):
        await RisingEdge(dut.clk)
        if int(dut.apb_psel.value) and int(dut.apb_penable.value) and int(dut.apb_pready.value):
            access += 1
    assert op.is_set()
    assert access == 1, access
'''
