ID = 's26'
PROPERTY = 'C15'
EDITS = [
    ('axi_slave.py',
r"""                assert last == (n == length-1)
""",
r"""                assert last or n < length-1
"""),
]
NEEDS = 'a master that sets wlast before the last beat of a burst'
BREAKS = 'an early last flag is accepted silently'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test(expect_error=AssertionError)
async def early_last(dut):
    await start(dut)
    from cocotbext.axi.axi_channels import AxiAWSource, AxiWSource, AxiAWTransaction, AxiWTransaction
    bus = AxiBus.from_prefix(dut, "axi")
    AxiRam(bus, dut.clk, dut.rst, size=4096)
    aw = AxiAWSource(bus.write.aw, dut.clk, dut.rst)
    w = AxiWSource(bus.write.w, dut.clk, dut.rst)
    dut.axi_bready.value = 1
    dut.axi_rready.value = 1
    dut.axi_arvalid.value = 0
    await reset(dut)
    aw.send_nowait(AxiAWTransaction(awid=0, awaddr=0, awlen=3, awsize=2, awburst=1))
    for last in (0, 1, 0, 1):
        w.send_nowait(AxiWTransaction(wdata=0, wstrb=15, wlast=last))
        await clocks(dut, 4)
    await clocks(dut, 20)
'''
