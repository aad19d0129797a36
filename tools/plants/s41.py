ID = 's41'
PROPERTY = 'C37'
EDITS = [
    ('axis.py',
r"""        if not self.empty():
            return
        if timeout:
            await First(self.active_event.wait(), Timer(timeout, timeout_unit))
""",
r"""        if not self.empty() or self.active and timeout:
            return
        if timeout:
            await First(self.active_event.wait(), Timer(timeout, timeout_unit))
"""),
]
NEEDS = 'a wait with a timeout while a frame is partly received'
BREAKS = 'wait returns before a frame has been received or the time has passed'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def partial(dut):
    await start(dut)
    src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    snk = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    n = snk.byte_lanes
    src.send_nowait(bytes(20*n))
    await clocks(dut, 8)
    assert snk.empty()
    await with_timeout(cocotb.start_soon(snk.wait(5, "us")), 10, "us")
    assert snk.count() == 1
    snk.recv_nowait()
    t = get_sim_time("ns")
    await with_timeout(cocotb.start_soon(snk.wait(2, "us")), 10, "us")
    assert get_sim_time("ns")-t >= 2000
'''
