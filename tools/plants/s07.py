ID = 's07'
PROPERTY = 'C09'
EDITS = [
    ('axis.py',
r"""                if type(tdata.tuser) in (int, bool):
                    self.tuser = tdata.tuser
                else:
                    self.tuser = list(tdata.tuser)
""",
r"""                self.tuser = tdata.tuser
"""),
]
NEEDS = 'a frame object whose tuser list is changed by its owner after the frame was queued and before it is transmitted'
BREAKS = "the queued frame shares its tuser list with the caller's frame, so the values sent are those at transmit time"
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def reuse_of_sideband_list(dut):
    await start(dut)
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    sink = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    frame = AxiStreamFrame(bytes(8), tuser=[1]*8)
    source.send_nowait(frame)
    frame.tuser[:] = [9]*8
    rx = await with_timeout(sink.recv(), 2000, "ns")
    assert rx.tuser == 1, rx
'''
