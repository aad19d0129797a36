ID = 's34'
PROPERTY = 'C33'
EDITS = [
    ('axis.py',
r"""                if frame and not self.pause:
                    tdata_val = 0
""",
r"""                if frame and not (self.pause and frame_offset == 0):
                    tdata_val = 0
"""),
]
NEEDS = 'pause set while a frame of several beats is being transmitted'
BREAKS = 'the source goes on putting beats of the frame on the bus although it is paused'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def pause_within_frame(dut):
    await start(dut)
    src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    snk = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    await src.send(AxiStreamFrame(bytes(400)))
    while not (dut.axis_tvalid.value.is_resolvable and dut.axis_tvalid.value == 1):
        await RisingEdge(dut.clk)
    await clocks(dut, 3)
    src.pause = True
    await clocks(dut, 4)
    for _ in range(20):
        assert dut.axis_tvalid.value == 0
        await RisingEdge(dut.clk)
    src.pause = False
    f = await with_timeout(snk.recv(), 5000, "ns")
    assert bytes(f.tdata) == bytes(400)
'''
