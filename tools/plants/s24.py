ID = 's24'
PROPERTY = 'C05'
EDITS = [
    ('axis.py',
r"""                if not frame and not self.queue.empty():
                    frame = self.queue.get_nowait()
""",
r"""                if not frame and self.current_frame:
                    # continue with the frame that was in progress
                    frame = self.current_frame
                elif not frame and not self.queue.empty():
                    frame = self.queue.get_nowait()
"""),
    ('axis.py',
r"""                self.current_frame.handle_tx_complete()
                self.current_frame = None

    async def _run""",
r"""                self.current_frame.handle_tx_complete()
                if self.empty():
                    self.current_frame = None

    async def _run"""),
]
NEEDS = 'reset in the middle of a frame while more frames are queued'
BREAKS = 'the remainder of the flushed frame is sent from an old position after the reset, although its completion was reported'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def resumed_frame(dut):
    await start(dut)
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    sink = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    source.send_nowait(b"a"*64)
    source.send_nowait(b"b"*8)
    await clocks(dut, 6)
    dut.rst.value = 1
    await clocks(dut, 3)
    dut.rst.value = 0
    rx = await with_timeout(sink.recv(), 5000, "ns")
    assert bytes(rx) == b"b"*8, rx
'''
