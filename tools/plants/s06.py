ID = 's06'
PROPERTY = 'C08'
EDITS = [
    ('axis.py',
r"""        self.queue_occupancy_bytes -= len(frame)
        self.queue_occupancy_frames -= 1
        self._dequeue(frame)
        if compact:
            frame.compact()
        return frame
""",
r"""        self.queue_occupancy_frames -= 1
        if compact:
            frame.compact()
        self.queue_occupancy_bytes -= len(frame)
        self._dequeue(frame)
        return frame
"""),
]
NEEDS = 'frames with bytes whose tkeep is zero, read with compact=True'
BREAKS = 'the removed bytes stay in the byte counter for ever, so a byte limit is reached although nothing is queued'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def partial_beats(dut):
    await start(dut)
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    sink = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    for n in (1, 5, 7, 4):
        source.send_nowait(bytes(range(n)))
        f = await with_timeout(sink.recv(), 2000, "ns")
        assert bytes(f) == bytes(range(n))
    assert sink.empty()
    assert sink.queue_occupancy_bytes == 0, sink.queue_occupancy_bytes
    assert sink.queue_occupancy_frames == 0
'''
