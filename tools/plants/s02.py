ID = "s02"
PROPERTY = "C07"
EDITS = [("axis.py", """    def _dequeue(self, frame):
        self.wake_event.set()
""", """    def _dequeue(self, frame):
        if self.queue.empty():
            self.wake_event.set()
""")]
NEEDS = "a sink with a frame limit of several frames fills up while the sender keeps valid high; the consumer then takes one frame and waits for the sender"
BREAKS = "space becoming available does not wake the sink unless the queue is empty, so ready stays low and the stream hangs"
DEMO = '''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, with_timeout
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink


@cocotb.test()
async def one_frame_makes_room(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    sink = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    sink.queue_occupancy_limit_frames = 2
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)
    for k in range(4):
        source.send_nowait(bytes([k]*8))
    for _ in range(40):
        await RisingEdge(dut.clk)
    assert sink.full()
    await sink.recv()
    await with_timeout(source.wait(), 2000, "ns")
    for _ in range(3):
        await with_timeout(sink.recv(), 2000, "ns")
'''
