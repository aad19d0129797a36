ID = 's36'
PROPERTY = 'C34'
EDITS = [
    ('axis.py',
r"""                self.log.warning("Flushed transmit frame during reset: %s", self.current_frame)
                self.current_frame.handle_tx_complete()
""",
r"""                self.log.warning("Flushed transmit frame during reset: %s", self.current_frame)
                self.current_frame.sim_time_end = get_sim_time()
                self.current_frame.handle_tx_complete()
"""),
]
NEEDS = 'reset while a frame is being transmitted'
BREAKS = 'the aborted frame is reported with an end time, as if it had been transmitted'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def aborted_frame(dut):
    await start(dut)
    src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    snk = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    done = Event()
    src.send_nowait(AxiStreamFrame(bytes(400), tx_complete=done))
    await clocks(dut, 10)
    await reset(dut)
    await with_timeout(done.wait(), 100, "ns")
    assert done.data.sim_time_start is not None
    assert done.data.sim_time_end is None, done.data.sim_time_end
'''
