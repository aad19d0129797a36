ID = 's21'
PROPERTY = 'C29'
EDITS = [
    ('axis.py',
r"""                self.log.warning("Flushed transmit frame during reset: %s", self.current_frame)
                self.current_frame.handle_tx_complete()
                self.current_frame = None
""",
r"""                self.log.warning("Flushed transmit frame during reset: %s", self.current_frame)
                self.current_frame.handle_tx_complete()
"""),
]
NEEDS = 'reset while a frame is being sent, and a second reset later'
BREAKS = 'completion of the interrupted frame is reported again at every following reset'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def two_resets(dut):
    await start(dut)
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    done = []
    dut.axis_tready.value = 0
    source.send_nowait(AxiStreamFrame(bytes(64), tx_complete=done.append))
    await clocks(dut, 5)
    assert not done
    await reset(dut)
    assert len(done) == 1
    await reset(dut)
    assert len(done) == 1, len(done)
'''
