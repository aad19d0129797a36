ID = 's25'
PROPERTY = 'C06'
EDITS = [
    ('axis.py',
r"""                if not has_tlast or self.bus.tlast.value:
                    frame.sim_time_end = get_sim_time()
                    self.log.info("RX frame: %s", frame)
""",
r"""                if not has_tlast or self.bus.tlast.value or not tvalid_sample:
                    frame.sim_time_end = get_sim_time()
                    self.log.info("RX frame: %s", frame)
""", 1),
    ('axis.py',
r"""            if tready_sample and tvalid_sample:
                if not frame:
                    if self.byte_size == 8:
""",
r"""            if tready_sample and (tvalid_sample or (frame and has_tlast and self.bus.tlast.value)):
                if not frame:
                    if self.byte_size == 8:
""", 1),
]
NEEDS = 'an idle cycle inside a frame during which tlast is high although tvalid is low'
BREAKS = 'the monitor takes a beat that is not valid and ends the frame early'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def invalid_last(dut):
    await start(dut)
    mon = AxiStreamMonitor(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    dut.axis_tready.value = 1
    dut.axis_tkeep.value = 15
    dut.axis_tid.value = 0
    dut.axis_tdest.value = 0
    dut.axis_tuser.value = 0
    await reset(dut)
    for valid, last, data in ((1, 0, 0x11111111), (0, 1, 0x22222222), (0, 1, 0x22222222), (1, 1, 0x33333333)):
        dut.axis_tvalid.value = valid
        dut.axis_tlast.value = last
        dut.axis_tdata.value = data
        await RisingEdge(dut.clk)
    dut.axis_tvalid.value = 0
    await clocks(dut, 3)
    rx = mon.recv_nowait()
    assert bytes(rx) == b"\x11"*4+b"\x33"*4, rx
    assert mon.empty()
'''
