ID = 's05'
PROPERTY = 'C04'
EDITS = [
    ('reset.py',
r"""            self.assert_reset(True)
            self.assert_reset(False)
""",
r"""            # one full reset cycle, whatever the current state
            self._reset_state = True
            self._handle_reset(True)
            self._reset_state = False
            self._handle_reset(False)
"""),
]
NEEDS = 'a local reset pulse (assert_reset() without argument) while the external reset is held active'
BREAKS = 'the pulse releases the component from an external reset that is still asserted, so it runs during reset'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def pulse_during_external_reset(dut):
    await start(dut)
    src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    dut.rst.value = 1
    await clocks(dut, 2)
    src.assert_reset()
    src.send_nowait(b"abcd")
    for _ in range(10):
        await RisingEdge(dut.clk)
        assert not int(dut.axis_tvalid.value)
'''
