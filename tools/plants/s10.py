ID = 's10'
PROPERTY = 'C12'
EDITS = [
    ('axi_slave.py',
r"""                if self.wstrb_present:
                    strb = int(getattr(w, 'wstrb', self.strb_mask))
                else:
                    strb = self.strb_mask
""",
r"""                strb = int(getattr(w, 'wstrb', self.strb_mask))
"""),
]
NEEDS = 'an AXI write channel without wstrb'
BREAKS = 'the transaction object always has the field, zero when the signal is absent, so writes without wstrb store nothing'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def no_wstrb(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "nw"), dut.clk, dut.rst)
    ram = AxiRam(AxiBus.from_prefix(dut, "nw"), dut.clk, dut.rst, size=4096)
    await reset(dut)
    await with_timeout(m.write(0, b"abcdefgh"), 5000, "ns")
    assert bytes(ram.read(0, 8)) == b"abcdefgh"
'''
