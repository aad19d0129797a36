ID = 's09'
PROPERTY = 'C11'
EDITS = [
    ('apb.py',
r"""        if length < 0:
            raise ValueError("Read length must be positive")

        if address+length > 2**self.address_width:
            raise ValueError("Requested transfer overruns end of address space")

        if not self.pprot_present and prot != AxiProt.NONSECURE:
            raise ValueError("arprot sideband signal value specified, but signal is not connected")

        event = Event()
""",
r"""        if length < 0:
            raise ValueError("Read length must be positive")

        # last word of the transfer must exist
        if address+length-self.byte_lanes >= 2**self.address_width:
            raise ValueError("Requested transfer overruns end of address space")

        if not self.pprot_present and prot != AxiProt.NONSECURE:
            raise ValueError("arprot sideband signal value specified, but signal is not connected")

        event = Event()
"""),
]
NEEDS = 'a blocking APB read that starts in the last words of the address space and ends up to one word past its end'
BREAKS = 'a read past the end of the address space is accepted and wraps to address 0'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def read_past_the_end(dut):
    await start(dut)
    m = ApbMaster(ApbBus.from_prefix(dut, "apb"), dut.clk, dut.rst)
    ApbRam(ApbBus.from_prefix(dut, "apb"), dut.clk, dut.rst, size=4096)
    await reset(dut)
    end = 2**len(dut.apb_paddr)
    assert len((await with_timeout(m.read(end-6, 6), 5000, "ns")).data) == 6
    for n in (7, 8, 9, 20):
        try:
            await m.read(end-6, n)
        except ValueError:
            continue
        assert False, f"read of {n} bytes accepted"
'''
