ID = 's13'
PROPERTY = 'C17'
EDITS = [
    ('axi_master.py',
r"""                if cycle_resp != AxiResp.OKAY:
                    resp = cycle_resp

                if cycle_user is not None:
                    user.append(cycle_user)

                start = cycle_offset
                stop = cycle_offset+num_bytes

                if first:
                    start = start_offset

                for j in range(start, stop):
                    data.append((cycle_data >> j*8) & 0xff)
""",
r"""                if cycle_user is not None:
                    user.append(cycle_user)

                start = cycle_offset
                stop = cycle_offset+num_bytes

                if first:
                    start = start_offset

                if cycle_resp != AxiResp.OKAY:
                    resp = cycle_resp

                if cycle_resp < AxiResp.SLVERR:
                    for j in range(start, stop):
                        data.append((cycle_data >> j*8) & 0xff)
"""),
]
NEEDS = 'a read of several beats of which one is answered with an error'
BREAKS = 'the bytes of the failing beat are dropped, so the bytes after it are returned at the wrong positions and the result is short'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def error_in_the_middle(dut):
    await start(dut)
    space = AddressSpace(4096)
    space.register_region(MemoryRegion(8, mem=bytearray(b"abcdefgh")), 0)
    space.register_region(MemoryRegion(8, mem=bytearray(b"ijklmnop")), 12)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    AxiSlave(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, target=space)
    await reset(dut)
    r = await with_timeout(m.read(0, 20), 5000, "ns")
    assert r.resp == AxiResp.SLVERR
    assert len(r.data) == 20, r
    assert r.data[:8] == b"abcdefgh" and r.data[12:] == b"ijklmnop", r
'''
