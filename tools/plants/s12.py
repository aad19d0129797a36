ID = 's12'
PROPERTY = 'C16'
EDITS = [
    ('axi_master.py',
r"""                elif k == 0:
                    cur_addr = aligned_addr + num_bytes
                else:
                    cur_addr += num_bytes

                if cmd.burst""",
r"""                else:
                    cur_addr += num_bytes

                if cmd.burst"""),
]
NEEDS = 'an unaligned write that needs more than one burst'
BREAKS = 'bursts after the first start at an unaligned address although their data starts on the aligned one'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def later_bursts_aligned(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, max_burst_len=4)
    AxiRam(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, size=4096)
    mon = AxiAWMonitor(AxiAWBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    await reset(dut)
    await with_timeout(m.write(3, bytes(40)), 5000, "ns")
    got = []
    while not mon.empty():
        aw = mon.recv_nowait()
        got.append((int(aw.awaddr), int(aw.awlen)))
    assert got == [(3, 3), (16, 3), (32, 2)], got
'''
