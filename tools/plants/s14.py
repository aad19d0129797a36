ID = 's14'
PROPERTY = 'C18'
EDITS = [
    ('axi_master.py',
r"""        while not self._resp_queue.empty():
            self._resp_queue.get_nowait()
        return flushed_cmds
""",
r"""        return flushed_cmds
"""),
]
NEEDS = 'reset while a multi-burst write has received the response of its first burst but is still sending data, then a new write'
BREAKS = 'the stale response is kept and counted for an operation issued after the reset, which completes before its own response'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def stale_response(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, max_burst_len=2)
    ram = AxiRam(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, size=4096)
    await reset(dut)
    m.init_write(0, bytes(256), awid=1)
    await clocks(dut, 20)
    await reset(dut)
    ram.write_if.b_channel.pause = True
    op = m.init_write(0, bytes(4), awid=1)
    await clocks(dut, 40)
    assert not op.is_set(), "completed without a response"
    ram.write_if.b_channel.pause = False
    await with_timeout(op.wait(), 2000, "ns")
'''
