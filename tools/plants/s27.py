ID = 's27'
PROPERTY = 'C19'
EDITS = [
    ('axi_slave.py',
r"""                    if burst == AxiBurstType.WRAP:
                        if cur_addr == upper_wrap_boundary:
                            cur_addr = lower_wrap_boundary

            await self.b_channel.send(b)
""",
r"""                    if burst == AxiBurstType.WRAP:
                        if cur_addr == upper_wrap_boundary:
                            cur_addr = aligned_addr

            await self.b_channel.send(b)
"""),
]
NEEDS = 'a wrapping write burst that does not start at its wrap boundary'
BREAKS = 'after the wrap the beats go to the start address of the burst instead of the wrap boundary'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def wrap_write(dut):
    await start(dut)
    from cocotbext.axi.axi_channels import AxiAWSource, AxiWSource, AxiAWTransaction, AxiWTransaction
    bus = AxiBus.from_prefix(dut, "axi")
    ram = AxiRam(bus, dut.clk, dut.rst, size=4096)
    aw = AxiAWSource(bus.write.aw, dut.clk, dut.rst)
    w = AxiWSource(bus.write.w, dut.clk, dut.rst)
    dut.axi_bready.value = 1
    dut.axi_rready.value = 1
    dut.axi_arvalid.value = 0
    await reset(dut)
    aw.send_nowait(AxiAWTransaction(awid=0, awaddr=0x108, awlen=3, awsize=2, awburst=2))
    for k in range(4):
        w.send_nowait(AxiWTransaction(wdata=0x01010101*(k+1), wstrb=15, wlast=k == 3))
    await clocks(dut, 40)
    assert bytes(ram.read(0x100, 16)) == b"\x03"*4+b"\x04"*4+b"\x01"*4+b"\x02"*4, bytes(ram.read(0x100, 16))
'''
