ID = 's11'
PROPERTY = 'C14'
EDITS = [
    ('axi_slave.py',
r"""            b = self.b_channel._transaction_obj()
            b.bid = awid
            b.bresp = AxiResp.OKAY

            for n in range(length):
                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes

                w = await self.w_channel.recv()
""",
r"""            b = self.b_channel._transaction_obj()
            b.bid = awid

            for n in range(length):
                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes

                w = await self.w_channel.recv()

                b.bresp = AxiResp.OKAY
"""),
]
NEEDS = 'a write burst of several beats of which an early one fails at the target and the last one succeeds'
BREAKS = 'the error of an earlier beat is overwritten and the burst is answered OKAY although data was lost'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def first_beat_fails(dut):
    await start(dut)
    space = AddressSpace(4096)
    space.register_region(MemoryRegion(2048), 2048)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    AxiSlave(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, target=space)
    await reset(dut)
    r = await with_timeout(m.write(2048-8, bytes(32)), 5000, "ns")
    assert r.resp == AxiResp.SLVERR, r
    r = await with_timeout(m.write(2048, bytes(32)), 5000, "ns")
    assert r.resp == AxiResp.OKAY, r
'''
