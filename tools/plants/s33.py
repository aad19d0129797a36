ID = 's33'
PROPERTY = 'C32'
EDITS = [
    ('axi_master.py',
r"""                if cycle_user is not None:
                    user.append(cycle_user)
""",
r"""                if first or cycle_user:
                    user.append(cycle_user)
"""),
]
NEEDS = 'a read of several beats with a ruser value of zero after the first beat'
BREAKS = 'beats with a zero user value are left out of the list reported, so the values no longer belong to their beats'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def zero_user_values(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    ar = AxiARSink(AxiARBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    r = AxiRSource(AxiRBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    await reset(dut)
    op = m.init_read(0, 16)
    req = await with_timeout(ar.recv(), 1000, "ns")
    sent = [3, 0, 5, 0]
    for k, u in enumerate(sent):
        t = AxiRTransaction()
        t.rid, t.rdata, t.rresp, t.rlast, t.ruser = int(req.arid), k, 0, k == 3, u
        await r.send(t)
    await with_timeout(op.wait(), 1000, "ns")
    assert op.data.user == sent, op.data.user
'''
