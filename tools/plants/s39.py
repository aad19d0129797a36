ID = 's39'
PROPERTY = 'C37'
EDITS = [
    ('axis.py',
r"""        if count < 0:
            count = len(self.read_queue)
        data = self.read_queue[:count]
        del self.read_queue[:count]
        return data
""",
r"""        if count < 0 or count > len(self.read_queue):
            data, self.read_queue = self.read_queue, []
            return data
        data = self.read_queue[:count]
        if len(data) == len(self.read_queue):
            return data
        del self.read_queue[:count]
        return data
"""),
]
NEEDS = 'a read of exactly as many bytes as are held'
BREAKS = 'the bytes stay in the queue and are returned again by the next read'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def reads(dut):
    await start(dut)
    src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    snk = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    n = snk.byte_lanes
    data = list(range(4*n))
    await src.send(bytes(data[:2*n]))
    await clocks(dut, 20)
    assert list(snk.read_nowait(n)) == data[:n]
    assert list(snk.read_nowait(n)) == data[n:2*n]
    await src.send(bytes(data[2*n:]))
    assert list(await with_timeout(cocotb.start_soon(snk.read(n)), 10, "us")) == data[2*n:3*n]
    await clocks(dut, 20)
    assert list(snk.read_nowait()) == data[3*n:]
    assert list(snk.read_nowait()) == []
'''
