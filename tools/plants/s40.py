ID = 's40'
PROPERTY = 'C37'
EDITS = [
    ('axis.py',
r"""        while not self.read_queue:
            frame = await self.recv(compact=True)
            self.read_queue.extend(frame.tdata)
        return self.read_nowait(count)
""",
r"""        while not self.read_queue:
            frame = await self.recv(compact=self.empty())
            self.read_queue.extend(frame.tdata)
        return self.read_nowait(count)
"""),
]
NEEDS = 'a blocking read of a frame with null bytes while another frame is already waiting behind it'
BREAKS = 'the null bytes of the first frame are returned as data'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.utils import get_sim_time
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)

@cocotb.test()
async def nulls(dut):
    await start(dut)
    src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    snk = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    n = snk.byte_lanes
    for k in range(3):
        await src.send(AxiStreamFrame(tdata=bytearray(range(16*k, 16*k+2*n)), tkeep=[j % 2 for j in range(2*n)]))
    want = [16*k+j for k in range(3) for j in range(2*n) if j % 2]
    await clocks(dut, 40)
    assert snk.count() == 3
    got = list(await with_timeout(cocotb.start_soon(snk.read()), 10, "us"))
    assert got == want, (got, want)
'''
