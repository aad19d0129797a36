ID = 's20'
PROPERTY = 'C28'
EDITS = [
    ('axis.py',
r"""            self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
""",
r"""            self.tkeep = self.tkeep[len(self.tkeep)-n:] if len(self.tkeep) > n else self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
"""),
]
NEEDS = 'a frame given with more tkeep values than bytes'
BREAKS = 'the keep values sent are not those given for the bytes'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def long_keep(dut):
    await start(dut)
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    sink = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), dut.clk, dut.rst)
    await reset(dut)
    await source.send(AxiStreamFrame(b"abcd", tkeep=[1, 0, 1, 1, 0, 0]))
    rx = await with_timeout(sink.recv(compact=False), 2000, "ns")
    assert rx.tkeep == [1, 0, 1, 1], rx
'''
