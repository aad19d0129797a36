ID = 's30'
PROPERTY = 'C27'
EDITS = [
    ('axis.py',
r"""                for offset in range(self.byte_lanes):
                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)
                    if has_tkeep:
                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)
""",
r"""                tdata_val = int(self.bus.tdata.value).to_bytes((self.width+7)//8, 'little')
                for offset in range(self.byte_lanes):
                    frame.tdata.append(tdata_val[offset * self.byte_size // 8] & self.byte_mask)
                    if has_tkeep:
                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)
""", 2),
]
NEEDS = 'a stream whose byte size is not 8 bits'
BREAKS = 'values of lanes that are not eight bits wide are taken from the wrong bits'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def wide_lanes(dut):
    await start(dut)
    source = AxiStreamSource(AxiStreamBus.from_prefix(dut, "nk"), dut.clk, dut.rst, byte_size=16)
    sink = AxiStreamSink(AxiStreamBus.from_prefix(dut, "nk"), dut.clk, dut.rst, byte_size=16)
    await reset(dut)
    source.send_nowait(AxiStreamFrame([0x1234, 0xabcd, 0x00ff, 0xff00]))
    rx = await with_timeout(sink.recv(), 2000, "ns")
    assert list(rx.tdata) == [0x1234, 0xabcd, 0x00ff, 0xff00], rx
'''
