ID = 's08'
PROPERTY = 'C10'
EDITS = [
    ('axi_master.py',
r"""                    aw.awlock = cmd.lock
                    aw.awcache = cmd.cache
                    aw.awprot = cmd.prot
                    aw.awqos = cmd.qos
                    aw.awregion = cmd.region
""",
r"""                    aw.awlock = cmd.lock
                    aw.awcache = cmd.cache
                    aw.awprot = cmd.prot
                    if cmd.qos:
                        aw.awqos = cmd.qos
                    if cmd.region and transfer_count < 2:
                        aw.awregion = cmd.region
"""),
]
NEEDS = 'a write with a region identifier that is split into several bursts'
BREAKS = 'only the first burst of the write carries the requested region, later ones carry region 0'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def region_on_every_burst(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, max_burst_len=4)
    AxiRam(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, size=4096)
    mon = AxiAWMonitor(AxiAWBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    await reset(dut)
    await with_timeout(m.write(0, bytes(64), region=5, qos=3), 5000, "ns")
    n = 0
    while not mon.empty():
        aw = mon.recv_nowait()
        assert int(aw.awregion) == 5 and int(aw.awqos) == 3
        n += 1
    assert n == 4
'''
