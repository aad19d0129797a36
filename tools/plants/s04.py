ID = "s04"
PROPERTY = "C02"
EDITS = [("axil_master.py", """        while not self.idle():
            await self.write_if.wait()
            await self.read_if.wait()
""", """        if not self.idle():
            await self.write_if.wait()
            await self.read_if.wait()
""")]
NEEDS = "a write submitted while wait() of the combined master is already waiting for the read side"
BREAKS = "wait() of the combined AXI lite master returns although a write is still outstanding"
DEMO = '''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiLiteBus, AxiLiteMaster, AxiLiteRam


@cocotb.test()
async def late_write(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())
    m = AxiLiteMaster(AxiLiteBus.from_prefix(dut, "axil"), dut.clk, dut.rst)
    AxiLiteRam(AxiLiteBus.from_prefix(dut, "axil"), dut.clk, dut.rst, size=4096)
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)
    m.init_read(0, 64)

    async def later():
        for _ in range(10):
            await RisingEdge(dut.clk)
        m.init_write(0x100, bytes(256))
    cocotb.start_soon(later())
    await m.wait()
    assert m.idle()
'''
