ID = "s03"
PROPERTY = "C13"
EDITS = [("axi_master.py", """                if cycle_resp != AxiResp.OKAY:
                    resp = cycle_resp

                if cycle_user is not None:""", """                if k == 0 or cycle_resp > resp:
                    resp = cycle_resp

                if cycle_user is not None:""")]
NEEDS = "a read split into several bursts with an error in an earlier burst only"
BREAKS = "the first beat of every burst overwrites the response collected so far, so an error in an earlier burst is reported as OKAY"
DEMO = '''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiBus, AxiMaster, AxiSlave, AxiResp, MemoryRegion


class Faulty(MemoryRegion):
    async def _read(self, address, length, **kwargs):
        if 0x10 <= address < 0x20:
            raise Exception("bad location")
        return await super()._read(address, length, **kwargs)


@cocotb.test()
async def error_in_first_burst(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, max_burst_len=4)
    AxiSlave(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst, target=Faulty(4096))
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)
    assert (await m.read(0x20, 32)).resp == AxiResp.OKAY
    assert (await m.read(0x18, 4)).resp == AxiResp.SLVERR
    assert (await m.read(0x10, 48)).resp == AxiResp.SLVERR
'''
