ID = "s01"
PROPERTY = "C01"
EDITS = [("axi_master.py", """                if cmd.burst == AxiBurstType.FIXED:
                    cur_addr = cmd.address
                elif k == 0:
                    cur_addr = aligned_addr + num_bytes
                else:
                    cur_addr += num_bytes

            resp_cmd = AxiReadRespCmd(""", """                if k == cycles-1:
                    # nothing left to issue for this command
                    self.current_read_command = None
                    await self.ar_channel.wait()

                if cmd.burst == AxiBurstType.FIXED:
                    cur_addr = cmd.address
                elif k == 0:
                    cur_addr = aligned_addr + num_bytes
                else:
                    cur_addr += num_bytes

            resp_cmd = AxiReadRespCmd(""")]
NEEDS = "reset asserted while the last burst of a read waits on the address channel (arready low)"
BREAKS = "the read is remembered nowhere while its last address beat is pending, so reset does not flush it and its caller waits forever"
DEMO = '''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, with_timeout
from cocotbext.axi import AxiBus, AxiMaster, AxiRam


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())
    dut.rst.setimmediatevalue(0)
    dut.axi_arready.setimmediatevalue(0)


async def reset(dut):
    for v in (1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


@cocotb.test()
async def reset_while_address_pending(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "axi"), dut.clk, dut.rst)
    await reset(dut)
    op = m.init_read(0x1000, 4)
    for _ in range(10):
        await RisingEdge(dut.clk)
    await reset(dut)
    await with_timeout(op.wait(), 1000, "ns")
    assert op.data is None
    assert m.idle()
'''
