ID = 's32'
PROPERTY = 'C01'
EDITS = [
    ('axil_master.py',
r"""            while not self.int_write_resp_command_queue.empty():
                cmd = self.int_write_resp_command_queue.get_nowait()
                flush_cmd(cmd)

            if self.current_write_resp_command:
                cmd = self.current_write_resp_command
                self.current_write_resp_command = None
                flush_cmd(cmd)
""",
r"""            if self.current_write_resp_command:
                cmd = self.current_write_resp_command
                self.current_write_resp_command = None
                flush_cmd(cmd)
            else:
                # nothing waits behind the operation in progress
                while not self.int_write_resp_command_queue.empty():
                    cmd = self.int_write_resp_command_queue.get_nowait()
                    flush_cmd(cmd)
"""),
]
NEEDS = 'reset while one write waits for its response and a second one has been issued behind it'
BREAKS = 'the second write stays in the response queue: its caller never returns and it takes the response of a later operation'
DEMO = r'''
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *
from cocotbext.axi.axi_channels import *


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())


async def reset(dut):
    for v in (0, 1, 0):
        dut.rst.value = v
        for _ in range(3):
            await RisingEdge(dut.clk)


async def clocks(dut, n):
    for _ in range(n):
        await RisingEdge(dut.clk)


@cocotb.test()
async def two_writes_pending(dut):
    await start(dut)
    m = AxiLiteMaster(AxiLiteBus.from_prefix(dut, "axil"), dut.clk, dut.rst)
    ram = AxiLiteRam(AxiLiteBus.from_prefix(dut, "axil"), dut.clk, dut.rst, size=4096)
    await reset(dut)
    ram.write_if.b_channel.pause = True
    ops = [m.init_write(16*k, bytes(4)) for k in range(2)]
    await clocks(dut, 20)
    await reset(dut)
    for op in ops:
        await with_timeout(op.wait(), 1000, "ns")
'''
