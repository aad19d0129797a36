import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, with_timeout
from cocotbext.axi import *

async def setup(dut):
    cocotb.start_soon(Clock(dut.clk, 2, units="ns").start())

async def rst(dut):
    dut.rst.setimmediatevalue(0)
    for v in (0,1,0):
        dut.rst.value=v
        for _ in range(3): await RisingEdge(dut.clk)

@cocotb.test()
async def t_init_wait(dut):
    await setup(dut)
    m=AxiMaster(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst); r=AxiRam(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst,size=2**16)
    await rst(dut)
    e=m.init_write(0,b'abcd')
    await m.wait()
    assert e.is_set()

@cocotb.test()
async def t_target(dut):
    await setup(dut)
    m=AxiMaster(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst); s=AxiSlave(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst)
    s.target=MemoryRegion(4096)
    await rst(dut)
    r=await m.write(0,b'abcd'); assert r.resp==AxiResp.OKAY

@cocotb.test()
async def t_fixed_narrow(dut):
    await setup(dut)
    m=AxiMaster(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst); r=AxiRam(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst,size=2**16)
    await rst(dut)
    await m.write(0,b'abcd',burst=AxiBurstType.FIXED,size=0)
    print(r.read(0,4)); assert r.read(0,4)==b'd\0\0\0'

@cocotb.test()
async def t_id(dut):
    await setup(dut)
    m=AxiMaster(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst); r=AxiRam(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst,size=2**16)
    await rst(dut)
    try: m.init_write(0,b'abcd',awid=256)
    except ValueError: return
    assert 0

@cocotb.test()
async def t_sink_clear(dut):
    await setup(dut)
    s=AxiStreamSource(AxiStreamBus.from_prefix(dut,"axis"),dut.clk,dut.rst); k=AxiStreamSink(AxiStreamBus.from_prefix(dut,"axis"),dut.clk,dut.rst)
    k.queue_occupancy_limit_frames=2
    await rst(dut)
    for i in range(5): s.send_nowait(b'x%d'%i)
    await Timer(100,'ns')
    assert k.full()
    k.clear()
    await with_timeout(s.wait(),1000,'ns')

@cocotb.test()
async def t_empty(dut):
    await setup(dut)
    s=AxiStreamSource(AxiStreamBus.from_prefix(dut,"axis"),dut.clk,dut.rst); k=AxiStreamSink(AxiStreamBus.from_prefix(dut,"axis"),dut.clk,dut.rst)
    await rst(dut)
    f=AxiStreamFrame(b'',tx_complete=Event())
    await s.send(f)
    await with_timeout(f.tx_complete.wait(),1000,'ns')

@cocotb.test()
async def t_clear_idle(dut):
    await setup(dut)
    s=AxiStreamSource(AxiStreamBus.from_prefix(dut,"axis"),dut.clk,dut.rst); k=AxiStreamSink(AxiStreamBus.from_prefix(dut,"axis"),dut.clk,dut.rst)
    await rst(dut)
    await s.send(bytes(200)); await s.send(bytes(20))
    await Timer(20,'ns')
    s.clear()
    await s.wait()
    assert s.idle()

@cocotb.test()
async def t_forward_nk(dut):
    await setup(dut)
    s=AxiStreamSource(AxiStreamBus.from_prefix(dut,"nk"),dut.clk,dut.rst); k=AxiStreamSink(AxiStreamBus.from_prefix(dut,"nk"),dut.clk,dut.rst)
    await rst(dut)
    await s.send(b'abcdefgh')
    f=await k.recv(compact=False)
    await s.send(f)
    g=await with_timeout(k.recv(),1000,'ns')

@cocotb.test()
async def t_apb_stale(dut):
    await setup(dut)
    m=ApbMaster(ApbBus.from_prefix(dut,"apb"),dut.clk,dut.rst); r=ApbRam(ApbBus.from_prefix(dut,"apb"),dut.clk,dut.rst,size=2**16)
    await rst(dut)
    await m.write(0,b'abcd')
    await Timer(20,'ns')
    assert m.current_command is None

@cocotb.test()
async def t_apb_x(dut):
    await setup(dut)
    m=ApbMaster(ApbBus.from_prefix(dut,"apb"),dut.clk,dut.rst)
    await rst(dut)
    dut.apb_pready.value=1
    dut.apb_pslverr.value=0
    await with_timeout(m.write(0,b'abcd'),1000,'ns')
    assert 1
@cocotb.test()
async def t_reset_initial(dut):
    await setup(dut)
    dut.rst.value=1
    await Timer(10,'ns')
    m=AxiMaster(AxiBus.from_prefix(dut,"axi"),dut.clk,dut.rst)
    m.init_write(0,b'abcd')
    await Timer(20,'ns')
    assert not dut.axi_awvalid.value
