"""(name, property expected to report it, [(file, old, new)])"""
BUGS = [
    # C04
    ("rst-or-and", "C04", [("reset.py", "new_state = self._local_reset or self._ext_reset", "new_state = self._local_reset and self._ext_reset")]),
    ("rst-nocmp", "C04", [("reset.py", "if self._reset_state != new_state:", "if True:")]),
    ("rst-noremember", "C04", [("reset.py", "            self._reset_state = new_state\n", "")]),
    ("rst-polarity", "C04", [("reset.py", "self._ext_reset = not active_level", "self._ext_reset = False")]),
    ("rst-x", "C04", [("reset.py", "            except ValueError:\n                continue", "            except ValueError:\n                level = False")]),
    ("rst-x2", "C04", [("reset.py", "level = bool(int(reset_signal.value))", "level = bool(reset_signal.value)")]),
    ("rst-edge", "C04", [("reset.py", "await Edge(reset_signal)", "await RisingEdge(reset_signal)"), ("reset.py", "import Edge", "import RisingEdge")]),
    ("rst-release-only-local", "C04", [("reset.py", "            self._local_reset = bool(val)\n", "            self._local_reset = bool(val)\n            if not val:\n                self._ext_reset = False\n")]),
    ("rst-fwd1", "C04", [("axi_master.py", "AxiBSink(bus.b, clock, reset, reset_active_level)", "AxiBSink(bus.b, clock, reset)")]),
    ("rst-fwd2", "C04", [("axil_slave.py", "AxiLiteRSource(bus.r, clock, reset, reset_active_level)", "AxiLiteRSource(bus.r, clock, None, reset_active_level)")]),
    ("rst-fwd3", "C04", [("apb.py", "self._init_reset(reset, reset_active_level)", "self._init_reset(reset)")]),
    ("rst-pulse", "C04", [("reset.py", "            self.assert_reset(False)\n        else", "        else")]),
    # C05
    ("src-hold", "C05", [("stream.py", "if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue", "if ready_sample or (not valid_sample) or not self.queue.empty():\n                if not self.queue")]),
    ("src-hold-pause", "C05", [("stream.py", "if (ready_sample and valid_sample) or (not valid_sample):", "if (ready_sample and valid_sample) or (not valid_sample) or self.pause:")]),
    ("axis-hold", "C05", [("axis.py", "if (tready_sample and tvalid_sample) or not tvalid_sample:", "if (tready_sample and tvalid_sample) or not tvalid_sample or not frame:")]),
    ("src-novalid", "C05", [("stream.py", "                    if has_valid:\n                        self.valid.value = 1\n", "")]),
    ("src-dup", "C05", [("stream.py", "                else:\n                    if has_valid:\n                        self.valid.value = 0\n                    self.active = not self.queue.empty()", "                else:\n                    if has_valid and self.queue.empty():\n                        self.valid.value = 0\n                    self.active = not self.queue.empty()")]),
    ("src-lifo", "C05", [("stream.py", "import Queue, QueueFull", "import LifoQueue as Queue, QueueFull")]),
    ("src-takes-early", "C05", [("stream.py", "            if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue.empty() and not self.pause:\n                    self.bus.drive(self.queue.get_nowait())", "            if not self.queue.empty() and self.pause and not valid_sample:\n                self.queue.get_nowait()\n            if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue.empty() and not self.pause:\n                    self.bus.drive(self.queue.get_nowait())")]),
    # C06
    ("snk-noready", "C06", [("stream.py", "            if ready_sample and valid_sample:\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n\n            if has_ready:", "            if valid_sample and (ready_sample or self.empty()):\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n\n            if has_ready:")]),
    ("snk-drop-full", "C06", [("axis.py", ("            if tready_sample and tvalid_sample:\n                if not frame:", -1), "            if tready_sample and tvalid_sample and not self.pause:\n                if not frame:")]),
    ("snk-late-put", "C06", [("axis.py", "                if not has_tlast or self.bus.tlast.value:\n                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n\n                    self.queue_occupancy_bytes += len(frame)\n                    self.queue_occupancy_frames += 1\n\n                    self.queue.put_nowait(frame)\n                    self.active_event.set()\n\n                    frame = None\n            else:\n                self.active = bool(frame)\n\n                self.wake_event.clear()", "                if not has_tlast or self.bus.tlast.value or len(frame) > 65536:\n                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n\n                    self.queue_occupancy_bytes += len(frame)\n                    self.queue_occupancy_frames += 1\n\n                    self.queue.put_nowait(frame)\n                    self.active_event.set()\n\n                    frame = None\n            else:\n                self.active = bool(frame)\n\n                self.wake_event.clear()")]),
    ("mon-drives", "C06", [("axis.py", "    _init_x = False\n\n    _valid_init = None\n    _ready_init = None\n\n    def __init__(self, bus, clock, reset=None, reset_active_level=True,\n            byte_size=None, byte_lanes=None, *args, **kwargs):\n\n        super().__init__(bus, clock, reset, reset_active_level, byte_size, byte_lanes, *args, **kwargs)\n\n        self.read_queue = []", "    _init_x = False\n\n    _valid_init = None\n    _ready_init = 0\n\n    def __init__(self, bus, clock, reset=None, reset_active_level=True,\n            byte_size=None, byte_lanes=None, *args, **kwargs):\n\n        super().__init__(bus, clock, reset, reset_active_level, byte_size, byte_lanes, *args, **kwargs)\n\n        self.read_queue = []")]),
    ("mon-drives2", "C06", [("stream.py", "        else:\n            self.log.info(\"Reset de-asserted\")", "            if self.ready is not None and not hasattr(self, 'idle'):\n                self.ready.value = 0\n        else:\n            self.log.info(\"Reset de-asserted\")")]),
    ("recv-order", "C06", [("stream.py", "    async def recv(self):\n        item = await self.queue.get()\n        return self._recv(item)", "    async def recv(self):\n        item = await self.queue.get()\n        while self.full_drain and not self.queue.empty():\n            item = self.queue.get_nowait()\n        return self._recv(item)"), ("stream.py", "class StreamMonitor(StreamBase):\n", "class StreamMonitor(StreamBase):\n\n    full_drain = True\n")]),
    # C07
    ("pause-wake", "C07", [("axis.py", "    def _pause_update(self, val):\n        self.wake_event.set()", "    def _pause_update(self, val):\n        if val:\n            self.wake_event.set()")]),
    ("pause-fresh", "C07", [("stream.py", "if (not valid_sample or paused) and (pause_sample == bool(self.pause)):", "if not valid_sample or paused:")]),
    ("deq-wake", "C07", [("stream.py", "    def _dequeue(self, item):\n        self.wake_event.set()", "    def _dequeue(self, item):\n        if self.queue.empty():\n            self.wake_event.set()")]),
    ("snk-full-late", "C07", [("axis.py", "                paused = self.full() or pause_sample", "                paused = was_full or pause_sample"), ("axis.py", ("            pause_sample = bool(self.pause)\n", -1), "            pause_sample = bool(self.pause)\n            was_full = self.full()\n")]),
    ("clear-wake", "C07", [("stream.py", "        self.dequeue_event.set()\n        self.wake_event.set()\n        if not", "        self.dequeue_event.set()\n        if not")]),
    ("send-if", "C07", [("axis.py", "        while self.full():\n            self.dequeue_event.clear()", "        if self.full():\n            self.dequeue_event.clear()")]),
    ("valid-mon", "C07", [("axis.py", "        if hasattr(self.bus, \"tvalid\"):\n            cocotb.start_soon(self._run_tvalid_monitor())", "        if hasattr(self.bus, \"tvalid\") and hasattr(self.bus, \"tready\"):\n            cocotb.start_soon(self._run_tvalid_monitor())")]),
    ("src-sleep", "C07", [("axis.py", "                    if not frame and self.queue.empty():\n                        self.idle_event.set()", "                    if not frame or self.queue.empty():\n                        self.idle_event.set()")]),
    ("src-nowake", "C07", [("stream.py", "        self.queue.put_nowait(obj)\n        self.idle_event.clear()\n        self.active_event.set()", "        if self.queue.empty():\n            self.active_event.set()\n        self.queue.put_nowait(obj)\n        self.idle_event.clear()")]),
    ("pausegen-kill", "C07", [("axis.py", "            self._pause_cr.kill()\n", "")]),
    ("mon-sleep", "C07", [("stream.py", "                self.queue.put_nowait(obj)\n                self.active_event.set()\n            else:\n                self.wake_event.clear()\n                await wake_event", "                self.queue.put_nowait(obj)\n                self.active_event.set()\n            if not ready_sample or self.queue.qsize() > 16:\n                self.wake_event.clear()\n                await wake_event")]),

    # C01
    ("m-drop-zero", "C01", [("axi_master.py", "            cmd = await self.read_command_queue.get()\n            self.current_read_command = cmd\n", "            cmd = await self.read_command_queue.get()\n            if not cmd.length:\n                continue\n            self.current_read_command = cmd\n")]),
    ("m-wrong-event", "C01", [("axil_master.py", "            resp_cmd = AxiLiteWriteRespCmd(cmd.address, len(cmd.data), cycles, cmd.prot, cmd.event)", "            resp_cmd = AxiLiteWriteRespCmd(cmd.address, len(cmd.data), cycles, cmd.prot, Event())")]),
    ("m-cust-late", "C01", [("axi_master.py", "            self.tag_context_manager.start_cmd(awid, resp_cmd)\n\n            self.current_write_command = None", "            self.current_write_command = None\n            await self.w_channel.wait()\n            self.tag_context_manager.start_cmd(awid, resp_cmd)")]),
    ("m-cust-early", "C01", [("axi_master.py", "            num_bytes = 2**cmd.size\n\n            aligned_addr = (cmd.address // num_bytes) * num_bytes\n\n            cycles", "            num_bytes = 2**cmd.size\n            self.current_read_command = None\n\n            aligned_addr = (cmd.address // num_bytes) * num_bytes\n\n            cycles")]),
    ("m-noflush-q", "C01", [("axil_master.py", "            while not self.int_write_resp_command_queue.empty():\n                cmd = self.int_write_resp_command_queue.get_nowait()\n                flush_cmd(cmd)\n", "            self.int_write_resp_command_queue = Queue()\n")]),
    ("m-flush-cur", "C01", [("axil_master.py", "            if self.current_read_resp_command:\n                cmd = self.current_read_resp_command\n                self.current_read_resp_command = None\n                flush_cmd(cmd)\n", "            self.current_read_resp_command = None\n")]),
    ("m-flush-keep", "C01", [("apb.py", "                self.current_command = None\n                flush_cmd(cmd)", "                flush_cmd(cmd)")]),
    ("m-flush-one", "C01", [("axi_master.py", "            while not self.write_command_queue.empty():", "            if not self.write_command_queue.empty():")]),
    ("m-resp-len", "C01", [("axi_master.py", "            resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data),", "            resp_cmd = AxiWriteRespCmd(cmd.address, cycles*num_bytes,")]),
    ("m-resp-addr", "C01", [("axi_master.py", "AxiReadRespCmd(cmd.address, cmd.length", "AxiReadRespCmd(cur_addr, cmd.length")]),
    ("m-nowait", "C01", [("apb.py", "        await self.command_queue.put(ApbReadCmd(address, length, prot, event))\n\n        await event.wait()\n", "        await self.command_queue.put(ApbReadCmd(address, length, prot, event))\n\n        await self._idle.wait()\n")]),
    ("m-twice", "C01", [("axi_master.py", "                user.append(burst_user)\n\n            assert", "                user.append(burst_user)\n\n            if burst_resp == AxiResp.DECERR:\n                cmd.event.set(AxiWriteResp(cmd.address, cmd.length, burst_resp, user))\n\n            assert")]),
    # C02
    ("m-cnt-late", "C02", [("axil_master.py", "        self.in_flight_operations += 1\n        self._idle.clear()\n\n        await self.write_command_queue.put(AxiLiteWriteCmd(address, data, prot, event))\n", "        await self.write_command_queue.put(AxiLiteWriteCmd(address, data, prot, event))\n        self.in_flight_operations += 1\n        self._idle.clear()\n")]),
    ("m-cnt-reset", "C02", [("axil_master.py", ("            self.in_flight_operations = 0\n            self._idle.set()\n", 1), "            self._idle.set()\n")]),
    ("m-wait-if", "C02", [("axi_master.py", ("        while not self.idle():\n            await self._idle.wait()", 1), "        if not self.idle():\n            await self._idle.wait()")]),
    ("m-idle-and", "C02", [("axi_master.py", "        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())", "        return (not self.read_if or self.read_if.idle()) or (not self.write_if or self.write_if.idle())")]),
    ("m-comp-wait", "C02", [("axil_master.py", "        while not self.idle():\n            await self.write_if.wait()\n            await self.read_if.wait()", "        await self.write_if.wait()\n        await self.read_if.wait()")]),
    ("m-noclear", "C02", [("apb.py", "        self.in_flight_operations += 1\n        self._idle.clear()\n\n        self.command_queue.put_nowait(ApbReadCmd", "        self.in_flight_operations += 1\n\n        self.command_queue.put_nowait(ApbReadCmd")]),
    ("m-idle-early", "C02", [("axi_master.py", ("        if self.in_flight_operations == 0:\n            self._idle.set()", 1), "        if self.in_flight_operations <= 1:\n            self._idle.set()")]),
    # C03
    ("r-nostop", "C03", [("axi_slave.py", ("            if self._process_write_cr is not None:\n                self._process_write_cr.kill()\n                self._process_write_cr = None\n", 1), "            self._process_write_cr = None\n")]),
    ("r-noclear", "C03", [("axi_slave.py", "            self.w_channel.clear()\n", "")]),
    ("r-out", "C03", [("apb.py", ("            self.bus.psel.value = False\n            self.bus.penable.value = False\n", 1), "            self.bus.penable.value = False\n")]),
    # C08
    ("o-full", "C08", [("stream.py", "        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit:", "        if self.queue_occupancy_limit > 1 and self.count() >= self.queue_occupancy_limit:")]),
    ("o-frames", "C08", [("axis.py", ("        elif self.queue_occupancy_limit_frames > 0 and", 1), "        elif self.queue_occupancy_limit_frames > 0 and self.queue_occupancy_limit_bytes > 0 and")]),
    ("o-count", "C08", [("axis.py", "        self.queue_occupancy_bytes -= len(frame)\n", "        self.queue_occupancy_bytes -= len(frame.tdata[1:])\n")]),
    # C09
    ("c-nocopy", "C09", [("axi_master.py", ("        data = bytes(data)\n\n        self.in_flight", 1), "        if not isinstance(data, (bytes, bytearray)):\n            data = bytes(data)\n\n        self.in_flight")]),
    ("c-wuser", "C09", [("axi_master.py", "            wuser = list(wuser)\n\n        data = bytes(data)", "            pass\n\n        data = bytes(data)")]),
    ("c-frame", "C09", [("axis.py", "        frame = AxiStreamFrame(frame)\n        await self.queue.put(frame)", "        if not isinstance(frame, AxiStreamFrame):\n            frame = AxiStreamFrame(frame)\n        await self.queue.put(frame)")]),
    # C10
    ("a-swap", "C10", [("axi_master.py", "        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)\n        await", "        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, region, qos, user, event)\n        await")]),
    ("a-qos", "C10", [("axi_master.py", "                    aw.awqos = cmd.qos\n", "                    aw.awqos = cmd.qos if n == 0 and transfer_count == 1 else 0\n")]),
    ("a-fwd", "C10", [("axi_master.py", "            burst, size, lock, cache, prot, qos, region, user, wuser)\n", "            burst, size, lock, cache, prot, qos, region, wuser, user)\n" )]),
    ("a-noregion", "C10", [("axi_master.py", "                    ar.arregion = cmd.region\n", "")]),
    ("a-wuser", "C10", [("axi_master.py", "                        w.wuser = wuser[k]\n", "                        w.wuser = wuser[n-1]\n")]),
    ("a-wuser-zero", "C10", [("axi_master.py", "                    if wuser and k < len(wuser):", "                    if wuser and k < len(wuser)-1:")]),
    ("a-prot", "C10", [("axil_master.py", "                ar.arprot = cmd.prot\n", "                ar.arprot = AxiProt.NONSECURE\n")]),
    ("a-lock", "C10", [("axi_master.py", ("        lock = AxiLockType(lock)\n", 1), "        lock = AxiLockType.NORMAL if self.max_burst_len > 16 else AxiLockType(lock)\n")]),
    # C11
    ("v-id", "C11", [("axi_master.py", ("        elif arid >= self.id_count:", 1), "        elif arid > self.id_count:")]),
    ("v-end", "C11", [("apb.py", ("        if address+length > 2**self.address_width:", 1), "        if address+length > 2**self.address_width+1:")]),
    ("v-strict", "C11", [("axil_master.py", ("        if address+len(data) > 2**self.address_width:", 1), "        if address+len(data) >= 2**self.address_width:")]),
    ("v-neg", "C11", [("axi_master.py", ("        if length < 0:\n            raise ValueError(\"Read length must be positive\")\n\n", 1), "")]),
    ("v-dirty", "C11", [("axil_master.py", ("        if event is None:\n            event = Event()\n", 1), "        self.in_flight_operations += 1\n        if event is None:\n            event = Event()\n")]),
    ("v-side", "C11", [("axi_master.py", ("        if not self.arqos_present and qos != 0:", 1), "        if not self.arregion_present and qos != 0:")]),
    ("v-fixed", "C11", [("axi_master.py", ("        if burst != AxiBurstType.FIXED and address+len(data) >", 1), "        if burst == AxiBurstType.INCR and address+len(data) >")]),
    # C13
    ("p-forget", "C13", [("axi_master.py", "            if burst_resp != AxiResp.OKAY:\n                resp = burst_resp\n", "            resp = burst_resp\n")]),
    ("p-first", "C13", [("axil_master.py", "                if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp\n", "                if cycle_resp != AxiResp.OKAY and not data:\n                    resp = cycle_resp\n")]),
    ("p-slverr", "C13", [("apb.py", ("if self.pslverr_present and int(self.bus.pslverr.value):", 1), "if self.pslverr_present and int(self.bus.pslverr.value) and not pwrite:")]),
    ("p-exok", "C13", [("axi_master.py", "                if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp\n", "                if cycle_resp in (AxiResp.SLVERR, AxiResp.DECERR):\n                    resp = cycle_resp\n")]),
    ("p-const", "C13", [("axil_master.py", "            write_resp = AxiLiteWriteResp(cmd.address, cmd.length, resp)", "            write_resp = AxiLiteWriteResp(cmd.address, cmd.length, AxiResp(max(resp, AxiResp.OKAY)) if cmd.cycles > 1 else AxiResp.OKAY)")]),
]
