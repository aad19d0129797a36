S, A, M, P, L, ML, R = "stream.py", "axis.py", "axi_master.py", "apb.py", "axi_slave.py", "axil_master.py", "reset.py"
BUGS = [
    # byte-stream reads
    ("k-rd1", "C37", [(A, "        del self.read_queue[:count]\n", "        del self.read_queue[:max(count, 1)]\n")]),
    ("k-rd2", "C37", [(A, "        if count < 0:\n            count = len(self.read_queue)\n", "        if count <= 0:\n            count = len(self.read_queue)\n")]),
    ("k-rd3", "C37", [(A, "            self.read_queue.extend(frame.tdata)\n        if count < 0:", "            self.read_queue = list(frame.tdata)\n        if count < 0:")]),
    ("k-rd4", "C37", [(A, "        while not self.read_queue:\n            frame = await self.recv(compact=True)", "        while not self.read_queue:\n            frame = await self.recv(compact=False)")]),
    ("k-rd5", "C37", [(A, "            frame = self.recv_nowait(compact=True)\n            self.read_queue.extend(frame.tdata)\n        if count", "            frame = self.recv_nowait(compact=True)\n            self.read_queue[0:0] = frame.tdata\n        if count")]),
    ("k-rd6", "C37", [(A, "        while not self.empty():\n            frame = self.recv_nowait(compact=True)", "        if not self.empty() and not self.read_queue:\n            frame = self.recv_nowait(compact=True)")]),
    ("k-rd7", "C37", [(A, "        while not self.read_queue:\n            frame = await self.recv(compact=True)\n            self.read_queue.extend(frame.tdata)\n        return", "        while len(self.read_queue) < count:\n            frame = await self.recv(compact=True)\n            self.read_queue.extend(frame.tdata)\n        return")]),
    # streams: recv, wait
    ("k-wait3", "C37", [(A, "            await First(self.active_event.wait(), Timer(timeout, timeout_unit))\n", "            await First(self.active_event.wait(), Timer(timeout))\n")]),
    ("k-recv1", "C02", [(A, "        if self.queue.empty():\n            self.active_event.clear()\n        self.queue_occupancy_bytes -= len(frame)\n", "        self.active_event.clear()\n        self.queue_occupancy_bytes -= len(frame)\n")]),
    ("k-recv2", "C02", [(S, "        if self.queue.empty():\n            self.active_event.clear()\n        self._dequeue(item)\n", "        self._dequeue(item)\n")]),
    ("k-send1", "C09", [(A, "        frame = AxiStreamFrame(frame)\n        self.queue.put_nowait(frame)\n", "        if not isinstance(frame, AxiStreamFrame):\n            frame = AxiStreamFrame(frame)\n        self.queue.put_nowait(frame)\n")]),
    ("k-full1", "C08", [(A, ("self.queue_occupancy_limit_frames > 0 and self.queue_occupancy_frames > self.queue_occupancy_limit_frames", 2), "self.queue_occupancy_limit_frames > 0 and self.queue.qsize() > self.queue_occupancy_limit_bytes")]),
    ("k-full2", "C08", [(A, "        elif self.queue_occupancy_limit_frames > 0 and self.queue_occupancy_frames > self.queue_occupancy_limit_frames:\n", "        elif self.queue_occupancy_limit_bytes <= 0 and self.queue_occupancy_limit_frames > 0 and self.queue_occupancy_frames > self.queue_occupancy_limit_frames:\n")]),
    ("k-full3", "C08", [(S, "        if self.full():\n            raise QueueFull()\n        self.queue.put_nowait(obj)\n", "        if self.queue.full():\n            raise QueueFull()\n        self.queue.put_nowait(obj)\n")]),
    ("k-full4", "C08", [(S, "        while self.full():\n            self.dequeue_event.clear()\n            await self.dequeue_event.wait()\n        await", "        if self.full():\n            self.dequeue_event.clear()\n            await self.dequeue_event.wait()\n        await")]),
    ("k-occ1", "C08", [(A, "        self.queue_occupancy_bytes -= len(frame)\n        self.queue_occupancy_frames -= 1\n        self._dequeue(frame)\n        if compact:\n            frame.compact()\n", "        if compact:\n            frame.compact()\n        self.queue_occupancy_bytes -= len(frame)\n        self.queue_occupancy_frames -= 1\n        self._dequeue(frame)\n")]),
    ("k-occ2", "C08", [(A, "        self.queue_occupancy_bytes = 0\n        self.queue_occupancy_frames = 0\n\n    def _handle_reset", "        self.queue_occupancy_bytes = 0\n\n    def _handle_reset")]),
    ("k-occ3", "C08", [(A, "            if self.current_frame:\n                self.log.warning(\"Flushed transmit frame during reset: %s\", self.current_frame)\n", "            if self.current_frame:\n                self.queue_occupancy_frames -= 1\n                self.log.warning(\"Flushed transmit frame during reset: %s\", self.current_frame)\n")]),
    ("k-idle1", "C02", [(A, "                    self.active = bool(frame)\n                    if not frame and self.queue.empty():\n                        self.idle_event.set()", "                    self.active = bool(frame)\n                    if self.queue.empty():\n                        self.idle_event.set()")]),
    ("k-idle3", "C02", [(A, "    def idle(self):\n        return self.empty() and not self.active\n", "    def idle(self):\n        return self.empty() or not self.active\n")]),
    ("k-reset1", "C02", [(S, "            self.active = False\n\n            if self.queue.empty():\n                self.idle_event.set()\n        else:", "            if self.queue.empty():\n                self.idle_event.set()\n        else:")]),
    ("k-reset2", "C02", [(A, "            self.active = False\n\n            if self.queue.empty():\n                self.idle_event.set()\n        else:", "            self.active = False\n\n            self.idle_event.set()\n        else:")]),
    ("k-reset3", "C03", [(A, "            if hasattr(self.bus, \"tready\"):\n                self.bus.tready.value = 0\n", "            if hasattr(self.bus, \"tready\"):\n                self.bus.tready.value = self.pause\n")]),
    ("k-reset4", "C03", [(A, "        frame = None\n        self.active = False\n\n        has_tready = hasattr(self.bus, \"tready\")\n        has_tvalid = hasattr(self.bus, \"tvalid\")\n        has_tlast = hasattr(self.bus, \"tlast\")\n        has_tkeep = hasattr(self.bus, \"tkeep\")\n        has_tid = hasattr(self.bus, \"tid\")\n        has_tdest = hasattr(self.bus, \"tdest\")\n        has_tuser = hasattr(self.bus, \"tuser\")\n\n        clock_edge_event = RisingEdge(self.clock)\n\n        wake_event = self.wake_event.wait()\n\n        while True:\n            pause_sample", "        frame = self.current_frame\n        self.active = False\n\n        has_tready = hasattr(self.bus, \"tready\")\n        has_tvalid = hasattr(self.bus, \"tvalid\")\n        has_tlast = hasattr(self.bus, \"tlast\")\n        has_tkeep = hasattr(self.bus, \"tkeep\")\n        has_tid = hasattr(self.bus, \"tid\")\n        has_tdest = hasattr(self.bus, \"tdest\")\n        has_tuser = hasattr(self.bus, \"tuser\")\n\n        clock_edge_event = RisingEdge(self.clock)\n\n        wake_event = self.wake_event.wait()\n\n        while True:\n            pause_sample"), (A, "                    frame.sim_time_start = get_sim_time()\n                    self.active = True\n\n                for offset in range(self.byte_lanes):\n                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)\n                    if has_tkeep:\n                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)\n                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value))\n                    if has_tdest:\n                        frame.tdest.append(int(self.bus.tdest.value))\n                    if has_tuser:\n                        frame.tuser.append(int(self.bus.tuser.value))\n\n                if not has_tlast or self.bus.tlast.value:\n                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n\n                    self.queue_occupancy_bytes += len(frame)\n                    self.queue_occupancy_frames += 1\n\n                    self.queue.put_nowait(frame)\n                    self.active_event.set()\n\n                    frame = None\n            else:\n                self.active = bool(frame)\n\n            if has_tready", "                    frame.sim_time_start = get_sim_time()\n                    self.active = True\n                    self.current_frame = frame\n\n                for offset in range(self.byte_lanes):\n                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)\n                    if has_tkeep:\n                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)\n                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value))\n                    if has_tdest:\n                        frame.tdest.append(int(self.bus.tdest.value))\n                    if has_tuser:\n                        frame.tuser.append(int(self.bus.tuser.value))\n\n                if not has_tlast or self.bus.tlast.value:\n                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n\n                    self.queue_occupancy_bytes += len(frame)\n                    self.queue_occupancy_frames += 1\n\n                    self.queue.put_nowait(frame)\n                    self.active_event.set()\n\n                    frame = None\n                    self.current_frame = None\n            else:\n                self.active = bool(frame)\n\n            if has_tready")]),
    ("k-mon1", "C06", [(A, "                if not has_tlast or self.bus.tlast.value:\n                    frame.sim_time_end = get_sim_time()", "                if (not has_tlast and len(frame.tdata)) or self.bus.tlast.value:\n                    frame.sim_time_end = get_sim_time()")]),
    ("k-mon2", "C07", [(A, "        event = RisingEdge(self.bus.tready)\n", "        event = RisingEdge(self.bus.tvalid)\n")]),
    ("k-mon3", "C07", [(S, "        if self.ready is not None:\n            cocotb.start_soon(self._run_ready_monitor())\n", "        elif self.ready is not None:\n            cocotb.start_soon(self._run_ready_monitor())\n")]),
    ("k-snk1", "C07", [(S, "                if (not valid_sample or paused) and (pause_sample == bool(self.pause)):\n", "                if not valid_sample or paused:\n")]),
    ("k-snk2", "C07", [(S, "                paused = self.full() or pause_sample\n", "                paused = pause_sample or (self.full() and not valid_sample)\n")]),
    ("k-snk3", "C07", [(A, "                paused = self.full() or pause_sample\n", "                paused = (self.full() and not frame) or pause_sample\n")]),
    ("k-src1", "C05", [(S, "            if (ready_sample and valid_sample) or (not valid_sample):\n", "            if ready_sample or not valid_sample or self.pause:\n")]),
    ("k-src2", "C05", [(S, "                    self.bus.drive(self.queue.get_nowait())\n                    self.dequeue_event.set()\n                    if has_valid:\n                        self.valid.value = 1\n                    self.active = True\n", "                    if has_valid:\n                        self.valid.value = 1\n                    await Timer(1, 'step')\n                    self.bus.drive(self.queue.get_nowait())\n                    self.dequeue_event.set()\n                    self.active = True\n")]),
]
