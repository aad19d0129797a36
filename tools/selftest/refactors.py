"""behaviour-preserving edits: every check must stay quiet"""
REFACTORS = [
    ("reset-inline", [("reset.py", "        new_state = self._local_reset or self._ext_reset\n        if self._reset_state != new_state:\n            self._reset_state = new_state\n            self._handle_reset(new_state)",
                       "        wanted = bool(self._ext_reset or self._local_reset)\n        if wanted == self._reset_state:\n            return\n        self._reset_state = wanted\n        self._handle_reset(wanted)")]),
    ("reset-level", [("reset.py", "            if level:\n                self._ext_reset = active_level\n                self._update_reset()\n            else:\n                self._ext_reset = not active_level\n                self._update_reset()",
                      "            self._ext_reset = (level == active_level)\n            self._update_reset()")]),
    ("src-flip", [("stream.py", "            if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue.empty() and not self.pause:", "            stalled = valid_sample and not ready_sample\n            if not stalled:\n                can_send = not (self.queue.empty() or self.pause)\n                if can_send:")]),
    ("src-helper", [("stream.py", "                    self.bus.drive(self.queue.get_nowait())\n                    self.dequeue_event.set()\n                    if has_valid:\n                        self.valid.value = 1\n                    self.active = True",
                     "                    self._launch(has_valid)"),
                    ("stream.py", "class StreamMonitor(StreamBase):", "class StreamMonitor(StreamBase):"),
                    ("stream.py", "    def idle(self):\n        return self.empty() and not self.active\n", "    def idle(self):\n        return not (self.active or not self.empty())\n\n    def _launch(self, has_valid):\n        item = self.queue.get_nowait()\n        self.active = True\n        self.bus.drive(item)\n        if has_valid:\n            self.valid.value = 1\n        self.dequeue_event.set()\n")]),
    ("src-continue", [("stream.py", "            if (ready_sample and valid_sample) or (not valid_sample):\n                if not self.queue.empty() and not self.pause:\n                    self.bus.drive(self.queue.get_nowait())",
                       "            if valid_sample and not ready_sample:\n                continue\n\n            if True:\n                if not self.pause and self.queue.qsize() > 0:\n                    self.bus.drive(self.queue.get_nowait())")]),
    ("axis-src-flip", [("axis.py", "            if (tready_sample and tvalid_sample) or not tvalid_sample:\n                if not frame and not self.queue.empty():", "            if tvalid_sample and not tready_sample:\n                continue\n            else:\n                if not frame and self.queue.qsize():")]),
    ("snk-demorgan", [("stream.py", "                paused = self.full() or pause_sample\n\n                self.ready.value = not paused\n\n                if (not valid_sample or paused) and (pause_sample == bool(self.pause)):", "                accept = not (pause_sample or self.full())\n                self.ready.value = accept\n                if not (valid_sample and accept) and pause_sample == bool(self.pause):")]),
    ("snk-helper", [("stream.py", ("            if ready_sample and valid_sample:\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n", -1), "            if ready_sample and valid_sample:\n                self._take()\n"),
                    ("stream.py", "    def recv_nowait(self):", "    def _take(self):\n        obj = self._transaction_obj()\n        self.bus.sample(obj)\n        self.active_event.set()\n        self.queue.put_nowait(obj)\n\n    def recv_nowait(self):")]),
    ("axis-snk-lanes", [("axis.py", ("                for offset in range(self.byte_lanes):\n                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)\n", -1), "                data = int(self.bus.tdata.value)\n                for lane in range(self.byte_lanes):\n                    offset = lane\n                    frame.tdata.append((data >> (self.byte_size * lane)) & self.byte_mask)\n")]),
    ("axis-not-last", [("axis.py", ("                if not has_tlast or self.bus.tlast.value:\n", -1), "                last = True if not has_tlast else bool(self.bus.tlast.value)\n                if last:\n")]),
    ("pause-setter", [("stream.py", "        if self._pause != val:\n            self._pause_update(val)\n        self._pause = val", "        changed = val != self._pause\n        self._pause = val\n        if changed:\n            self._pause_update(val)")]),
    ("send-loop", [("axis.py", "        while self.full():\n            self.dequeue_event.clear()\n            await self.dequeue_event.wait()\n", "        while True:\n            if not self.full():\n                break\n            self.dequeue_event.clear()\n            await self.dequeue_event.wait()\n")]),
    ("send-via-nowait", [("stream.py", "        await self.queue.put(obj)\n        self.idle_event.clear()\n        self.active_event.set()\n", "        self.send_nowait(obj)\n")]),
    # masters
    ("m-common-helper", [("apb.py", "        self.in_flight_operations += 1\n        self._idle.clear()\n\n        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))\n", "        self._enqueue(ApbReadCmd(address, length, prot, event))\n"),
                         ("apb.py", "        self.in_flight_operations += 1\n        self._idle.clear()\n\n        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))\n", "        self._enqueue(ApbWriteCmd(address, data, prot, event))\n"),
                         ("apb.py", ("    def idle(self):\n", 1), "    def _enqueue(self, cmd):\n        self._idle.clear()\n        self.in_flight_operations += 1\n        self.command_queue.put_nowait(cmd)\n\n    def idle(self):\n")]),
    ("m-write-via-init", [("axil_master.py", "        event = Event()\n        data = bytes(data)\n\n        self.in_flight_operations += 1\n        self._idle.clear()\n\n        await self.write_command_queue.put(AxiLiteWriteCmd(address, data, prot, event))\n        await event.wait()\n        return event.data", "        event = self.init_write(address, data, prot)\n        await event.wait()\n        return event.data")]),
    ("m-validate-helper", [("axi_master.py", ("        if address < 0 or address >= 2**self.address_width:\n            raise ValueError(\"Address out of range\")\n", -1), "        self._check_address(address)\n"),
                           ("axi_master.py", ("    def idle(self):\n        return not self.in_flight_operations\n", -1), "    def _check_address(self, address):\n        if not 0 <= address < 2**self.address_width:\n            raise ValueError(f\"Address out of range: {address}\")\n\n    def idle(self):\n        return self.in_flight_operations == 0\n")]),
    ("m-kwargs-cmd", [("axi_master.py", ("        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)\n", -1), "        cmd = AxiReadCmd(address=address, length=length, arid=arid, burst=burst, size=size, lock=lock, cache=cache,\n            prot=prot, qos=qos, region=region, user=user, event=event)\n")]),
    ("m-flush-method", [("axi_master.py", ("            def flush_cmd(cmd):\n                self.log.warning(\"Flushed write operation during reset: %s\", cmd)\n                if cmd.event:\n                    cmd.event.set(None)\n\n", 1), ""),
                        ("axi_master.py", ("            while not self.write_command_queue.empty():\n                cmd = self.write_command_queue.get_nowait()\n                flush_cmd(cmd)\n\n            if self.current_write_command:\n                cmd = self.current_write_command\n                self.current_write_command = None\n                flush_cmd(cmd)\n\n            for cmd in self.tag_context_manager.flush():\n                flush_cmd(cmd)\n", 1),
                         "            pending, self.current_write_command = self.current_write_command, None\n            if pending is not None:\n                self._flush_cmd(pending)\n\n            for item in self.tag_context_manager.flush():\n                self._flush_cmd(item)\n\n            while self.write_command_queue.qsize():\n                self._flush_cmd(self.write_command_queue.get_nowait())\n"),
                        ("axi_master.py", ("    def _handle_reset(self, state):\n", 1), "    def _flush_cmd(self, cmd):\n        self.log.warning(\"Flushed write operation during reset: %s\", cmd)\n        if cmd.event:\n            cmd.event.set(None)\n\n    def _handle_reset(self, state):\n")]),
    ("m-kill-helper", [("axil_master.py", ("            if self._process_write_cr is not None:\n                self._process_write_cr.kill()\n                self._process_write_cr = None\n            if self._process_write_resp_cr is not None:\n                self._process_write_resp_cr.kill()\n                self._process_write_resp_cr = None\n", 1), "            self._stop_workers()\n"),
                       ("axil_master.py", ("    def _handle_reset(self, state):\n", 1), "    def _stop_workers(self):\n        if self._process_write_cr is not None:\n            self._process_write_cr.kill()\n            self._process_write_cr = None\n        if self._process_write_resp_cr is not None:\n            self._process_write_resp_cr.kill()\n            self._process_write_resp_cr = None\n\n    def _handle_reset(self, state):\n")]),
    ("m-resp-max", [("axil_master.py", "                if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp\n", "                if cycle_resp == AxiResp.OKAY:\n                    pass\n                else:\n                    resp = cycle_resp\n")]),
    ("m-resp-ite", [("axi_master.py", "            if burst_resp != AxiResp.OKAY:\n                resp = burst_resp\n", "            resp = burst_resp if burst_resp != AxiResp.OKAY else resp\n")]),
    ("m-done-helper", [("axi_master.py", ("        self.in_flight_operations -= 1\n\n        if self.in_flight_operations == 0:\n            self._idle.set()\n", -1), "        self._op_done()\n"),
                       ("axi_master.py", ("    def idle(self):\n        return not self.in_flight_operations\n", -1), "    def _op_done(self):\n        self.in_flight_operations -= 1\n\n        if not self.in_flight_operations:\n            self._idle.set()\n\n    def idle(self):\n        return not self.in_flight_operations\n")]),
    ("m-aw-helper", [("axi_master.py", "                    aw = self.aw_channel._transaction_obj()\n                    aw.awid = awid\n                    aw.awaddr = cur_addr\n                    aw.awlen = burst_length-1\n                    aw.awsize = cmd.size\n                    aw.awburst = cmd.burst\n                    aw.awlock = cmd.lock\n                    aw.awcache = cmd.cache\n                    aw.awprot = cmd.prot\n                    aw.awqos = cmd.qos\n                    aw.awregion = cmd.region\n                    aw.awuser = cmd.user\n", "                    aw = self._make_aw(cmd, awid, cur_addr, burst_length)\n"),
                     ("axi_master.py", "    async def _process_write(self):\n", "    def _make_aw(self, cmd, awid, addr, length):\n        aw = self.aw_channel._transaction_obj()\n        for name in ('size', 'burst', 'lock', 'cache', 'prot', 'qos', 'region', 'user'):\n            setattr(aw, 'aw'+name, getattr(cmd, name))\n        aw.awid = awid\n        aw.awaddr = addr\n        aw.awlen = length-1\n        return aw\n\n    async def _process_write(self):\n")]),
    ("m-aw-kwargs", [("axil_master.py", "                ar = self.ar_channel._transaction_obj()\n", "                ar = self.ar_channel._transaction_obj()\n                arprot = cmd.prot\n")]),
    ("m-wuser-pre", [("axi_master.py", "                if isinstance(wuser, int):\n                    w.wuser = wuser\n                else:\n                    if wuser and k < len(wuser):\n                        w.wuser = wuser[k]\n                    else:\n                        w.wuser = 0\n", "                if isinstance(wuser, int):\n                    beat_user = wuser\n                elif k < len(wuser):\n                    beat_user = wuser[k]\n                else:\n                    beat_user = 0\n                w.wuser = beat_user\n")]),
    ("m-wait-true", [("apb.py", "        while not self.idle():\n            await self._idle.wait()", "        while True:\n            if self.in_flight_operations == 0:\n                return\n            await self._idle.wait()")]),
    ("m-idle-split", [("axi_master.py", "        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())", "        if self.read_if and not self.read_if.idle():\n            return False\n        if self.write_if and not self.write_if.idle():\n            return False\n        return True")]),
    ("m-fwd-kw", [("axi_master.py", "        return await self.write_if.write(address, data, awid,\n            burst, size, lock, cache, prot, qos, region, user, wuser)", "        return await self.write_if.write(address, data, awid=awid, burst=burst, size=size, lock=lock, cache=cache,\n            prot=prot, qos=qos, region=region, user=user, wuser=wuser)")]),
    ("m-wuser-copy", [("axi_master.py", ("        if wuser is None:\n            wuser = 0\n        elif isinstance(wuser, int):\n            pass\n        else:\n            wuser = list(wuser)\n", -1), "        if wuser is None:\n            wuser = 0\n        if not isinstance(wuser, int):\n            wuser = list(wuser)\n")]),
    ("m-side-helper", [("axi_master.py", ("        if not self.awqos_present and qos != 0:\n            raise ValueError(\"awqos sideband signal value specified, but signal is not connected\")\n\n        if not self.awregion_present and region != 0:\n            raise ValueError(\"awregion sideband signal value specified, but signal is not connected\")\n", -1), "        for present, val, name in ((self.awqos_present, qos, 'awqos'), (self.awregion_present, region, 'awregion')):\n            if not present and val != 0:\n                raise ValueError(f\"{name} sideband signal value specified, but signal is not connected\")\n")]),
    ("o-full-flat", [("stream.py", "        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit:\n            return True\n        else:\n            return False", "        limit = self.queue_occupancy_limit\n        return limit > 0 and self.count() >= limit")]),
]
