M, S, A, P, L = "axi_master.py", "stream.py", "axis.py", "apb.py", "axi_slave.py"
BUGS = [
    # C32
    ("u-onlyfirst", "C32", [(M, "                if cycle_user is not None:\n                    user.append(cycle_user)\n", "                if cycle_user is not None and first:\n                    user.append(cycle_user)\n")]),
    ("u-zero", "C32", [(M, "                if cycle_user is not None:\n", "                if cycle_user:\n")]),
    ("u-zerob", "C32", [(M, "            if burst_user is not None:\n", "            if burst_user:\n")]),
    ("u-last", "C32", [(M, "                if cycle_user is not None:\n                    user.append(cycle_user)\n", "                if k == burst_length-1:\n                    user.append(cycle_user)\n")]),
    ("u-err", "C32", [(M, "                if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp\n\n                if cycle_user is not None:\n                    user.append(cycle_user)\n", "                if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp\n                elif cycle_user is not None:\n                    user.append(cycle_user)\n")]),
    ("u-dedup", "C32", [(M, "            if burst_user is not None:\n                user.append(burst_user)\n", "            if burst_user is not None and burst_user not in user:\n                user.append(burst_user)\n")]),
    ("u-mask", "C32", [(M, "int(getattr(b, 'buser', 0))", "int(getattr(b, 'buser', 0)) & 0xff")]),
    ("u-perbyte", "C32", [(M, "                    data.append((cycle_data >> j*8) & 0xff)\n", "                    data.append((cycle_data >> j*8) & 0xff)\n                    user.append(cycle_user)\n"), (M, "                if cycle_user is not None:\n                    user.append(cycle_user)\n\n", "")]),
    ("u-wrongpres", "C32", [(M, "        if not self.ruser_present:\n", "        if not self.aruser_present:\n")]),
    ("u-wrongpresb", "C32", [(M, "        if not self.buser_present:\n", "        if not self.wuser_present:\n")]),
    ("u-inv", "C32", [(M, "        if not self.buser_present:\n", "        if self.buser_present:\n")]),
    ("u-sort", "C32", [(M, "        if not self.ruser_present:\n", "        user.sort()\n\n        if not self.ruser_present:\n")]),
    ("u-insert", "C32", [(M, "                if cycle_user is not None:\n                    user.append(cycle_user)\n", "                if cycle_user is not None:\n                    user.insert(0, cycle_user)\n")]),
    ("u-reset", "C32", [(M, "        for burst_length in cmd.burst_list:\n            for k in range(burst_length):\n                r = await", "        for burst_length in cmd.burst_list:\n            user = []\n            for k in range(burst_length):\n                r = await")]),
    ("u-slice", "C32", [(M, "bytes(data), resp, user)", "bytes(data), resp, user and user[:cmd.length])")]),
    ("u-resp", "C32", [(M, "int(getattr(b, 'buser', 0))", "int(getattr(b, 'bresp', 0))")]),
    ("u-stale", "C32", [(M, "                cycle_user = int(getattr(r, \"ruser\", 0))\n", "                if first:\n                    cycle_user = int(getattr(r, \"ruser\", 0))\n")]),
    ("u-awuser", "C32", [(M, "        self.buser_present = hasattr(self.bus.b, \"buser\")", "        self.buser_present = hasattr(self.bus.aw, \"awuser\")")]),
    # C33
    ("p-src", "C33", [(S, "                if not self.queue.empty() and not self.pause:\n", "                if not self.queue.empty() and not (self.pause and not self.active):\n")]),
    ("p-srcstale", "C33", [(S, "            await clock_edge_event\n\n            # read handshake signals\n            ready_sample = not has_ready or self.ready.value\n            valid_sample = not has_valid or self.valid.value\n\n            if (ready_sample and valid_sample) or", "            paused = self.pause\n            await clock_edge_event\n\n            # read handshake signals\n            ready_sample = not has_ready or self.ready.value\n            valid_sample = not has_valid or self.valid.value\n\n            if (ready_sample and valid_sample) or"), (S, "                if not self.queue.empty() and not self.pause:\n", "                if not self.queue.empty() and not paused:\n")]),
    ("p-axismid", "C33", [(A, "                if frame and not self.pause:\n", "                if frame and (frame_offset or not self.pause):\n")]),
    ("p-axisfirst", "C33", [(A, "                if frame and not self.pause:\n", "                if frame and (not frame_offset or not self.pause):\n")]),
    ("p-sink", "C33", [(S, "                paused = self.full() or pause_sample\n\n                self.ready.value = not paused\n", "                paused = self.full() or pause_sample\n\n                self.ready.value = not paused or (valid_sample and not ready_sample and not self.full())\n")]),
    ("p-axissink", "C33", [(A, "                paused = self.full() or pause_sample\n\n                self.bus.tready.value = not paused\n", "                paused = self.full() or pause_sample\n\n                self.bus.tready.value = not paused or frame is not None\n")]),
    ("p-apbm", "C33", [(P, "                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n", "                while self.pause and k == 0:\n                    await clock_edge_event\n\n                if k == 0:\n")]),
    ("p-apbonce", "C33", [(P, "                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n", "                if self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n")]),
    ("p-apbs", "C33", [(P, "            while self.pause:\n                await clock_edge_event\n\n            if (int(self.bus.pwrite", "            while self.pause and int(self.bus.pwrite.value):\n                await clock_edge_event\n\n            if (int(self.bus.pwrite")]),
    ("p-apbhoist", "C33", [(P, "                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n", "                if k == 0:\n"), (P, "            for k in range(cycles):\n                start = 0\n", "            while self.pause:\n                await clock_edge_event\n\n            for k in range(cycles):\n                start = 0\n")]),
    ("p-rstclear", "C33", [(S, "            if self.queue.empty():\n                self.idle_event.set()\n        else:", "            if self.queue.empty():\n                self.idle_event.set()\n            self._pause = False\n        else:")]),
    ("p-init", "C33", [(A, "        self._pause = False\n", "        self._pause = True\n")]),
    ("p-genend", "C33", [(P, "        for val in self._pause_generator:\n            self.pause = val\n            await clock_edge_event\n", "        for val in self._pause_generator:\n            self.pause = val\n            await clock_edge_event\n            await clock_edge_event\n")]),
    ("p-genkill", "C33", [(P, "        if self._pause_cr is not None:\n            self._pause_cr.kill()\n            self._pause_cr = None\n", "        if self._pause_cr is not None and generator is None:\n            self._pause_cr.kill()\n            self._pause_cr = None\n")]),
    ("p-setter", "C33", [(P, "        if self._pause != val:\n            self._pause_update(val)\n        self._pause = val\n", "        if self._pause != val:\n            self._pause_update(val)\n        self._pause = self._pause or val\n")]),
    # C34
    ("t-startdeq", "C34", [(A, "                        frame = AxiStreamFrame([], [], [], [], [])\n                    frame.sim_time_start = get_sim_time()\n                    self.active = True\n\n                for offset", "                        frame = AxiStreamFrame([], [], [], [], [])\n                    self.active = True\n                frame.sim_time_start = get_sim_time()\n\n                for offset")]),
    ("t-endafter", "C34", [(A, "                            frame.sim_time_end = get_sim_time()\n                            frame.handle_tx_complete()\n", "                            frame.handle_tx_complete()\n                            frame.sim_time_end = get_sim_time()\n")]),
    ("t-noend", "C34", [(A, "                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n", "                    if len(frame) > 1:\n                        frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n")]),
    ("t-rststale", "C34", [(A, "                    frame.sim_time_end = None\n                    self.log.info(\"TX frame", "                    self.log.info(\"TX frame")]),
    ("t-clrend", "C34", [(A, "            frame.sim_time_end = None\n            frame.handle_tx_complete()\n", "            frame.handle_tx_complete()\n")]),
    ("t-clrend2", "C34", [(A, "            frame.sim_time_end = None\n            frame.handle_tx_complete()\n", "            frame.sim_time_end = get_sim_time()\n            frame.handle_tx_complete()\n")]),
    ("t-copy", "C34", [(A, "            self.sim_time_end = tdata.sim_time_end\n", "            self.sim_time_end = tdata.sim_time_start\n")]),
    ("t-restart", "C34", [(A, "                if frame and not self.pause:\n", "                if frame and not self.pause:\n                    frame.sim_time_start = get_sim_time()\n")]),
    ("t-stale", "C34", [(A, "        while True:\n            pause_sample = bool(self.pause)\n\n            await clock_edge_event\n", "        while True:\n            pause_sample = bool(self.pause)\n            now = get_sim_time()\n\n            await clock_edge_event\n"), (A, ("                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n", -1), "                    frame.sim_time_end = now if self._type == 'sink' else get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n")]),
    ("t-units", "C34", [(A, "                    frame.sim_time_start = get_sim_time()\n                    frame.sim_time_end = None\n", "                    frame.sim_time_start = get_sim_time('ns')\n                    frame.sim_time_end = None\n")]),
    ("t-compact", "C34", [(A, "    def compact(self):\n", "    def compact(self):\n        self.sim_time_end = self.sim_time_end or self.sim_time_start\n")]),
    ("t-recv", "C34", [(A, "    def _recv(self, frame, compact=True):\n", "    def _recv(self, frame, compact=True):\n        frame.sim_time_end = get_sim_time()\n")]),
    ("t-noenddata", "C34", [(A, "                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n\n                    self.queue_occupancy_bytes += len(frame)\n                    self.queue_occupancy_frames += 1\n\n                    self.queue.put_nowait(frame)\n", "                    self.log.info(\"RX frame: %s\", frame)\n\n                    self.queue_occupancy_bytes += len(frame)\n                    self.queue_occupancy_frames += 1\n\n                    self.queue.put_nowait(frame)\n                    frame.sim_time_end = get_sim_time()\n")]),
]
