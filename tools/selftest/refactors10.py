M, S, A, P, L = "axi_master.py", "stream.py", "axis.py", "apb.py", "axi_slave.py"
REFACTORS = [
    ("ur-guard", [(M, "                if cycle_user is not None:\n                    user.append(cycle_user)\n", "                user.append(cycle_user)\n")]),
    ("ur-iadd", [(M, "                if cycle_user is not None:\n                    user.append(cycle_user)\n", "                user += [cycle_user]\n")]),
    ("ur-pres", [(M, "            if burst_user is not None:\n                user.append(burst_user)\n", "            if self.buser_present:\n                user.append(int(b.buser))\n"), (M, "            burst_user = int(getattr(b, 'buser', 0))\n", "")]),
    ("ur-none", [(M, "        resp = AxiResp.OKAY\n        user = []\n\n        for burst_length in cmd.burst_list:\n            b =", "        resp = AxiResp.OKAY\n        user = [] if self.buser_present else None\n\n        for burst_length in cmd.burst_list:\n            b ="), (M, "            if burst_user is not None:\n", "            if user is not None:\n"), (M, "        if not self.buser_present:\n            user = None\n\n", "")]),
    ("ur-cond", [(M, "        if not self.ruser_present:\n            user = None\n\n", ""), (M, "bytes(data), resp, user)", "bytes(data), resp, user if self.ruser_present else None)")]),
    ("ur-copy", [(M, "bytes(data), resp, user)", "bytes(data), resp, list(user) if user is not None else None)")]),
    ("ur-helper", [(M, "        if not self.ruser_present:\n            user = None\n\n", "        user = self._reported(user)\n\n"), (M, "    async def _process_read_resp_id(", "    def _reported(self, user):\n        return user if self.ruser_present else None\n\n    async def _process_read_resp_id(")]),
    ("pr-local", [(S, "                if not self.queue.empty() and not self.pause:\n", "                paused = self.pause\n                if not self.queue.empty() and not paused:\n")]),
    ("pr-nest", [(A, "                if frame and not self.pause:\n", "                stalled = bool(self.pause)\n                if frame and not stalled:\n")]),
    ("pr-while", [(P, "                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n", "                while True:\n                    if not self.pause:\n                        break\n                    await clock_edge_event\n\n                if k == 0:\n")]),
    ("pr-helper", [(P, "                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n", "                await self._wait_unpaused(clock_edge_event)\n\n                if k == 0:\n"), (P, "    async def _run(self):\n", "    async def _wait_unpaused(self, edge):\n        while self.pause:\n            await edge\n\n    async def _run(self):\n")]),
    ("pr-setter", [(S, "        if self._pause != val:\n            self._pause_update(val)\n        self._pause = val\n", "        if self._pause == val:\n            return\n        self._pause_update(val)\n        self._pause = val\n")]),
    ("pr-sink", [(S, "                paused = self.full() or pause_sample\n\n                self.ready.value = not paused\n", "                paused = pause_sample or self.full()\n\n                self.ready.value = int(not paused)\n")]),
    ("tr-now", [(A, ("                    frame.sim_time_end = get_sim_time()\n                    self.log.info(\"RX frame: %s\", frame)\n", -1), "                    now = get_sim_time()\n                    frame.sim_time_end = now\n                    self.log.info(\"RX frame: %s\", frame)\n")]),
    ("tr-tuple", [(A, "                    frame.sim_time_start = get_sim_time()\n                    frame.sim_time_end = None\n", "                    frame.sim_time_start, frame.sim_time_end = get_sim_time(), None\n")]),
    ("tr-helper", [(A, "                            frame.sim_time_end = get_sim_time()\n                            frame.handle_tx_complete()\n                            frame = None\n                            self.current_frame = None\n                            break\n", "                            self._finish(frame)\n                            frame = None\n                            break\n"), (A, "class AxiStreamSource(AxiStreamBase, AxiStreamPause):\n", "class AxiStreamSource(AxiStreamBase, AxiStreamPause):\n\n    def _finish(self, frame):\n        frame.sim_time_end = get_sim_time()\n        frame.handle_tx_complete()\n        self.current_frame = None\n")]),
    ("tr-unit", [(A, ("get_sim_time()", -1), "get_sim_time('step')")]),
    ("tr-first", [(A, "                    frame.sim_time_start = get_sim_time()\n                    frame.sim_time_end = None\n", "                    frame.sim_time_end = None\n                    frame.sim_time_start = get_sim_time()\n")]),
]
