"""behaviour-preserving edits: every check must stay quiet"""
A = "axis.py"
NORM = '''        if self.tid is not None and self.tid != []:
            if type(self.tid) in (int, bool):
                self.tid = [self.tid]*n
            else:
                self.tid = self.tid[:n] + [self.tid[-1]]*(n-len(self.tid))
        else:
            self.tid = [0]*n

        if self.tdest is not None and self.tdest != []:
            if type(self.tdest) in (int, bool):
                self.tdest = [self.tdest]*n
            else:
                self.tdest = self.tdest[:n] + [self.tdest[-1]]*(n-len(self.tdest))
        else:
            self.tdest = [0]*n

        if self.tuser is not None and self.tuser != []:
            if type(self.tuser) in (int, bool):
                self.tuser = [self.tuser]*n
            else:
                self.tuser = self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))
        else:
            self.tuser = [0]*n
'''
NORM2 = '''        for name in ("tid", "tdest", "tuser"):
            setattr(self, name, self._spread(getattr(self, name), n))

    @staticmethod
    def _spread(val, n):
        if val is None or val == []:
            return [0]*n
        if isinstance(val, int):
            return [val]*n
        return (val + [val[-1]]*max(n-len(val), 0))[:n]
'''
LANES = '''                    for offset in range(self.byte_lanes):
                        tdata_val |= (frame.tdata[frame_offset] & self.byte_mask) << (offset * self.byte_size)
                        tkeep_val |= (frame.tkeep[frame_offset] & 1) << offset
                        tid_val = frame.tid[frame_offset]
                        tdest_val = frame.tdest[frame_offset]
                        tuser_val = frame.tuser[frame_offset]
                        frame_offset += 1

                        if frame_offset >= len(frame.tdata):
                            tlast_val = 1
                            frame.sim_time_end = get_sim_time()
                            frame.handle_tx_complete()
                            frame = None
                            self.current_frame = None
                            break
'''
LANES2 = '''                    count = min(self.byte_lanes, len(frame.tdata) - frame_offset)
                    for lane in range(count):
                        index = frame_offset + lane
                        tdata_val |= (frame.tdata[index] & self.byte_mask) << (self.byte_size * lane)
                        if frame.tkeep[index] & 1:
                            tkeep_val |= 1 << lane
                        tid_val = frame.tid[index]
                        tdest_val = frame.tdest[index]
                        tuser_val = frame.tuser[index]
                    frame_offset += count

                    if frame_offset >= len(frame.tdata):
                        tlast_val = 1
                        frame.sim_time_end = get_sim_time()
                        frame.handle_tx_complete()
                        frame = None
                        self.current_frame = None
'''
LANES3 = '''                    offset = 0
                    while offset < self.byte_lanes:
                        tdata_val += (frame.tdata[frame_offset] % (1 << self.byte_size)) << (offset * self.byte_size)
                        tkeep_val |= (frame.tkeep[frame_offset] & 1) << offset
                        tid_val = frame.tid[frame_offset]
                        tdest_val = frame.tdest[frame_offset]
                        tuser_val = frame.tuser[frame_offset]
                        frame_offset += 1
                        offset += 1
                        if frame_offset == len(frame.tdata):
                            break

                    if frame_offset == len(frame.tdata):
                        tlast_val = 1
                        frame = self._finish(frame)
'''
FIN = '''    def _finish(self, frame):
        frame.sim_time_end = get_sim_time()
        frame.handle_tx_complete()
        self.current_frame = None
        return None

    async def _run(self):
        frame = None
        frame_offset = 0
'''
REFACTORS = [
    ("fr-spread", [(A, NORM, NORM2)]),
    ("fr-count", [(A, LANES, LANES2)]),
    ("fr-while", [(A, LANES, LANES3), (A, "    async def _run(self):\n        frame = None\n        frame_offset = 0\n", FIN)]),
    ("fr-finish", [(A, "    async def _run(self):\n        frame = None\n        frame_offset = 0\n", FIN),
                   (A, "                            frame.sim_time_end = get_sim_time()\n                            frame.handle_tx_complete()\n                            frame = None\n                            self.current_frame = None\n                            break", "                            frame = self._finish(frame)\n                            break"),
                   (A, "                        frame.sim_time_end = get_sim_time()\n                        frame.handle_tx_complete()\n                        frame = None\n                        self.current_frame = None\n\n", "                        frame = self._finish(frame)\n\n")]),
    ("fr-monhelper", [(A, ("                for offset in range(self.byte_lanes):\n                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)\n", -1),
                       "                data = int(self.bus.tdata.value)\n                for offset in range(self.byte_lanes):\n                    frame.tdata.append((data >> (offset * self.byte_size)) & self.byte_mask)\n")]),
    ("fr-monshift", [(A, ("                for offset in range(self.byte_lanes):\n                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)\n", -1),
                      "                data = int(self.bus.tdata.value)\n                for offset in range(self.byte_lanes):\n                    frame.tdata.append(data & self.byte_mask)\n                    data >>= self.byte_size\n")]),
    ("fr-monext", [(A, ("                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value))\n", -1), ""),
                   (A, ("                if not has_tlast or self.bus.tlast.value:", -1), "                if has_tid:\n                    frame.tid.extend([int(self.bus.tid.value)]*self.byte_lanes)\n\n                if not has_tlast or self.bus.tlast.value:")]),
    ("cp-zip", [(A, "            for k in range(len(self.tdata)-1, -1, -1):\n                if not self.tkeep[k]:\n", "            for k in reversed(range(len(self.tdata))):\n                if self.tkeep[k]:\n                    continue\n                else:\n")]),
    ("cp-fold", [(A, "            if len(self.tid) == 0:\n                self.tid = None\n            elif all(self.tid[0] == i for i in self.tid):\n                self.tid = self.tid[0]", "            if not self.tid:\n                self.tid = None\n            elif self.tid == [self.tid[0]]*len(self.tid):\n                self.tid = self.tid[0]")]),
    ("eq-all", [(A, "                for k in other.tid:\n                    if self.tid != k:\n                        return False", "                if any(k != self.tid for k in other.tid):\n                    return False"),
                (A, "        if self.tkeep is not None and other.tkeep is not None:\n            if self.tkeep != other.tkeep:\n                return False", "        if None not in (self.tkeep, other.tkeep) and self.tkeep != other.tkeep:\n            return False")]),
    ("eq-helper", [(A, "        if self.tuser is not None and other.tuser is not None:\n            if type(self.tuser) in (int, bool) and type(other.tuser) is list:\n                for k in other.tuser:\n                    if self.tuser != k:\n                        return False\n            elif type(other.tuser) in (int, bool) and type(self.tuser) is list:\n                for k in self.tuser:\n                    if other.tuser != k:\n                        return False\n            elif self.tuser != other.tuser:\n                return False\n\n        return True",
                    "        return self._same(self.tuser, other.tuser)\n\n    @staticmethod\n    def _same(a, b):\n        if a is None or b is None:\n            return True\n        if isinstance(a, int) and isinstance(b, list):\n            return all(a == k for k in b)\n        if isinstance(b, int) and isinstance(a, list):\n            return all(b == k for k in a)\n        return a == b")]),
    ("tc-htc", [(A, "        if isinstance(self.tx_complete, Event):\n            self.tx_complete.set(self)\n        elif callable(self.tx_complete):\n            self.tx_complete(self)", "        handler = self.tx_complete\n        if handler is None:\n            return\n        if isinstance(handler, Event):\n            handler.set(self)\n            return\n        if callable(handler):\n            handler(self)")]),
    ("tc-reset", [(A, "            if self.current_frame:\n                self.log.warning(\"Flushed transmit frame during reset: %s\", self.current_frame)\n                self.current_frame.handle_tx_complete()\n                self.current_frame = None", "            aborted, self.current_frame = self.current_frame, None\n            if aborted is not None:\n                self.log.warning(\"Flushed transmit frame during reset: %s\", aborted)\n                aborted.handle_tx_complete()")]),
]
