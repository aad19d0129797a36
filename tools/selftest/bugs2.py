"""(name, property expected to report it, [(file, old, new)])"""
A = "axis.py"
BUGS = [
    # C27
    ("fr-mask", "C27", [(A, "tdata_val |= (frame.tdata[frame_offset] & self.byte_mask) << (offset * self.byte_size)", "tdata_val |= frame.tdata[frame_offset] << (offset * self.byte_size)")]),
    ("fr-shift8", "C27", [(A, "tdata_val |= (frame.tdata[frame_offset] & self.byte_mask) << (offset * self.byte_size)", "tdata_val |= (frame.tdata[frame_offset] & self.byte_mask) << (offset * 8)")]),
    ("fr-keeplane", "C27", [(A, "tkeep_val |= (frame.tkeep[frame_offset] & 1) << offset", "tkeep_val |= 1 << offset")]),
    ("fr-keepidx", "C27", [(A, "tkeep_val |= (frame.tkeep[frame_offset] & 1) << offset", "tkeep_val |= (frame.tkeep[offset] & 1) << offset")]),
    ("fr-tid-first", "C27", [(A, "tid_val = frame.tid[frame_offset]", "tid_val = frame.tid[0]")]),
    ("fr-swap", "C27", [(A, "tid_val = frame.tid[frame_offset]", "tid_val = frame.tdest[frame_offset]")]),
    ("fr-last-early", "C27", [(A, "if frame_offset >= len(frame.tdata):", "if frame_offset >= len(frame.tdata)-1:")]),
    ("fr-last-late", "C27", [(A, "                        if frame_offset >= len(frame.tdata):\n                            tlast_val = 1\n", "                        if frame_offset >= len(frame.tdata):\n                            tlast_val = int(offset > 0 or self.byte_lanes == 1)\n")]),
    ("fr-nolastlow", "C27", [(A, "                    if has_tlast:\n                        self.bus.tlast.value = tlast_val\n", "                    if has_tlast and tlast_val:\n                        self.bus.tlast.value = tlast_val\n")]),
    ("fr-nozero", "C27", [(A, "                    self.active = True\n                    frame_offset = 0\n", "                    self.active = True\n                    frame_offset = 0 if has_tlast else frame_offset\n")]),
    ("fr-mon-keep", "C27", [(A, "frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)", "frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 3)")]),
    ("fr-mon-size", "C27", [(A, "frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)", "frame.tdata.append((int(self.bus.tdata.value) >> (offset * 8)) & self.byte_mask)")]),
    ("fr-mon-mask", "C27", [(A, "frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)", "frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & 0xff)")]),
    ("fr-mon-tid", "C27", [(A, "                    if has_tid:\n                        frame.tid.append", "                    if has_tdest:\n                        frame.tid.append")]),
    ("fr-mon-ba", "C27", [(A, "if self.byte_size == 8:", "if self.byte_size <= 16:")]),
    ("fr-mon-user", "C27", [(A, "frame.tuser.append(int(self.bus.tuser.value))", "frame.tuser.append(int(self.bus.tuser.value) & 1)")]),
    ("fr-compact-def", "C27", [(A, "        if compact:\n            frame.compact()", "        if compact and self.byte_size == 8:\n            frame.compact()")]),
    ("fr-geom", "C27", [(A, "self.byte_mask = 2**self.byte_size-1", "self.byte_mask = 2**8-1")]),
    ("fr-geom2", "C27", [(A, "        if self.byte_lanes * self.byte_size != self.width:", "        if self.byte_lanes * self.byte_size > self.width:")]),
    ("fr-lanes-range", "C27", [(A, "                for offset in range(self.byte_lanes):\n                    frame.tdata.append", "                for offset in range(self.width // 8):\n                    frame.tdata.append")]),
    # C28
    ("nf-extend0", "C28", [(A, "self.tid = self.tid[:n] + [self.tid[-1]]*(n-len(self.tid))", "self.tid = self.tid[:n] + [0]*(n-len(self.tid))")]),
    ("nf-trunc", "C28", [(A, "self.tuser = self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))", "self.tuser = self.tuser + [self.tuser[-1]]*(n-len(self.tuser))")]),
    ("nf-keep0", "C28", [(A, "self.tkeep = [1]*n", "self.tkeep = [0]*n")]),
    ("nf-bool", "C28", [(A, "if type(self.tuser) in (int, bool):\n                self.tuser = [self.tuser]*n", "if type(self.tuser) is bool:\n                self.tuser = [self.tuser]*n")]),
    ("cp-fwd", "C28", [(A, "for k in range(len(self.tdata)-1, -1, -1):", "for k in range(len(self.tdata)):")]),
    ("cp-skip0", "C28", [(A, "for k in range(len(self.tdata)-1, -1, -1):", "for k in range(len(self.tdata)-1, 0, -1):")]),
    ("cp-nouser", "C28", [(A, "                    if type(self.tuser) is list and k < len(self.tuser):\n                        del self.tuser[k]\n", "")]),
    ("cp-idx", "C28", [(A, "                    if type(self.tid) is list and k < len(self.tid):\n                        del self.tid[k]\n", "                    if type(self.tid) is list and k < len(self.tid):\n                        del self.tid[-1]\n")]),
    ("cp-fold", "C28", [(A, "            elif all(self.tdest[0] == i for i in self.tdest):\n                self.tdest = self.tdest[0]", "            elif any(self.tdest[0] == i for i in self.tdest):\n                self.tdest = self.tdest[0]")]),
    ("cp-fold2", "C28", [(A, "            elif all(self.tuser[0] == i for i in self.tuser):\n                self.tuser = self.tuser[0]", "            elif self.tuser[0] == self.tuser[-1]:\n                self.tuser = self.tuser[0]")]),
    ("cp-keepstay", "C28", [(A, "        # remove tkeep\n        self.tkeep = None\n", "")]),
    ("cy-share", "C28", [(A, "                    self.tdest = list(tdata.tdest)", "                    self.tdest = tdata.tdest")]),
    ("cy-keep", "C28", [(A, "                self.tkeep = list(tdata.tkeep)", "                self.tkeep = tdata.tkeep")]),
    ("cy-wrong", "C28", [(A, "                    self.tuser = list(tdata.tuser)", "                    self.tuser = list(tdata.tid)")]),
    ("cy-ba", "C28", [(A, "            if type(tdata.tdata) is bytearray:\n                self.tdata = bytearray(tdata.tdata)\n            else:\n                self.tdata = list(tdata.tdata)", "            self.tdata = bytearray(tdata.tdata)")]),
    ("eq-user", "C28", [(A, "            elif self.tuser != other.tuser:\n                return False", "            elif type(self.tuser) is list and self.tuser != other.tuser:\n                return False")]),
    ("eq-first", "C28", [(A, "                for k in other.tid:\n                    if self.tid != k:\n                        return False", "                if self.tid != other.tid[0]:\n                    return False")]),
    ("eq-keep", "C28", [(A, "            if self.tkeep != other.tkeep:\n                return False", "            if len(self.tkeep) != len(other.tkeep):\n                return False")]),
    ("eq-side", "C28", [(A, "        if self.tdest is not None and other.tdest is not None:", "        if self.tdest and other.tdest:")]),
    # C29
    ("tc-noclear", "C29", [(A, "            frame.sim_time_end = None\n            frame.handle_tx_complete()\n        self.dequeue_event.set()", "            frame.sim_time_end = None\n        self.dequeue_event.set()")]),
    ("tc-early", "C29", [(A, "                    frame.normalize()\n                    self.active = True\n", "                    frame.normalize()\n                    self.active = True\n                    frame.handle_tx_complete()\n")]),
    ("tc-reset-twice", "C29", [(A, "                self.current_frame.handle_tx_complete()\n                self.current_frame = None\n", "                self.current_frame.handle_tx_complete()\n")]),
    ("tc-nocurrent-clear", "C29", [(A, "                            frame.handle_tx_complete()\n                            frame = None\n                            self.current_frame = None\n", "                            frame.handle_tx_complete()\n                            frame = None\n")]),
    ("tc-empty", "C29", [(A, "                        frame.sim_time_end = get_sim_time()\n                        frame.handle_tx_complete()\n                        frame = None\n                        self.current_frame = None\n\n", "                        frame.sim_time_end = get_sim_time()\n                        frame = None\n                        self.current_frame = None\n\n")]),
    ("tc-callarg", "C29", [(A, "            self.tx_complete(self)", "            self.tx_complete(self.tdata)")]),
    ("tc-setnoarg", "C29", [(A, "            self.tx_complete.set(self)", "            self.tx_complete.set()")]),
    ("tc-copy", "C29", [(A, "            self.tx_complete = tdata.tx_complete\n", "")]),
    ("tc-override", "C29", [(A, "        if tx_complete is not None:\n            self.tx_complete = tx_complete", "        if tx_complete is not None and self.tx_complete is None:\n            self.tx_complete = tx_complete")]),
    ("tc-reset-late", "C29", [(A, "            if self.current_frame:\n                self.log.warning", "            if self.current_frame and self.current_frame.sim_time_end is None and not self.queue.empty():\n                self.log.warning")]),
]
