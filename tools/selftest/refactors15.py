"""larger rewrites that keep the behaviour: tables, helpers, split hooks, shared validation"""
S = "stream.py"
A = "axis.py"
M = "axi_master.py"
L = "axil_master.py"

SRC_BODY = '''            if (ready_sample and valid_sample) or (not valid_sample):
                if not self.queue.empty() and not self.pause:
                    self.bus.drive(self.queue.get_nowait())
                    self.dequeue_event.set()
                    if has_valid:
                        self.valid.value = 1
                    self.active = True
                else:
                    if has_valid:
                        self.valid.value = 0
                    self.active = not self.queue.empty()
                    if self.queue.empty():
                        self.idle_event.set()
                        self.active_event.clear()

                        await self.active_event.wait()
'''
SRC_SPLIT = '''            if valid_sample and not ready_sample:
                continue

            if self.pause or self.queue.empty():
                self._set_valid(False)
                self.active = not self.queue.empty()
                if not self.active:
                    await self._sleep()
                continue

            self._present(self.queue.get_nowait())
'''
SRC_HELP = '''    def _set_valid(self, state):
        if self.valid is not None:
            self.valid.value = int(state)

    def _present(self, obj):
        self.bus.drive(obj)
        self.dequeue_event.set()
        self._set_valid(True)
        self.active = True

    async def _sleep(self):
        self.idle_event.set()
        self.active_event.clear()
        await self.active_event.wait()

    async def _run(self):
        has_valid = self.valid is not None
        has_ready = self.ready is not None

        clock_edge_event = RisingEdge(self.clock)

        while True:
            await clock_edge_event

            # read handshake signals
            ready_sample = not has_ready or self.ready.value
            valid_sample = not has_valid or self.valid.value

            if (ready_sample'''
SRC_HEAD = '''    async def _run(self):
        has_valid = self.valid is not None
        has_ready = self.ready is not None

        clock_edge_event = RisingEdge(self.clock)

        while True:
            await clock_edge_event

            # read handshake signals
            ready_sample = not has_ready or self.ready.value
            valid_sample = not has_valid or self.valid.value

            if (ready_sample'''
RST_AXIS = '''            self.bus.tdata.value = 0
            if hasattr(self.bus, "tvalid"):
                self.bus.tvalid.value = 0
            if hasattr(self.bus, "tlast"):
                self.bus.tlast.value = 0
            if hasattr(self.bus, "tkeep"):
                self.bus.tkeep.value = 0
            if hasattr(self.bus, "tid"):
                self.bus.tid.value = 0
            if hasattr(self.bus, "tdest"):
                self.bus.tdest.value = 0
            if hasattr(self.bus, "tuser"):
                self.bus.tuser.value = 0
'''
RST_AXIS_LOOP = '''            for sig in ("tdata", "tvalid", "tlast", "tkeep", "tid", "tdest", "tuser"):
                if hasattr(self.bus, sig):
                    getattr(self.bus, sig).value = 0
'''
RST_AXIS_LOOP2 = '''            for sig in self.bus._signals+self.bus._optional_signals:
                if sig != "tready" and hasattr(self.bus, sig):
                    getattr(self.bus, sig).value = 0
'''
RST_STREAM = '''    def _handle_reset(self, state):
        if state:
            self.log.info("Reset asserted")
            if self._run_cr is not None:
                self._run_cr.kill()
                self._run_cr = None

            self.active = False

            if self.queue.empty():
                self.idle_event.set()
        else:
            self.log.info("Reset de-asserted")
            if self._run_cr is None:
                self._run_cr = cocotb.start_soon(self._run())
'''
RST_STREAM_SPLIT = '''    def _stop(self):
        cr, self._run_cr = self._run_cr, None
        if cr is not None:
            cr.kill()

        self.active = False

        if self.queue.empty():
            self.idle_event.set()

    def _start(self):
        if self._run_cr is None:
            self._run_cr = cocotb.start_soon(self._run())

    def _handle_reset(self, state):
        self.log.info("Reset asserted" if state else "Reset de-asserted")
        if state:
            self._stop()
        else:
            self._start()
'''
KILL_W = '''            if self._process_write_cr is not None:
                self._process_write_cr.kill()
                self._process_write_cr = None
            if self._process_write_resp_cr is not None:
                self._process_write_resp_cr.kill()
                self._process_write_resp_cr = None
'''
KILL_LOOP = '''            for name in ("_process_write_cr", "_process_write_resp_cr"):
                cr = getattr(self, name)
                if cr is not None:
                    cr.kill()
                    setattr(self, name, None)
'''
KILL_HELP = '''            self._process_write_cr = self._kill(self._process_write_cr)
            self._process_write_resp_cr = self._kill(self._process_write_resp_cr)
'''
CLR = '''            self.aw_channel.clear()
            self.w_channel.clear()
            self.b_channel.clear()
'''
CLR_LOOP = '''            for channel in (self.aw_channel, self.w_channel, self.b_channel):
                channel.clear()
'''
SB = '''        if not self.awlock_present and lock != AxiLockType.NORMAL:
            raise ValueError("awlock sideband signal value specified, but signal is not connected")

        if not self.awcache_present and cache != 0b0011:
            raise ValueError("awcache sideband signal value specified, but signal is not connected")

        if not self.awprot_present and prot != AxiProt.NONSECURE:
            raise ValueError("awprot sideband signal value specified, but signal is not connected")

        if not self.awqos_present and qos != 0:
            raise ValueError("awqos sideband signal value specified, but signal is not connected")

        if not self.awregion_present and region != 0:
            raise ValueError("awregion sideband signal value specified, but signal is not connected")

        if not self.awuser_present and user != 0:
            raise ValueError("awuser sideband signal value specified, but signal is not connected")

        if not self.wuser_present and wuser != 0:
            raise ValueError("wuser sideband signal value specified, but signal is not connected")
'''
SB_TAB = '''        for name, present, value, default in (
                ("awlock", self.awlock_present, lock, AxiLockType.NORMAL),
                ("awcache", self.awcache_present, cache, 0b0011),
                ("awprot", self.awprot_present, prot, AxiProt.NONSECURE),
                ("awqos", self.awqos_present, qos, 0),
                ("awregion", self.awregion_present, region, 0),
                ("awuser", self.awuser_present, user, 0),
                ("wuser", self.wuser_present, wuser, 0)):
            if not present and value != default:
                raise ValueError(f"{name} sideband signal value specified, but signal is not connected")
'''
SB_HELP = '''        self._check_sideband("awlock", self.awlock_present, lock, AxiLockType.NORMAL)
        self._check_sideband("awcache", self.awcache_present, cache, 0b0011)
        self._check_sideband("awprot", self.awprot_present, prot, AxiProt.NONSECURE)
        self._check_sideband("awqos", self.awqos_present, qos, 0)
        self._check_sideband("awregion", self.awregion_present, region, 0)
        self._check_sideband("awuser", self.awuser_present, user, 0)
        self._check_sideband("wuser", self.wuser_present, wuser, 0)
'''
SB_DEF = '''    @staticmethod
    def _check_sideband(name, present, value, default):
        if present or value == default:
            return
        raise ValueError(f"{name} sideband signal value specified, but signal is not connected")

    def init_write(self, address, data, awid'''
SB_DEF2 = SB_DEF.replace("    @staticmethod\n    def _check_sideband(name,", "    def _check_sideband(self, name,")
MON = '''                    frame.tdata.append((int(self.bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)
                    if has_tkeep:
                        frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)
                    if has_tid:
                        frame.tid.append(int(self.bus.tid.value))
                    if has_tdest:
                        frame.tdest.append(int(self.bus.tdest.value))
                    if has_tuser:
                        frame.tuser.append(int(self.bus.tuser.value))
'''
MON_H = '''                    self._sample_lane(frame, offset)
'''
MON_DEF = '''    def _sample_lane(self, frame, offset):
        bus = self.bus
        frame.tdata.append((int(bus.tdata.value) >> (offset * self.byte_size)) & self.byte_mask)
        if hasattr(bus, "tkeep"):
            frame.tkeep.append((int(bus.tkeep.value) >> offset) & 1)
        for sig in ("tid", "tdest", "tuser"):
            if hasattr(bus, sig):
                getattr(frame, sig).append(int(getattr(bus, sig).value))

'''
REFACTORS = [
    ("rf-src", [(S, SRC_BODY, SRC_SPLIT), (S, SRC_HEAD.replace("            if (ready_sample", "            if valid_sample and not"), SRC_HELP.replace("            if (ready_sample", "            if valid_sample and not"))]),
    ("rf-srchelp", [(S, SRC_HEAD, SRC_HELP)]),
    ("rf-rstloop", [(A, RST_AXIS, RST_AXIS_LOOP)]),
    ("rf-rstloop2", [(A, RST_AXIS, RST_AXIS_LOOP2)]),
    ("rf-rststream", [(S, RST_STREAM, RST_STREAM_SPLIT)]),
    ("rf-rstaxis", [(A, RST_STREAM, RST_STREAM_SPLIT)]),
    ("rf-kill", [(M, KILL_W, KILL_LOOP)]),
    ("rf-killl", [(L, KILL_W, KILL_LOOP)]),
    ("rf-killh", [(M, KILL_W, KILL_HELP), (M, "    def init_write(self, address, data, awid", "    @staticmethod\n    def _kill(cr):\n        if cr is not None:\n            cr.kill()\n        return None\n\n    def init_write(self, address, data, awid")]),
    ("rf-clr", [(M, (CLR, 1), CLR_LOOP)]),
    ("rf-clrl", [(L, (CLR, 1), CLR_LOOP)]),
    ("rf-sbtab", [(M, (SB, -1), SB_TAB)]),
    ("rf-sbhelp", [(M, (SB, -1), SB_HELP), (M, "    def init_write(self, address, data, awid", SB_DEF)]),
    ("rf-sbhelp2", [(M, (SB, -1), SB_HELP), (M, "    def init_write(self, address, data, awid", SB_DEF2)]),
    ("rf-mon", [(A, (MON, -1), MON_H), (A, "    def _recv(self, frame, compact=True):\n", MON_DEF+"    def _recv(self, frame, compact=True):\n")]),
]
