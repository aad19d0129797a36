A = "axi_channels.py"
L = "axil_channels.py"
S = "stream.py"
K = "constants.py"
BUGS = [
    ("w-opt", "C31", [(A, 'signals=["wdata", "wlast", "wvalid", "wready"],\n    optional_signals=["wstrb", "wuser"],', 'signals=["wdata", "wlast", "wstrb", "wvalid", "wready"],\n    optional_signals=["wuser"],')]),
    ("w-miss", "C31", [(A, '"awlock", "awcache", "awprot", "awqos", "awregion", "awuser"]', '"awlock", "awcache", "awprot", "awqos", "awuser"]')]),
    ("w-name", "C31", [(A, '"arqos", "arregion", "aruser"]', '"arqos", "awregion", "aruser"]')]),
    ("w-width", "C31", [(A, '"awlen": 8, "awsize": 3', '"awlen": 4, "awsize": 3')]),
    ("w-swap", "C31", [(A, 'AxiWBus, AxiWTransaction, AxiWSource, AxiWSink, AxiWMonitor', 'AxiWBus, AxiWTransaction, AxiWSource, AxiWMonitor, AxiWSink')]),
    ("w-lswap", "C31", [(L, 'AxiLiteBBus, AxiLiteBTransaction, AxiLiteBSource, AxiLiteBSink, AxiLiteBMonitor', 'AxiLiteBBus, AxiLiteBTransaction, AxiLiteBSink, AxiLiteBSource, AxiLiteBMonitor')]),
    ("w-valid", "C31", [(S, "            if s.lower().endswith('ready'):\n                ready_signal = s\n", "            if s.lower().endswith('valid'):\n                ready_signal = s\n")]),
    ("w-filter", "C31", [(S, "        if s not in (ready_signal, valid_signal):\n            filtered", "        if s not in (ready_signal, valid_signal) and s not in optional_signals:\n            filtered")]),
    ("w-aliased", "C31", [(S, "    all_signals = signals.copy()", "    all_signals = signals")]),
    ("w-default", "C31", [(S, "attrib = {s: 0 for s in filtered_signals}", "attrib = {s: 1 for s in filtered_signals}")]),
    ("w-def2", "C31", [(S, "                setattr(self, sig, 0)", "                setattr(self, sig, 1)")]),
    ("w-cache", "C31", [(K, "ARCACHE_WRITE_BACK_READ_ALLOC = 0b1111", "ARCACHE_WRITE_BACK_READ_ALLOC = 0b0111")]),
    ("w-resp", "C31", [(K, "    SLVERR = 0b10\n    DECERR = 0b11", "    SLVERR = 0b11\n    DECERR = 0b10")]),
    ("w-prot", "C31", [(K, "    NONSECURE   = 0b010\n    INSTRUCTION = 0b100", "    NONSECURE   = 0b100\n    INSTRUCTION = 0b010")]),
    ("w-burst", "C31", [(K, "    INCR  = 0b01\n    WRAP  = 0b10", "    INCR  = 0b10\n    WRAP  = 0b11")]),
    ("w-pre", "C31", [(A, "        b = AxiBBus.from_prefix(entity, prefix, **kwargs)", "        b = AxiBBus.from_entity(entity, **kwargs)")]),
    ("w-cls", "C31", [(L, "        ar = AxiLiteARBus.from_prefix(entity, prefix, **kwargs)", "        ar = AxiLiteAWBus.from_prefix(entity, prefix, **kwargs)")]),
    ("w-order", "C31", [(A, "write = AxiWriteBus.from_channels(aw, w, b)", "write = AxiWriteBus.from_channels(w, aw, b)")]),
    ("w-kw", "C31", [(L, "        r = AxiLiteRBus.from_entity(entity, **kwargs)", "        r = AxiLiteRBus.from_entity(entity)")]),
    ("w-buskw", "C31", [(S, "        return cls(entity, prefix, **kwargs)", "        return cls(entity, prefix)")]),
    ("w-mon", "C31", [("axil_slave.py", "self.w_channel = AxiLiteWSink(bus.w,", "self.w_channel = AxiLiteWMonitor(bus.w,"), ("axil_slave.py", "AxiLiteWSink", "AxiLiteWMonitor")]),
    ("w-chan", "C31", [("axi_slave.py", "self.w_channel = AxiWSink(bus.w,", "self.w_channel = AxiWSink(bus.aw,")]),
    ("w-half", "C31", [("axil_master.py", "AxiLiteMasterRead(bus.read,", "AxiLiteMasterRead(bus.write,")]),
    ("w-apb", "C31", [("apb.py", '_optional_signals = ["pprot", "pslverr"]', '_optional_signals = ["pprot"]')]),
    ("w-axis", "C31", [("axis.py", '_signals = ["tdata"]\n    _optional_signals = ["tvalid", "tready", "tlast", "tkeep", "tid", "tdest", "tuser"]\n\n    _type', '_signals = ["tdata"]\n    _optional_signals = ["tvalid", "tready", "tlast", "tkeep", "tid", "tdest"]\n\n    _type')]),
    ("w-exp", "C31", [("__init__.py", "from .axi_master import AxiMasterWrite, AxiMasterRead, AxiMaster", "from .axi_master import AxiMasterWrite, AxiMasterRead, AxiMasterRead as AxiMaster")]),
]
X = "axis.py"
BUGS += [
    ("o-last", "C12", [(X, "            if hasattr(self.bus, \"tlast\"):\n                self.bus.tlast.value = 0\n", "            self.bus.tlast.value = 0\n")]),
    ("o-dest", "C12", [(X, "                    if has_tdest:\n                        self.bus.tdest.value = tdest_val", "                    if has_tid:\n                        self.bus.tdest.value = tdest_val")]),
    ("o-rdy", "C12", [(X, ("            tready_sample = (not has_tready) or self.bus.tready.value", 1), "            tready_sample = self.bus.tready.value")]),
    ("o-user", "C12", [(X, "                    if has_tuser:\n                        frame.tuser.append", "                    if frame.tuser is not None:\n                        frame.tuser.append")]),
    ("o-mon", "C12", [(X, "        if hasattr(self.bus, \"tready\"):\n            cocotb", "        if hasattr(self.bus, \"tvalid\"):\n            cocotb")]),
    ("o-init", "C12", [(X, "        if self._ready_init is not None and hasattr(self.bus, \"tready\"):", "        if self._ready_init is not None:")]),
    ("o-typo", "C12", [(X, "                        frame.tid.append(int(self.bus.tid.value))", "                        frame.tid.append(int(self.bus.id.value))")]),
    ("o-pprot", "C12", [("apb.py", "                if self.pprot_present:\n                    self.bus.pprot.value", "                if self.pslverr_present:\n                    self.bus.pprot.value")]),
    ("o-slverr", "C12", [("apb.py", "                if self.pslverr_present and int(self.bus.pslverr.value):", "                if int(self.bus.pslverr.value):")]),
    ("o-pres", "C12", [("apb.py", "self.pslverr_present = hasattr(self.bus, \"pslverr\")", "self.pslverr_present = hasattr(self.bus, \"prdata\")")]),
    ("o-valid", "C12", [("stream.py", "            if self.valid is not None:\n                self.valid.value = 0", "            self.valid.value = 0")]),
    ("o-wstrb", "C12", [("axil_slave.py", "            if self.wstrb_present:\n                strb = int(getattr(w, 'wstrb', self.strb_mask))\n            else:\n                strb = self.strb_mask\n", "            strb = int(getattr(w, 'wstrb', self.strb_mask))\n")]),
    ("o-wstrb2", "C12", [("axi_slave.py", "            assert self.byte_lanes == len(self.w_channel.bus.wstrb)\n", "            pass\n        assert self.byte_lanes == len(self.w_channel.bus.wstrb)\n")]),
    ("o-wstrb3", "C12", [("axi_slave.py", 'self.wstrb_present = hasattr(self.bus.w, "wstrb")', 'self.wstrb_present = hasattr(self.bus.w, "wdata")')]),
]
