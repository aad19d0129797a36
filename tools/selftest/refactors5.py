A = "axi_channels.py"
L = "axil_channels.py"
S = "stream.py"
K = "constants.py"
REFACTORS = [
    ("w-order", [(A, '"awlock", "awcache", "awprot", "awqos", "awregion", "awuser"]', '"awprot", "awlock", "awcache", "awqos", "awregion", "awuser"]')]),
    ("w-next", [(S, "        for s in all_signals:\n            if s.lower().endswith('ready'):\n                ready_signal = s\n", "        ready_signal = next((s for s in reversed(all_signals) if s.lower().endswith('ready')), None)\n")]),
    ("w-comp", [(S, "    filtered_signals = []\n\n    for s in all_signals:\n        if s not in (ready_signal, valid_signal):\n            filtered_signals.append(s)\n", "    filtered_signals = [s for s in all_signals if s not in (ready_signal, valid_signal)]\n")]),
    ("w-dict", [(S, "    attrib = {}\n    attrib['_signals'] = signals\n    attrib['_optional_signals'] = optional_signals\n    bus", "    attrib = dict(_signals=signals, _optional_signals=optional_signals)\n    bus")]),
    ("w-helper", [(S, "def define_stream(", "def _find(signals, suffix):\n    found = None\n    for s in signals:\n        if s.lower().endswith(suffix):\n            found = s\n    return found\n\n\ndef define_stream("), (S, "        for s in all_signals:\n            if s.lower().endswith('valid'):\n                valid_signal = s\n", "        valid_signal = _find(all_signals, 'valid')\n")]),
    ("w-const", [(K, "    RA = 0b0100\n    WA = 0b1000", "    RA = 1 << 2\n    WA = 8")]),
    ("w-kwargs", [(A, "        return cls(aw, w, b)\n\n    @classmethod\n    def from_prefix", "        return cls(aw=aw, w=w, b=b)\n\n    @classmethod\n    def from_prefix")]),
    ("w-inl", [(A, "        aw = AxiAWBus.from_prefix(entity, prefix, **kwargs)\n        w = AxiWBus.from_prefix(entity, prefix, **kwargs)\n        b = AxiBBus.from_prefix(entity, prefix, **kwargs)\n        return cls(aw, w, b)", "        return cls(\n            AxiAWBus.from_prefix(entity, prefix, **kwargs),\n            AxiWBus.from_prefix(entity, prefix, **kwargs),\n            AxiBBus.from_prefix(entity, prefix, **kwargs)\n        )")]),
    ("w-viachan", [(A, "        return cls(aw, w, b)\n\n    @classmethod\n    def from_prefix", "        return cls.from_channels(aw, w, b)\n\n    @classmethod\n    def from_prefix")]),
    ("w-tr", [(S, "            if sig in kwargs:\n                setattr(self, sig, kwargs[sig])\n                del kwargs[sig]\n            else:\n                setattr(self, sig, 0)\n", "            setattr(self, sig, kwargs.pop(sig, 0))\n")]),
    ("w-busimp", [("axi_slave.py", "self.w_channel = AxiWSink(bus.w,", "self.w_channel = AxiWSink(self.bus.w,")]),
    ("w-list", [(A, '    optional_signals=["bresp", "buser"],\n    signal_widths={"bresp": 2}', '    signal_widths={"bresp": 2},\n    optional_signals=["bresp"] + ["buser"]')]),
]
X = "axis.py"
REFACTORS += [
    ("o-attr", [(X, "        if hasattr(self.bus, \"tready\"):\n            cocotb", "        has_tready = hasattr(self.bus, \"tready\")\n        if has_tready:\n            cocotb")]),
    ("o-getattr", [(X, "            if hasattr(self.bus, \"tlast\"):\n                self.bus.tlast.value = 0\n            if hasattr(self.bus, \"tkeep\"):", "            tlast = getattr(self.bus, \"tlast\", None)\n            if tlast is not None:\n                tlast.value = 0\n            if hasattr(self.bus, \"tkeep\"):")]),
    ("o-loop", [(X, "            if hasattr(self.bus, \"tid\"):\n                self.bus.tid.value = 0\n            if hasattr(self.bus, \"tdest\"):\n                self.bus.tdest.value = 0\n            if hasattr(self.bus, \"tuser\"):\n                self.bus.tuser.value = 0\n", "            for name in (\"tid\", \"tdest\", \"tuser\"):\n                if hasattr(self.bus, name):\n                    getattr(self.bus, name).value = 0\n")]),
    ("o-ifexp", [("axil_slave.py", "            if self.wstrb_present:\n                strb = int(getattr(w, 'wstrb', self.strb_mask))\n            else:\n                strb = self.strb_mask\n", "            strb = int(w.wstrb) if self.wstrb_present else self.strb_mask\n")]),
    ("o-early", [("apb.py", "        if self.pprot_present:\n            self.bus.pprot.setimmediatevalue(0)\n", "        self._init_prot()\n"), ("apb.py", "    def init_write(self, address, data, prot", "    def _init_prot(self):\n        if not self.pprot_present:\n            return\n        self.bus.pprot.setimmediatevalue(0)\n\n    def init_write(self, address, data, prot")]),
    ("o-cond", [(X, "            tready_sample = (not has_tready) or self.bus.tready.value\n            tvalid_sample", "            tready_sample = self.bus.tready.value if has_tready else True\n            tvalid_sample")]),
]
