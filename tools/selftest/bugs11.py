M, L, S, A, P, ML, SL, C, LC = "axi_master.py", "axi_slave.py", "stream.py", "axis.py", "apb.py", "axil_master.py", "axil_slave.py", "axi_channels.py", "axil_channels.py"
STRB = "        if self.wstrb_present:\n            assert self.byte_lanes == len(self.w_channel.bus.wstrb)\n"
DIV = "        assert self.byte_lanes * self.byte_size == self.width\n"
BUGS = [
    ("g-strbgone-m", "C35", [(M, STRB, "")]),
    ("g-strbgone-s", "C35", [(L, STRB, "")]),
    ("g-strbgone-ls", "C35", [(SL, STRB, "")]),
    ("g-strbwrong", "C35", [(ML, STRB, STRB.replace("self.byte_lanes ==", "self.byte_lanes <="))]),
    ("g-divgone", "C35", [(M, (DIV, -1), "")]),
    ("g-divgone-apb", "C35", [(P, (DIV, -1), "")]),
    ("g-divtrivial", "C35", [(L, (DIV, -1), "        assert self.byte_lanes * self.byte_size <= self.width\n")]),
    ("g-bid", "C35", [(M, "        assert len(self.b_channel.bus.bid) == len(self.aw_channel.bus.awid)\n", "")]),
    ("g-bidle", "C35", [(L, "assert len(self.b_channel.bus.bid) == len(self.aw_channel.bus.awid)", "assert len(self.b_channel.bus.bid) >= len(self.aw_channel.bus.awid)")]),
    ("g-rid", "C35", [(L, "assert len(self.r_channel.bus.rid) == len(self.ar_channel.bus.arid)", "assert len(self.r_channel.bus.rid) == self.id_width or self.id_width < 8")]),
    ("g-lanes", "C35", [(M, ("self.byte_lanes = self.width // self.byte_size", -1), "self.byte_lanes = (self.width + self.byte_size) // self.byte_size")]),
    ("g-mask", "C35", [(M, ("self.strb_mask = 2**self.byte_lanes-1", -1), "self.strb_mask = 2**self.byte_lanes")]),
    ("g-mask-apb", "C35", [(P, ("self.strb_mask = 2**self.byte_lanes-1", -1), "self.strb_mask = 0xffff & 2**self.byte_lanes-1")]),
    ("g-idw", "C35", [(L, "self.id_width = len(self.aw_channel.bus.awid)", "self.id_width = len(self.b_channel.bus.bid)+0 if 0 else len(self.aw_channel.bus.awlen)")]),
    ("g-aw", "C35", [(P, ("self.address_width = len(self.bus.paddr)", -1), "self.address_width = len(self.bus.pwdata)")]),
    ("g-acc", "C35", [(M, STRB, STRB+"            assert self.byte_lanes <= 64\n")]),
    ("g-axis-lanes", "C35", [(A, "            self.byte_lanes = len(self.bus.tkeep)\n", "            self.byte_lanes = self.width // 8\n")]),
    ("g-axis-conf", "C35", [(A, "            if byte_size is not None or byte_lanes is not None:\n", "            if byte_size is not None and byte_lanes is not None:\n")]),
    ("g-axis-conf2", "C35", [(A, "                if byte_size is not None:\n                    raise ValueError(\"Cannot specify both byte_size and byte_lanes\")\n", "")]),
    ("g-axis-size", "C35", [(A, "self.byte_lanes = self.width // byte_size", "self.byte_lanes = self.width // max(byte_size, 8)")]),
    ("g-axis-mask", "C35", [(A, "self.byte_mask = 2**self.byte_size-1", "self.byte_mask = 0xff")]),
    ("g-axis-div", "C35", [(A, "        if self.byte_lanes * self.byte_size != self.width:\n", "        if self.byte_lanes * self.byte_size > self.width:\n")]),
    ("g-axis-acc", "C35", [(A, "        if self.byte_lanes * self.byte_size != self.width:\n", "        if self.byte_lanes * self.byte_size != self.width or self.byte_size % 4:\n")]),
    ("g-sig-gone", "C35", [(S, "assert len(getattr(self.bus, sig)) == self._signal_widths[sig]", "assert len(getattr(self.bus, sig)) <= self._signal_widths[sig]")]),
    ("g-sig-cache", "C35", [(C, "\"awlock\": 1,\n        \"awcache\": 4, ", "\"awlock\": 1,\n        ")]),
    ("g-sig-resp", "C35", [(LC, "    signal_widths={\"rresp\": 2}\n", "")]),
    ("g-sig-len", "C35", [(C, "\"arlen\": 8", "\"arlen\": 4")]),
    ("g-sig-valid", "C35", [(S, "    if valid_signal not in signal_widths:\n        signal_widths[valid_signal] = 1\n", "")]),
]
