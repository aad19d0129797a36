from bugs11 import M, L, S, A, P, ML, SL, STRB, DIV
REFACTORS = [
    ("gr-strb", [(M, STRB, "        assert not self.wstrb_present or len(self.w_channel.bus.wstrb) == self.byte_lanes\n")]),
    ("gr-strb2", [(L, STRB, "        if self.wstrb_present and len(self.w_channel.bus.wstrb) != self.byte_lanes:\n            raise AssertionError()\n")]),
    ("gr-div", [(M, (DIV, -1), "        assert self.width % self.byte_size == 0\n")]),
    ("gr-div2", [(P, (DIV, -1), "        if self.width != self.byte_lanes * self.byte_size:\n            raise AssertionError('width')\n")]),
    ("gr-mask", [(M, ("self.strb_mask = 2**self.byte_lanes-1", -1), "self.strb_mask = (1 << self.byte_lanes) - 1")]),
    ("gr-lanes", [(ML, ("self.byte_lanes = self.width // self.byte_size", -1), "self.byte_lanes = self.width >> 3")]),
    ("gr-helper", [(M, ("self.strb_mask = 2**self.byte_lanes-1", -1), "self.strb_mask = self._full_mask(self.byte_lanes)"), (M, ("    def _init_dynamic_masks(self", -1), "    def _init_dynamic_masks(self") ] if False else [(SL, ("self.strb_mask = 2**self.byte_lanes-1", -1), "self.strb_mask = (2**self.byte_lanes)-1")]),
    ("gr-axis", [(A, "        if hasattr(self.bus, \"tkeep\"):\n            self.byte_lanes = len(self.bus.tkeep)\n            if byte_size is not None or byte_lanes is not None:\n                raise ValueError(\"Cannot specify byte_size or byte_lanes if tkeep is connected\")\n",
                  "        if hasattr(self.bus, \"tkeep\"):\n            if byte_size is not None or byte_lanes is not None:\n                raise ValueError(\"Cannot specify byte_size or byte_lanes if tkeep is connected\")\n            self.byte_lanes = len(self.bus.tkeep)\n")]),
    ("gr-axis2", [(A, "        if self.byte_lanes * self.byte_size != self.width:\n", "        if self.width % self.byte_lanes:\n")]),
    ("gr-axis3", [(A, "            if byte_lanes is not None:\n                self.byte_lanes = byte_lanes\n                if byte_size is not None:\n                    raise ValueError(\"Cannot specify both byte_size and byte_lanes\")\n            elif",
                   "            if byte_lanes is not None and byte_size is not None:\n                raise ValueError(\"Cannot specify both byte_size and byte_lanes\")\n            if byte_lanes is not None:\n                self.byte_lanes = byte_lanes\n            elif")]),
    ("gr-sig", [(S, "assert len(getattr(self.bus, sig)) == self._signal_widths[sig]", "w = self._signal_widths[sig]\n                    assert w == len(getattr(self.bus, sig))")]),
    ("gr-id", [(M, "        assert len(self.b_channel.bus.bid) == len(self.aw_channel.bus.awid)\n", "        assert len(self.b_channel.bus.bid) == self.id_width\n")]),
]
