M = "axi_master.py"
REFACTORS = [
    ("m-raise", [(M, "            assert self.active_id[bid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            if self.active_id[bid] <= 0:\n                raise Exception(\"unexpected burst ID\")\n\n            self.tag")]),
    ("m-truthy", [(M, "            assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            if not self.active_id[rid]:\n                self.log.error(\"bad\")\n                raise AssertionError(\"unexpected burst ID\")\n\n            self.tag")]),
    ("m-helper", [(M, "            assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            self._check_id(rid)\n\n            self.tag"), (M, "    async def _process_read_resp(self):", "    def _check_id(self, tag):\n        assert self.active_id[tag] >= 1, \"unexpected burst ID\"\n\n    async def _process_read_resp(self):")]),
    ("m-get", [(M, "            assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            assert self.active_id.get(rid, 0) > 0, \"unexpected burst ID\"\n\n            self.tag")]),
    ("m-rlone", [(M, "                if k == burst_length-1:\n                    assert int(r.rlast), \"missing rlast at end of burst\"\n                else:\n                    assert not int(r.rlast), \"unexpected rlast within burst\"\n", "                assert bool(int(r.rlast)) == (k == burst_length-1), \"rlast\"\n")]),
    ("m-rlvar", [(M, "                if k == burst_length-1:\n                    assert int(r.rlast), \"missing rlast at end of burst\"\n                else:\n                    assert not int(r.rlast), \"unexpected rlast within burst\"\n", "                last = int(r.rlast)\n                if k < burst_length-1 and last:\n                    raise Exception(\"early\")\n                if k + 1 == burst_length and not last:\n                    raise Exception(\"missing\")\n")]),
    ("m-inchelper", [(M, "                    self.active_id[arid] += 1\n                    await self.ar_channel.send(ar)\n", "                    await self._issue(arid, ar)\n"), (M, "    async def _process_read_resp(self):", "    async def _issue(self, tag, ar):\n        self.active_id[tag] = self.active_id[tag] + 1\n        await self.ar_channel.send(ar)\n\n    async def _process_read_resp(self):")]),
    ("m-nopcheck", [(M, "                assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n                if k", "                if k")]),
    ("m-declog", [(M, "            self.active_id[rid] -= 1\n\n            self.log.info(\"Read burst complete rid: 0x%x rresp: %s\", rid, resp)\n", "            self.log.info(\"Read burst complete rid: 0x%x rresp: %s\", rid, resp)\n            self.active_id[rid] = self.active_id[rid] - 1\n")]),
]
