M = "axi_master.py"
BUGS = [
    ("m-noguard", "C15", [(M, "            assert self.active_id[bid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            self.tag")]),
    ("m-ge0", "C15", [(M, "            assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            assert self.active_id[rid] >= 0, \"unexpected burst ID\"\n\n            self.tag")]),
    ("m-gt1", "C15", [(M, "            assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            assert self.active_id[rid] > 1, \"unexpected burst ID\"\n\n            self.tag")]),
    ("m-curid", "C15", [(M, "            assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            assert self.active_id[self.cur_id] > 0, \"unexpected burst ID\"\n\n            self.tag")]),
    ("m-any", "C15", [(M, "            assert self.active_id[bid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            assert self.active_id, \"unexpected burst ID\"\n\n            self.tag")]),
    ("m-warn", "C15", [(M, "            assert self.active_id[bid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            if self.active_id[bid] <= 0:\n                self.log.warning(\"unexpected burst ID\")\n\n            self.tag")]),
    ("m-swallow", "C15", [(M, "            assert self.active_id[bid] > 0, \"unexpected burst ID\"\n\n            self.tag", "            try:\n                assert self.active_id[bid] > 0, \"unexpected burst ID\"\n            except AssertionError as ex:\n                self.log.error(ex)\n\n            self.tag")]),
    ("m-countlate", "C15", [(M, "                    self.active_id[arid] += 1\n                    await self.ar_channel.send(ar)\n", "                    await self.ar_channel.send(ar)\n                    self.active_id[arid] += 1\n")]),
    ("m-countonce", "C15", [(M, "                    self.active_id[arid] += 1\n                    await self.ar_channel.send(ar)\n", "                    if k == 0:\n                        self.active_id[arid] += 1\n                    await self.ar_channel.send(ar)\n")]),
    ("m-countcyc", "C15", [(M, "                    self.active_id[arid] += 1\n                    await self.ar_channel.send(ar)\n", "                    self.active_id[arid] += burst_length\n                    await self.ar_channel.send(ar)\n")]),
    ("m-countid", "C15", [(M, "                    self.active_id[awid] += 1\n", "                    self.active_id[self.cur_id] += 1\n")]),
    ("m-nodec", "C15", [(M, "            self.active_id[rid] -= 1\n", "")]),
    ("m-decbeat", "C15", [(M, "                first = False\n\n            self.active_id[rid] -= 1\n", "                first = False\n\n                self.active_id[rid] -= 1\n")]),
    ("m-decearly", "C15", [(M, "            for k in range(burst_length):\n                r = await context.get_resp()\n", "            self.active_id[rid] -= 1\n\n            for k in range(burst_length):\n                r = await context.get_resp()\n"), (M, "                first = False\n\n            self.active_id[rid] -= 1\n", "                first = False\n")]),
    ("m-decerr", "C15", [(M, "            self.active_id[bid] -= 1\n", "            if burst_resp == AxiResp.OKAY:\n                self.active_id[bid] -= 1\n")]),
    ("m-rlmiss", "C15", [(M, "                    assert int(r.rlast), \"missing rlast at end of burst\"\n", "                    pass\n")]),
    ("m-rlearly", "C15", [(M, "                else:\n                    assert not int(r.rlast), \"unexpected rlast within burst\"\n", "")]),
    ("m-rlfirst", "C15", [(M, "                if k == burst_length-1:\n                    assert int(r.rlast)", "                if k and k == burst_length-1:\n                    assert int(r.rlast)")]),
    ("m-rloff", "C15", [(M, "                if k == burst_length-1:\n                    assert int(r.rlast)", "                if k == burst_length:\n                    assert int(r.rlast)")]),
    ("m-rllist", "C15", [(M, "                if k == burst_length-1:\n                    assert int(r.rlast)", "                if k == cmd.burst_list[-1]-1:\n                    assert int(r.rlast)")]),
    ("m-rlerr", "C15", [(M, "                if k == burst_length-1:\n                    assert int(r.rlast)", "                if int(getattr(r, 'rresp', 0)):\n                    pass\n                elif k == burst_length-1:\n                    assert int(r.rlast)")]),
]
