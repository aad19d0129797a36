"""faults of the byte-stream read interface (C37)"""
A = "axis.py"
S = "stream.py"
from refactors13 import TAKE, DRAIN, READ, WAIT
BUGS = [
    ("rb-order", "C37", [(A, DRAIN, DRAIN.replace("self.read_queue.extend(frame.tdata)", "self.read_queue = list(frame.tdata) + self.read_queue"))]),
    ("rb-nocompact", "C37", [(A, DRAIN, DRAIN.replace("compact=True", "compact=False"))]),
    ("rb-nocompact2", "C37", [(A, READ, READ.replace("compact=True", "False"))]),
    ("rb-newest", "C37", [(A, TAKE, TAKE.replace("data = self.read_queue[:count]\n        del self.read_queue[:count]", "data = self.read_queue[-count:]\n        del self.read_queue[-count:]"))]),
    ("rb-alldel", "C37", [(A, TAKE, TAKE.replace("del self.read_queue[:count]", "self.read_queue.clear()"))]),
    ("rb-nodel", "C37", [(A, TAKE, TAKE.replace("        del self.read_queue[:count]\n", "        if count < len(self.read_queue):\n            del self.read_queue[:count]\n"))]),
    ("rb-deloff", "C37", [(A, TAKE, TAKE.replace("del self.read_queue[:count]", "self.read_queue = self.read_queue[count+1:]"))]),
    ("rb-delfirst", "C37", [(A, TAKE, TAKE.replace("data = self.read_queue[:count]\n        del self.read_queue[:count]", "rest = self.read_queue[count:]\n        del self.read_queue[:count]\n        data = self.read_queue[:count]\n        self.read_queue = rest"))]),
    ("rb-alias", "C37", [(A, TAKE, "        if count < 0 or count >= len(self.read_queue):\n            data = self.read_queue\n            self.read_queue.clear()\n            return data\n"+TAKE)]),
    ("rb-short", "C37", [(A, TAKE, "        if count > len(self.read_queue):\n            return []\n"+TAKE)]),
    ("rb-one", "C37", [(A, DRAIN, DRAIN.replace("while not", "if not"))]),
    ("rb-only", "C37", [(A, DRAIN, "        while not self.empty() and len(self.read_queue) < count:\n            frame = self.recv_nowait(compact=True)\n            self.read_queue.extend(frame.tdata)\n")]),
    ("rb-blk", "C37", [(A, READ, READ.replace("while not self.read_queue:", "while len(self.read_queue) < count or not self.read_queue:"))]),
    ("rb-blk2", "C37", [(A, READ, READ.replace("while not self.read_queue:", "if not self.read_queue:"))]),
    ("rb-blk3", "C37", [(A, READ, READ.replace("while not self.read_queue:", "while self.empty() and not self.read_queue:").replace("await self.recv(compact=True)", "await self.recv(compact=True)"))]),
    ("rb-lost", "C37", [(A, READ, READ.replace("            self.read_queue.extend(frame.tdata)\n        return", "            self.read_queue = list(frame.tdata)\n        return"))]),
    ("rb-twice", "C37", [(A, READ, READ.replace("        return self.read_nowait(count)", "            if count >= 0 and len(frame) > count:\n                self.read_queue.extend(frame.tdata)\n        return self.read_nowait(count)"))]),
    ("rb-cnt0", "C37", [(A, READ, READ.replace("self.read_nowait(count)", "self.read_nowait(count or -1)"))]),
    ("rb-wunit", "C37", [(A, WAIT, WAIT.replace("Timer(timeout, timeout_unit)", "Timer(timeout)"))]),
    ("rb-wunit2", "C37", [(S, "Timer(timeout, timeout_unit)", "Timer(timeout, 'ns')")]),
    ("rb-wskip", "C37", [(A, WAIT, WAIT.replace("if not self.empty():", "if not self.idle() or not self.empty():"))]),
    ("rb-winv", "C37", [(A, WAIT, WAIT.replace("        if not self.empty():\n            return\n", ""))]),
    ("rb-wto", "C37", [(S, "            await First(self.active_event.wait(), Timer(timeout, timeout_unit))", "            await Timer(timeout, timeout_unit)")]),
    ("rb-wev", "C37", [(S, "            await First(self.active_event.wait(), Timer(timeout, timeout_unit))", "            await First(self.wake_event.wait(), Timer(timeout, timeout_unit))")]),
    ("rb-wr", "C37", [(A, "        await self.send(data)\n", "        self.send_nowait(data)\n")]),
    ("rb-wr2", "C37", [(A, "    async def write(self, data):\n        await self.send(data)\n", "    async def write(self, data):\n        self.queue.put_nowait(AxiStreamFrame(data))\n        self.idle_event.clear()\n        self.active_event.set()\n")]),
    ("rb-init", "C37", [(A, "        self.read_queue = []\n\n        if hasattr(self.bus, \"tvalid\"):", "        if hasattr(self.bus, \"tvalid\"):"), (A, "    _type = \"monitor\"\n", "    _type = \"monitor\"\n\n    read_queue = []\n")]),
    ("rb-rev", "C37", [(A, TAKE, TAKE.replace("return data", "return list(reversed(data)) if count > 1 else data"))]),
]
