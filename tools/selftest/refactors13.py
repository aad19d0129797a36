"""rewrites of the byte-stream read interface (C37) that keep the behaviour"""
A = "axis.py"
TAKE = "        if count < 0:\n            count = len(self.read_queue)\n        data = self.read_queue[:count]\n        del self.read_queue[:count]\n        return data\n"
DRAIN = "        while not self.empty():\n            frame = self.recv_nowait(compact=True)\n            self.read_queue.extend(frame.tdata)\n"
READ = "        while not self.read_queue:\n            frame = await self.recv(compact=True)\n            self.read_queue.extend(frame.tdata)\n        return self.read_nowait(count)\n"
WAIT = "        if not self.empty():\n            return\n        if timeout:\n            await First(self.active_event.wait(), Timer(timeout, timeout_unit))\n        else:\n            await self.active_event.wait()\n"
REFACTORS = [
    ("rd-split", [(A, TAKE, "        if count < 0:\n            count = len(self.read_queue)\n        data, self.read_queue = self.read_queue[:count], self.read_queue[count:]\n        return data\n")]),
    ("rd-neg", [(A, TAKE, "        if count < 0:\n            data = self.read_queue\n            self.read_queue = []\n        else:\n            data = self.read_queue[:count]\n            self.read_queue = self.read_queue[count:]\n        return data\n")]),
    ("rd-negcopy", [(A, TAKE, "        if count < 0:\n            data = list(self.read_queue)\n            self.read_queue.clear()\n        else:\n            data = self.read_queue[:count]\n            del self.read_queue[:count]\n        return data\n")]),
    ("rd-min", [(A, TAKE, "        avail = len(self.read_queue)\n        n = avail if count < 0 else min(count, avail)\n        data = self.read_queue[0:n]\n        self.read_queue[0:n] = []\n        return data\n")]),
    ("rd-pop", [(A, TAKE, "        if count < 0:\n            count = len(self.read_queue)\n        return [self.read_queue.pop(0) for _ in range(min(count, len(self.read_queue)))]\n")]),
    ("rd-helper", [(A, DRAIN, "        self._drain()\n"), (A, "    def read_nowait(self, count=-1):\n", "    def _drain(self):\n        while not self.empty():\n            self._stash(self.recv_nowait())\n\n    def _stash(self, frame):\n        self.read_queue += frame.tdata\n\n    def read_nowait(self, count=-1):\n")]),
    ("rd-aug", [(A, DRAIN, DRAIN.replace("self.read_queue.extend(frame.tdata)", "self.read_queue += frame.tdata"))]),
    ("rd-bytewise", [(A, DRAIN, DRAIN.replace("            self.read_queue.extend(frame.tdata)\n", "            for b in frame.tdata:\n                self.read_queue.append(b)\n"))]),
    ("rd-true", [(A, DRAIN, "        while True:\n            if self.queue.empty():\n                break\n            self.read_queue.extend(self.recv_nowait().tdata)\n")]),
    ("rd-try", [(A, DRAIN, "        while self.count() > 0:\n            q = self.read_queue\n            q.extend(self.recv_nowait(True).tdata)\n")]),
    ("rd-qsize", [(A, DRAIN, "        for _ in range(self.count()):\n            frame = self.recv_nowait(compact=True)\n            self.read_queue.extend(frame.tdata)\n")]),
    ("rd-read-true", [(A, READ, "        while True:\n            if self.read_queue:\n                return self.read_nowait(count)\n            frame = await self.recv()\n            self.read_queue.extend(frame.tdata)\n")]),
    ("rd-read-len", [(A, READ, "        while len(self.read_queue) == 0:\n            frame = await self.recv()\n            self.read_queue += frame.tdata\n        return self.read_nowait(count=count)\n")]),
    ("rd-wait1", [(A, WAIT, "        if self.empty():\n            triggers = [self.active_event.wait()]\n            if timeout:\n                triggers.append(Timer(timeout, timeout_unit))\n            await First(*triggers)\n")]),
    ("rd-wait2", [(A, WAIT, "        if not self.empty():\n            return\n        event = self.active_event.wait()\n        if not timeout:\n            await event\n            return\n        timer = Timer(timeout, units=timeout_unit)\n        await First(event, timer)\n")]),
    ("rd-wait3", [(A, WAIT, "        if self.count():\n            return\n        if timeout > 0:\n            t = Timer(timeout, timeout_unit)\n            await First(t, self.active_event.wait())\n        else:\n            await self.active_event.wait()\n")]),
    ("rd-write", [(A, "        await self.send(data)\n", "        frame = AxiStreamFrame(data)\n        await self.send(frame)\n")]),
]
