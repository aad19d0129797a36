REFACTORS = [
    ('a-dowhile', [('apb.py', '                while not int(self.bus.pready.value):\n                    await clock_edge_event\n', '                ready = int(self.bus.pready.value)\n                while not ready:\n                    await clock_edge_event\n                    ready = int(self.bus.pready.value)\n')]),
    ('a-break', [('apb.py', '                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n', '                while True:\n                    await clock_edge_event\n                    if int(self.bus.pready.value):\n                        break\n')]),
    ('a-ints', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = 1\n\n                await clock_edge_event\n                self.bus.penable.value = 1\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = 0\n')]),
    ('a-helper', [('apb.py', '    async def _run(self):\n        clock_edge_event = RisingEdge(self.clock)\n\n        await clock_edge_event\n', '    async def _wait_ready(self):\n        await RisingEdge(self.clock)\n        while int(self.bus.pready.value) == 0:\n            await RisingEdge(self.clock)\n\n    async def _run(self):\n        clock_edge_event = RisingEdge(self.clock)\n\n        await clock_edge_event\n'), ('apb.py', '                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n', '                await self._wait_ready()\n')]),
    ('a-order', [('apb.py', '                self.bus.penable.value = False\n\n                cycle_data', '                self.bus.psel.value = False\n                self.bus.penable.value = False\n\n                cycle_data'), ('apb.py', '                self.bus.psel.value = False\n\n            if pwrite', '\n            if pwrite')]),
    ('a-idlegap', [('apb.py', '                self.bus.psel.value = False\n\n            if pwrite', '                self.bus.psel.value = False\n                if k < cycles-1:\n                    await clock_edge_event\n\n            if pwrite')]),
    ('a-swait', [('apb.py', '            if not int(self.bus.psel.value):\n                continue\n\n            addr', '            while not int(self.bus.psel.value):\n                await clock_edge_event\n\n            addr')]),
    ('a-sacc', [('apb.py', '            if not int(self.bus.psel.value):\n                continue\n', '            if not int(self.bus.psel.value) or int(self.bus.penable.value):\n                continue\n')]),
    ('a-sclr', [('apb.py', '            self.bus.pready.value = True\n            await clock_edge_event\n', '            self.bus.pready.value = True\n            await clock_edge_event\n            self.bus.pready.value = False\n'), ('apb.py', '                self.log.warning("penable not asserted")\n\n            self.bus.pready.value = False\n', '                self.log.warning("penable not asserted")\n')]),
    ('a-sorder', [('apb.py', '            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready.value = True\n', '            self.bus.pready.value = True\n            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n')]),
    ("a-flag", [('apb.py', "                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n", "                ready = False\n                while not ready:\n                    await clock_edge_event\n                    ready = bool(int(self.bus.pready.value))\n")]),
]
