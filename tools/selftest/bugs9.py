BUGS = [
    ('a-nosetup', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-twosetup', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                if k == 0:\n                    await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-early', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-endrop', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    self.bus.penable.value = False\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-skip', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-noready', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                if not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-enkept', 'C20', [('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n'), ('apb.py', '            self.current_command = None\n\n            self.in_flight_operations -= 1\n\n            if self.in_flight_operations == 0:\n                self._idle.set()\n\n\nclass ApbSlave', '            self.bus.penable.value = False\n            self.current_command = None\n\n            self.in_flight_operations -= 1\n\n            if self.in_flight_operations == 0:\n                self._idle.set()\n\n\nclass ApbSlave')]),
    ('a-selkept2', 'C20', [('apb.py', '                self.bus.psel.value = False\n\n            if pwrite', '            if pwrite')]),
    ('a-pausemid', 'C20', [('apb.py', '                self.bus.penable.value = True\n\n                await', '                while self.pause:\n                    await clock_edge_event\n                self.bus.penable.value = True\n\n                await')]),
    ('a-pausesel', 'C20', [('apb.py', '                while self.pause:\n                    await clock_edge_event\n\n                if k == 0:\n                    self.bus.paddr', '                if k == 0:\n                    self.bus.paddr'), ('apb.py', '                self.bus.psel.value = True\n\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n', '                self.bus.psel.value = True\n\n                while self.pause:\n                    await clock_edge_event\n                await clock_edge_event\n                self.bus.penable.value = True\n\n                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n\n                self.bus.penable.value = False\n')]),
    ('a-strblate', 'C20', [('apb.py', '                self.bus.pstrb.value = strb\n\n', '\n'), ('apb.py', '                self.bus.penable.value = True\n\n                await', '                self.bus.penable.value = True\n                self.bus.pstrb.value = strb\n\n                await')]),
    ('a-dataonce', 'C20', [('apb.py', '                self.bus.pwdata.value = val\n', '                if strb:\n                    self.bus.pwdata.value = val\n')]),
    ('a-protfirst', 'C20', [('apb.py', '                if self.pprot_present:\n                    self.bus.pprot', '                if self.pprot_present and k == 0:\n                    self.bus.pprot')]),
    ('a-dirinv', 'C20', [('apb.py', '                self.bus.pwrite.value = pwrite\n', '                self.bus.pwrite.value = not pwrite\n')]),
    ('a-rdearly', 'C20', [('apb.py', '                await clock_edge_event\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n', '                await clock_edge_event\n                rdata = int(self.bus.prdata.value) if not pwrite else 0\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n'), ('apb.py', '                    cycle_data = int(self.bus.prdata.value)\n', '                    cycle_data = rdata\n')]),
    ('a-rdlate', 'C20', [('apb.py', '                self.bus.psel.value = False\n\n            if pwrite', '                self.bus.psel.value = False\n\n            if pwrite'), ('apb.py', '                self.bus.penable.value = False\n\n                cycle_data', '                self.bus.penable.value = False\n                self.bus.psel.value = False\n                await clock_edge_event\n\n                cycle_data')]),
    ('a-errlate', 'C20', [('apb.py', '                if self.pslverr_present and int(self.bus.pslverr.value):\n                    resp = AxiResp.SLVERR\n', ''), ('apb.py', '                while not int(self.bus.pready.value):\n                    await clock_edge_event\n', '                if self.pslverr_present and int(self.bus.pslverr.value):\n                    resp = AxiResp.SLVERR\n                while not int(self.bus.pready.value):\n                    await clock_edge_event\n                    if self.pslverr_present and int(self.bus.pslverr.value):\n                        resp = AxiResp.SLVERR\n')]),
    ('a-sready2', 'C20', [('apb.py', '            self.bus.pready.value = True\n            await clock_edge_event\n', '            self.bus.pready.value = True\n            await clock_edge_event\n            if self.pause:\n                await clock_edge_event\n')]),
    ('a-snoclr', 'C20', [('apb.py', '                self.log.warning("penable not asserted")\n\n            self.bus.pready.value = False\n', '                self.log.warning("penable not asserted")\n                self.bus.pready.value = False\n')]),
    ('a-sagain', 'C20', [('apb.py', '            await clock_edge_event\n\n            if not int(self.bus.psel.value):\n                continue\n', '            if not int(self.bus.psel.value):\n                await clock_edge_event\n                continue\n')]),
    ('a-snosel', 'C20', [('apb.py', '            if not int(self.bus.psel.value):\n                continue\n', '            if not int(self.bus.psel.value) and not int(self.bus.penable.value):\n                continue\n')]),
    ('a-serr', 'C20', [('apb.py', '            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready', '            if self.pslverr_present and pslverr:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready')]),
    ('a-srdata', 'C20', [('apb.py', "                self.bus.prdata.value = int.from_bytes(data, 'little')\n\n            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready.value = True\n            await clock_edge_event\n", "                pass\n\n            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n            self.bus.pready.value = True\n            await clock_edge_event\n            self.bus.prdata.value = int.from_bytes(data, 'little')\n")]),
    ('a-slong', 'C20', [('apb.py', '            self.bus.pready.value = True\n            await clock_edge_event\n', '            self.bus.pready.value = True\n            await clock_edge_event\n            while not int(self.bus.penable.value):\n                await clock_edge_event\n')]),
]
