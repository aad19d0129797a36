"""larger rewrites of stream frames, reset, memories and AXI-Lite that keep the behaviour"""
A = "axis.py"
R = "reset.py"
Y = "memory.py"
M = "axil_master.py"
S = "axil_slave.py"

def blk(x):
    return f'''        if self.{x} is not None and self.{x} != []:
            if type(self.{x}) in (int, bool):
                self.{x} = [self.{x}]*n
            else:
                self.{x} = self.{x}[:n] + [self.{x}[-1]]*(n-len(self.{x}))
        else:
            self.{x} = [0]*n
'''
NORM = "\n".join(blk(x) for x in ("tid", "tdest", "tuser"))
NORM_H = '''        self.tid = self._spread(self.tid, n)
        self.tdest = self._spread(self.tdest, n)
        self.tuser = self._spread(self.tuser, n)
'''
NORM_LOOP = '''        for name in ("tid", "tdest", "tuser"):
            setattr(self, name, self._spread(getattr(self, name), n))
'''
SPREAD = '''    @staticmethod
    def _spread(value, n):
        if value is None or value == []:
            return [0]*n
        if isinstance(value, int):
            return n*[value]
        missing = n-len(value)
        if missing <= 0:
            return value[:n]
        return value + missing*[value[-1]]

    def normalize(self):
'''
def cmpk(x):
    return f'''        if type(self.{x}) is list:
            if len(self.{x}) == 0:
                self.{x} = None
            elif all(self.{x}[0] == i for i in self.{x}):
                self.{x} = self.{x}[0]
'''
CMP = "\n".join(cmpk(x) for x in ("tid", "tdest", "tuser"))
CMP_H = '''        self.tid = self._collapse(self.tid)
        self.tdest = self._collapse(self.tdest)
        self.tuser = self._collapse(self.tuser)
'''
COLL = '''    def _collapse(self, value):
        if type(value) is not list:
            return value
        if not value:
            return None
        first = value[0]
        return first if all(v == first for v in value) else value

    def compact(self):
'''
COLL2 = COLL.replace("all(v == first for v in value)", "value.count(first) == len(value)")
COLL3 = COLL.replace("all(v == first for v in value)", "not any(v != first for v in value[1:])")
DEL = '''            # remove tkeep=0 bytes
            for k in range(len(self.tdata)-1, -1, -1):
                if not self.tkeep[k]:
                    if k < len(self.tdata):
                        del self.tdata[k]
                    if k < len(self.tkeep):
                        del self.tkeep[k]
                    if type(self.tid) is list and k < len(self.tid):
                        del self.tid[k]
                    if type(self.tdest) is list and k < len(self.tdest):
                        del self.tdest[k]
                    if type(self.tuser) is list and k < len(self.tuser):
                        del self.tuser[k]
'''
DEL_L = '''            # remove tkeep=0 bytes
            for k in reversed(range(len(self.tdata))):
                if self.tkeep[k]:
                    continue
                for lst in (self.tdata, self.tkeep, self.tid, self.tdest, self.tuser):
                    if isinstance(lst, (list, bytearray)) and k < len(lst):
                        del lst[k]
'''
def eqb(x):
    return f'''        if self.{x} is not None and other.{x} is not None:
            if type(self.{x}) in (int, bool) and type(other.{x}) is list:
                for k in other.{x}:
                    if self.{x} != k:
                        return False
            elif type(other.{x}) in (int, bool) and type(self.{x}) is list:
                for k in self.{x}:
                    if other.{x} != k:
                        return False
            elif self.{x} != other.{x}:
                return False
'''
EQ = "\n".join(eqb(x) for x in ("tid", "tdest", "tuser"))+"\n        return True\n"
EQ_H = '''        return all(self._same(a, b) for a, b in ((self.tid, other.tid), (self.tdest, other.tdest), (self.tuser, other.tuser)))
'''
EQ_H2 = '''        return self._same(self.tid, other.tid) and self._same(self.tdest, other.tdest) and self._same(self.tuser, other.tuser)
'''
SAME = '''    @staticmethod
    def _same(a, b):
        if a is None or b is None:
            return True
        if type(a) in (int, bool) and type(b) is list:
            return all(x == a for x in b)
        if type(b) in (int, bool) and type(a) is list:
            return all(x == b for x in a)
        return a == b

    def __eq__(self, other):
'''
UPD = '''        new_state = self._local_reset or self._ext_reset
        if self._reset_state != new_state:
            self._reset_state = new_state
            self._handle_reset(new_state)
'''
UPD_2 = '''        old, self._reset_state = self._reset_state, self._local_reset or self._ext_reset
        if old != self._reset_state:
            self._handle_reset(self._reset_state)
'''
UPD_3 = '''        new_state = any((self._local_reset, self._ext_reset))
        if new_state == self._reset_state:
            return
        self._reset_state = new_state
        self._handle_reset(new_state)
'''
RUN = '''            if level:
                self._ext_reset = active_level
                self._update_reset()
            else:
                self._ext_reset = not active_level
                self._update_reset()
'''
RUN_2 = '''            self._ext_reset = level == active_level
            self._update_reset()
'''
BEAT = '''                if k == 0:
                    start = start_offset
                    strb &= strb_start
                if k == cycles-1:
                    stop = end_offset
                    strb &= strb_end
'''
BEAT_2 = '''                first, last = k == 0, k+1 == cycles
                if first:
                    start = start_offset
                if last:
                    stop = end_offset
                strb = sum(1 << i for i in range(start, stop))
'''
ADDR = '''                if k == 0:
                    aw.awaddr = cmd.address
                else:
                    aw.awaddr = word_addr + k*self.byte_lanes
'''
ADDR_2 = '''                aw.awaddr = max(cmd.address, word_addr + k*self.byte_lanes)
'''
VAL = '''                val = 0
                for j in range(start, stop):
                    val |= cmd.data[offset] << j*8
                    offset += 1
'''
VAL_2 = '''                val = int.from_bytes(bytes(start) + cmd.data[offset:offset+stop-start], 'little')
                offset += stop-start
'''
VAL_3 = '''                val = sum(cmd.data[offset+j-start] << 8*j for j in range(start, stop))
                offset += stop-start
'''
RESP = '''            for k in range(cmd.cycles):
                b = await self.b_channel.recv()

                cycle_resp = AxiResp(int(getattr(b, 'bresp', AxiResp.OKAY)))

                if cycle_resp != AxiResp.OKAY:
                    resp = cycle_resp
'''
RESP_H = '''            for _ in range(cmd.cycles):
                resp = await self._next_resp() or resp
'''
RESP_H2 = '''            remaining = cmd.cycles
            while remaining:
                remaining -= 1
                received = await self._next_resp()
                resp = resp if received == AxiResp.OKAY else received
'''
RESP_DEF = '''    async def _next_resp(self):
        b = await self.b_channel.recv()
        return AxiResp(int(getattr(b, 'bresp', AxiResp.OKAY)))

    async def _process_write_resp(self):
'''
WORDS = '''        words = []
        for k in range(count):
            words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder))
        return words
'''
WORDS_2 = '''        return [int.from_bytes(data[k:k+ws], byteorder) for k in range(0, count*ws, ws)]
'''
WW = '''        words = data
        data = bytearray()
        for w in words:
            data.extend(w.to_bytes(ws, byteorder))
        self.write(address, data)
'''
WW_2 = '''        self.write(address, b"".join(w.to_bytes(ws, byteorder) for w in data))
'''
REFACTORS = [
    ("rh-norm", [(A, NORM, NORM_H), (A, "    def normalize(self):\n", SPREAD)]),
    ("rh-normloop", [(A, NORM, NORM_LOOP), (A, "    def normalize(self):\n", SPREAD)]),
    ("rh-cmp", [(A, CMP, CMP_H), (A, "    def compact(self):\n", COLL)]),
    ("rh-cmp2", [(A, CMP, CMP_H), (A, "    def compact(self):\n", COLL2)]),
    ("rh-cmp3", [(A, CMP, CMP_H), (A, "    def compact(self):\n", COLL3)]),
    ("rh-cmp4", [(A, CMP, CMP_H), (A, "    def compact(self):\n", COLL.replace("all(v == first for v in value)", "len(set(value)) == 1"))]),
    ("rh-del", [(A, DEL, DEL_L)]),
    ("rh-eq", [(A, EQ, EQ_H), (A, "    def __eq__(self, other):\n", SAME)]),
    ("rh-eq2", [(A, EQ, EQ_H2), (A, "    def __eq__(self, other):\n", SAME)]),
    ("rh-upd2", [(R, UPD, UPD_2)]),
    ("rh-upd3", [(R, UPD, UPD_3)]),
    ("rh-run", [(R, RUN, RUN_2)]),
    ("rh-beat", [(M, BEAT, BEAT_2)]),
    ("rh-addr", [(M, ADDR, ADDR_2)]),
    ("rh-val2", [(M, VAL, VAL_2)]),
    ("rh-val3", [(M, VAL, VAL_3)]),
    ("rh-resp", [(M, RESP, RESP_H), (M, "    async def _process_write_resp(self):\n", RESP_DEF)]),
    ("rh-resp2", [(M, RESP, RESP_H2), (M, "    async def _process_write_resp(self):\n", RESP_DEF)]),
    ("rh-words", [(Y, WORDS, WORDS_2), (Y, WW, WW_2)]),
]
