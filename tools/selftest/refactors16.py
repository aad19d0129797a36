"""larger rewrites of memories, address spaces, slaves and burst splitting that keep the behaviour"""
D = "address_space.py"
Y = "sparse_memory.py"
B = "buddy_allocator.py"
L = "axi_slave.py"
M = "axi_master.py"

AS_R = '''        regions = self.find_regions(address, length)
        data = bytearray()
        if not regions:
            raise Exception("Invalid address")
        for base, size, offset, region in regions:
            if base > address:
                raise Exception("Invalid address")
            seg_addr = address - base
            seg_len = min(size-seg_addr, length)
            if offset is None:
                seg_addr = address
                offset = 0
            data.extend(bytes(await region.read(seg_addr+offset, seg_len, **kwargs)))
            address += seg_len
            length -= seg_len
        if length > 0:
            raise Exception("Invalid address")
        return bytes(data)
'''
AS_R_POS = '''        data = b""
        end = address+length
        pos = address
        found = self.find_regions(address, length)
        if len(found) == 0:
            raise Exception("Invalid address")
        for base, size, offset, region in found:
            if pos < base:
                raise Exception("Invalid address")
            seg_end = min(base+size, end)
            if offset is None:
                local = pos
            else:
                local = pos-base+offset
            data += bytes(await region.read(local, seg_end-pos, **kwargs))
            pos = seg_end
        if pos < end:
            raise Exception("Invalid address")
        return data
'''
AS_W = '''        start = 0
        length = len(data)
        regions = self.find_regions(address, length)
        if not regions:
            raise Exception("Invalid address")
        for base, size, offset, region in regions:
            if base > address:
                raise Exception("Invalid address")
            seg_addr = address - base
            seg_len = min(size-seg_addr, length)
            if offset is None:
                seg_addr = address
                offset = 0
            await region.write(seg_addr+offset, data[start:start+seg_len], **kwargs)
            address += seg_len
            start += seg_len
            length -= seg_len
        if length > 0:
            raise Exception("Invalid address")
'''
AS_W_POS = '''        end = address+len(data)
        pos = address
        found = self.find_regions(address, len(data))
        if len(found) == 0:
            raise Exception("Invalid address")
        for base, size, offset, region in found:
            if pos < base:
                raise Exception("Invalid address")
            seg_end = min(base+size, end)
            local = pos if offset is None else pos-base+offset
            await region.write(local, data[pos-address:seg_end-address], **kwargs)
            pos = seg_end
        if pos != end:
            raise Exception("Invalid address")
'''
AS_W_TAIL = '''        length = len(data)
        regions = self.find_regions(address, length)
        if not regions:
            raise Exception("Invalid address")
        for base, size, offset, region in regions:
            if base > address:
                raise Exception("Invalid address")
            n = min(base+size-address, len(data))
            await region.write(address if offset is None else address-base+offset, data[:n], **kwargs)
            address += n
            data = data[n:]
        if data:
            raise Exception("Invalid address")
'''
FIND = '''        length = max(length, 1)
        for (base, size, translate, region) in self.regions:
            if address < base+size and base < address+length:
                regions.append((base, size, translate, region))
        regions.sort()
        return regions
'''
FIND_C = '''        end = address+max(length, 1)
        return sorted(r for r in self.regions if r[0] < end and address < r[0]+r[1])
'''
FIND_L = '''        end = address+max(length, 1)
        hit = lambda base, size: base < end and base+size > address
        regions.extend(x for x in self.regions if hit(x[0], x[1]))
        return sorted(regions)
'''
FIND_K = '''        length = length or 1
        for entry in self.regions:
            base, size, _, _ = entry
            if address >= base+size or base >= address+length:
                continue
            regions.append(entry)
        regions.sort(key=lambda x: x[0])
        return regions
'''
SR = '''        while length > 0:
            block_offset = address & 0xfff
            block_addr = address - block_offset
            block_len = min(4096 - block_offset, length)
            try:
                block = self.segs[block_addr]
            except KeyError:
                block = b'\\x00'*4096
            data.extend(block[block_offset:block_offset+block_len])
            address += block_len
            length -= block_len
        return bytes(data)
'''
SR_KEY = '''        end = address+length
        while address < end:
            index, start = divmod(address, 4096)
            stop = min(4096, start+end-address)
            block = self.segs.get(index)
            if block is None:
                data += bytes(stop-start)
            else:
                data += block[start:stop]
            address += stop-start
        return bytes(data)
'''
SW = '''        offset = 0
        length = len(data)
        while length > 0:
            block_offset = address & 0xfff
            block_addr = address - block_offset
            block_len = min(4096 - block_offset, length)
            try:
                block = self.segs[block_addr]
            except KeyError:
                block = bytearray(4096)
                self.segs[block_addr] = block
            block[block_offset:block_offset+block_len] = data[offset:offset+block_len]
            address += block_len
            offset += block_len
            length -= block_len
'''
SW_KEY = '''        pos = 0
        while pos < len(data):
            index, start = divmod(address+pos, 4096)
            count = min(4096-start, len(data)-pos)
            if index not in self.segs:
                self.segs[index] = bytearray(4096)
            self.segs[index][start:start+count] = data[pos:pos+count]
            pos += count
'''
SW_HELP = '''        pos = 0
        while pos < len(data):
            start = (address+pos) % 4096
            count = min(4096-start, len(data)-pos)
            block = self._block(address+pos-start)
            block[start:start+count] = data[pos:pos+count]
            pos += count
'''
BLK = '''    def _block(self, addr):
        return self.segs.setdefault(addr, bytearray(4096))

    def clear(self):
'''
BUD = '''            size = 2**bucket

            # find buddy
            if (addr // size) % 2:
                buddy = addr - size
            else:
                buddy = addr + size

            if buddy in self.free_lists[bucket]:
                # buddy is free, merge
                self.free_lists[bucket].remove(buddy)
                addr = min(addr, buddy)
                bucket += 1
            else:
                # buddy is not free, so add to free list
                self.free_lists[bucket].append(addr)
                return
'''
BUD_X = '''            buddies = self.free_lists[bucket]
            buddy = addr ^ (1 << bucket)

            if buddy not in buddies:
                buddies.append(addr)
                return

            buddies.remove(buddy)
            addr &= ~(1 << bucket)
            bucket += 1
'''
BUD_T = '''            try:
                self.free_lists[bucket].remove(addr ^ 2**bucket)
            except ValueError:
                self.free_lists[bucket].append(addr)
                return
            addr -= addr % 2**(bucket+1)
            bucket += 1
'''
OPS = '''                for i in range(self.byte_lanes):
                    if strb & (1 << i):
                        if start_offset is None:
                            start_offset = offset
                    else:
                        if start_offset is not None and offset != start_offset:
                            write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))
                        start_offset = None

                    offset += 1

                if start_offset is not None and offset != start_offset:
                    write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))
'''
OPS_W = '''                while offset < self.byte_lanes:
                    if not (strb >> offset) & 1:
                        offset += 1
                        continue
                    start_offset = offset
                    while offset < self.byte_lanes and (strb >> offset) & 1:
                        offset += 1
                    write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))
'''
OPS_H = '''                write_ops = [(cur_word_addr+first, data[first:last_]) for first, last_ in self._runs(strb)]
'''
OPS_DEF = '''    def _runs(self, strb):
        runs = []
        first = None
        for i in range(self.byte_lanes+1):
            enabled = i < self.byte_lanes and (strb >> i) & 1
            if enabled and first is None:
                first = i
            elif not enabled and first is not None:
                runs.append((first, i))
                first = None
        return runs

    async def _process_write(self):
'''
OPS_BYTE = '''                for i in range(self.byte_lanes):
                    if (strb >> i) & 1:
                        write_ops.append((cur_word_addr+i, data[i:i+1]))
'''
WRAP = '''                if burst != AxiBurstType.FIXED:
                    cur_addr += num_bytes

                    if burst == AxiBurstType.WRAP:
                        if cur_addr == upper_wrap_boundary:
                            cur_addr = lower_wrap_boundary
'''
WRAP_M = '''                if burst == AxiBurstType.INCR:
                    cur_addr += num_bytes
                elif burst == AxiBurstType.WRAP:
                    cur_addr = lower_wrap_boundary + (cur_addr+num_bytes-lower_wrap_boundary) % transfer_size
'''
WRAP_H = '''                cur_addr = self._advance(burst, cur_addr, num_bytes, transfer_size)
'''
WRAP_DEF = '''    @staticmethod
    def _advance(burst, addr, num_bytes, transfer_size):
        if burst == AxiBurstType.FIXED:
            return addr
        following = addr+num_bytes
        if burst == AxiBurstType.WRAP and following % transfer_size == 0:
            return following-transfer_size
        return following

'''
SPLIT = '''                    # split on burst length
                    burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
                    # FIXED bursts are limited to 16 transfers
                    if cmd.burst == AxiBurstType.FIXED:
                        burst_length = min(burst_length, 16)
                    # split on 4k address boundary
                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
'''
SPLIT_H = '''                    burst_length = self._limit(cmd.burst, cycles-k, cur_addr, num_bytes)
'''
SPLIT_DEF = '''    def _limit(self, burst, beats, addr, num_bytes):
        limit = 16 if burst == AxiBurstType.FIXED else 256
        to_page = 4096 - addr % 4096
        beats = min(beats, limit, max(self.max_burst_len, 1))
        return min(beats, -(-to_page//num_bytes))

    async def _process_write(self):
'''
VAL = '''                val = 0
                for j in range(start, stop):
                    val |= cmd.data[offset] << j*8
                    offset += 1
'''
VAL_F = '''                chunk = cmd.data[offset:offset+stop-start]
                offset += len(chunk)
                val = int.from_bytes(chunk, 'little') << 8*start
'''
STRB = '''                strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
'''
STRB_S = '''                strb = sum(1 << lane for lane in range(start, stop))
'''
STRB_2 = '''                strb = (1 << stop) - (1 << start)
'''
WR = '''                if isinstance(wuser, int):
                    w.wuser = wuser
                else:
                    if wuser and k < len(wuser):
                        w.wuser = wuser[k]
                    else:
                        w.wuser = 0
'''
WR_T = '''                try:
                    w.wuser = wuser if isinstance(wuser, int) else wuser[k]
                except IndexError:
                    w.wuser = 0
'''
REFACTORS = [
    ("rg-asr", [(D, AS_R, AS_R_POS)]),
    ("rg-asw", [(D, AS_W, AS_W_POS)]),
    ("rg-aswtail", [(D, AS_W, AS_W_TAIL)]),
    ("rg-findc", [(D, FIND, FIND_C)]),
    ("rg-findl", [(D, FIND, FIND_L)]),
    ("rg-findk", [(D, FIND, FIND_K)]),
    ("rg-skey", [(Y, SR, SR_KEY), (Y, SW, SW_KEY)]),
    ("rg-shelp", [(Y, SW, SW_HELP), (Y, "    def clear(self):\n", BLK)]),
    ("rg-budx", [(B, BUD, BUD_X)]),
    ("rg-budt", [(B, BUD, BUD_T)]),
    ("rg-opsw", [(L, OPS, OPS_W)]),
    ("rg-opsh", [(L, OPS, OPS_H), (L, "    async def _process_write(self):\n", OPS_DEF)]),
    ("rg-opsb", [(L, OPS, OPS_BYTE)]),
    ("rg-wrapm", [(L, (WRAP, -1), WRAP_M)]),
    ("rg-wraph", [(L, (WRAP, -1), WRAP_H), (L, "    async def _process_write(self):\n", WRAP_DEF+"    async def _process_write(self):\n"), (L, "    async def _process_read(self):\n", WRAP_DEF+"    async def _process_read(self):\n")]),
    ("rg-split", [(M, (SPLIT, 1), SPLIT_H), (M, "    async def _process_write(self):\n", SPLIT_DEF)]),
    ("rg-val", [(M, VAL, VAL_F)]),
    ("rg-strbs", [(M, STRB, STRB_S)]),
    ("rg-strb2", [(M, STRB, STRB_2)]),
    ("rg-wuser", [(M, WR, WR_T)]),
]
