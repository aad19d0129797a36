ID = 's19'
PROPERTY = 'C25'
EDITS = [
    ('buddy_allocator.py',
r"""        bucket = self.allocations.pop(addr)
""",
r"""        bucket = self.allocations[addr]
"""),
    ('buddy_allocator.py',
r"""                # buddy is not free, so add to free list
                self.free_lists[bucket].append(addr)
                return
""",
r"""                # buddy is not free, so add to free list
                self.free_lists[bucket].append(addr)
                self.allocations.pop(addr, None)
                return
"""),
]
NEEDS = 'a block is freed whose free buddy lies below it, and the same address is freed again later'
BREAKS = "the allocation record is removed under the merged block's address, so a second free is accepted and the space is handed out twice"
PLAIN = True
DEMO = r'''
from cocotbext.axi.buddy_allocator import BuddyAllocator

a = BuddyAllocator(64)
x, y, z = a.alloc(16), a.alloc(16), a.alloc(32)
a.free(x)
a.free(y)
try:
    a.free(y)
except ValueError:
    pass
live = [(z, 32)]
while True:
    try:
        b = a.alloc(16)
    except Exception:
        break
    for s, n in live:
        assert b+16 <= s or s+n <= b, (b, live)
    live.append((b, 16))
assert len(live) == 3
'''
