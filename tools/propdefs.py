"""Definitions behind properties.jsonl and MANIFEST.json."""

A = "cocotbext/axi/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(files=[A+f for f in files.split()], mechanism=[dict(name=n, where=w) for n, w in mech],
                             **({"state": [dict(name=n, meaning=m) for n, m in state]} if state else {}),
                             **({"observe_at": list(observe)} if observe else {})))


PROPS = [
P("C01", "Every accepted operation completes exactly once, with its own result",
  "Every read or write a bus master accepts completes exactly once: the call that made it (or the event it supplied or received) gets the result of that very operation with its own address and length, or no result (None) if reset flushed it. No operation is lost, completed twice or completed with another operation's result, whichever other operations, resets and bus timing surround it.",
  "schedules histories fault_sequences", "all interleavings of submitted operations, bus back-pressure and reset assertions at any cycle, for every master",
  "Tests await a handful of operations and assert reset at one or two moments; the window between two awaits in which an operation is held by nobody is one cycle wide.",
  "axi_master.py axil_master.py apb.py", [("submit", "axi_master.py AxiMasterWrite.init_write / write and the other masters' counterparts"), ("process and complete", "_process_write, _process_write_resp_id, AxiLite*._process_*, ApbMaster._run"), ("flush on reset", "_handle_reset of each master")],
  [("current_*_command", "operation a worker has taken from its queue")]),
P("C02", "idle() and wait() report outstanding work exactly",
  "idle() of a master, source or sink is true exactly when nothing it accepted is still queued or in progress, counting an operation from the moment it is accepted until its completion is signalled or reset flushes it. wait() returns only when that is so and never stays blocked once it is; wait() of a receiver returns once something has been received.",
  "schedules histories", "every history of submissions, completions, clears and resets",
  "Tests call wait() after a few sends; an event set one step early or never cleared only shows when submission and completion race.",
  "stream.py axis.py axi_master.py axil_master.py apb.py", [("stream idle event", "stream.py StreamSource, axis.py AxiStreamSource"), ("operation counter", "in_flight_operations / _idle of each master"), ("combined masters", "AxiMaster.idle/wait, AxiLiteMaster.idle/wait")]),
P("C03", "Reset stops all activity, drops queued work and leaves outputs inactive",
  "While reset is asserted a component runs none of its processing, drives every handshake output it owns (valid, ready, select, enable) inactive, and discards everything queued or partly transferred in the channels it owns. When reset is released it resumes from a clean state with exactly one copy of each of its processes, however often and whenever reset is asserted.",
  "fault_sequences schedules", "reset asserted at any cycle, any number of times, during any activity",
  "Two reset tests assert reset once in mid-traffic; state that survives reset shows only for particular cycles.",
  "reset.py stream.py axis.py axi_master.py axil_master.py axi_slave.py axil_slave.py apb.py", [("reset hook", "_handle_reset of every component"), ("stream clear", "stream.py / axis.py clear")]),
P("C04", "Components follow reset level, polarity and local reset exactly",
  "A component is in reset exactly while its reset input is at the configured active level or its own local reset is asserted; unknown levels on the input change nothing. Each change of that combined state is acted on exactly once, and every sub-component gets the same clock, reset signal and polarity as its owner.",
  "schedules configurations fault_sequences", "every order of local assertions and reset edges, either polarity, with or without a reset signal",
  "The tests use one polarity and never overlap local and external reset.",
  "reset.py axi_master.py axi_slave.py axil_master.py axil_slave.py apb.py axis.py stream.py axi_ram.py axil_ram.py", [("combined state", "reset.py Reset._update_reset"), ("edge watcher", "reset.py Reset._run_reset"), ("wiring", "constructors of composite components")]),
P("C05", "Sources hold an offered item until accepted and send each queued item once",
  "Once a source asserts valid it keeps valid and every payload signal unchanged until a clock edge at which ready is high. Every item submitted is transferred exactly once, in submission order, complete and never before it was submitted, and valid is low when there is nothing to send.",
  "schedules histories", "every pattern of ready, pause, submissions and occupancy limits",
  "The tests cycle a few fixed pause patterns; a payload change in one stalled cycle is invisible to a sink that samples later.",
  "stream.py axis.py", [("generic source", "stream.py StreamSource._run"), ("AXI stream source", "axis.py AxiStreamSource._run")]),
P("C06", "Receivers record exactly the transfers that happen, and monitors drive nothing",
  "A sink or monitor records one beat for each clock edge at which valid and ready (those that exist) are both high and none otherwise, with all its signals as sampled at that edge, and delivers recorded items once, unchanged and in order. A stream frame is delivered when its last beat is recorded, not before; a monitor never drives any signal and a sink only ready.",
  "schedules inputs", "every valid/ready/pause pattern, with any subset of optional handshake signals",
  "Loopback tests compare contents with cooperative peers; double or missed recording needs particular stall patterns.",
  "stream.py axis.py", [("generic receiver", "stream.py StreamMonitor._run, StreamSink._run"), ("AXI stream receiver", "axis.py AxiStreamMonitor._run, AxiStreamSink._run")]),
P("C07", "No lost wake-ups: stalled streams always resume",
  "A receiver that stops watching its bus is woken by everything that can make a transfer possible or visible again: valid rising, pause released, space becoming available, reset or clearing. A source that went idle is woken by every submission, a sender blocked on a full queue is woken whenever space appears and rechecks it, and a pause generator applies one value per clock until replaced.",
  "schedules", "every order of sleeping, waking, pausing, submitting and consuming",
  "A lost wake-up deadlocks only when the wake arrives in the window between the test and the wait; passing tests never enter it.",
  "stream.py axis.py", [("sleep and wake", "wake_event / active_event / dequeue_event in stream.py and axis.py"), ("pause", "StreamPause, AxiStreamPause")]),
P("C08", "Occupancy counters are exact and occupancy limits are enforced",
  "The occupancy reported by a stream end always equals the number (and size in bytes) of the items in its queue, whatever is sent, received, cleared or reset. A source accepts no new item and a sink lowers ready while a configured limit is exceeded; blocking sends wait for space, non-blocking sends fail with QueueFull leaving everything unchanged, and without a limit nothing is ever full.",
  "histories configurations", "every history of sends, receives, clears and resets, every setting of the limits",
  "Tests set no byte or frame limits; drift of a counter shows only after many operations of one particular kind.",
  "stream.py axis.py", [("counters", "axis.py queue_occupancy_bytes / queue_occupancy_frames"), ("full", "full() in stream.py and axis.py")]),
P("C09", "Submitted data is captured when the call is made",
  "The bytes and per-beat values of an operation or frame that are transferred are those present when the submitting call was made (or, for blocking sends, when it was queued): changing the caller's buffer, list or frame object afterwards never changes what is sent.",
  "histories programs", "every caller that reuses or mutates its buffers while operations are outstanding",
  "Tests use immutable or fresh buffers.",
  "axi_master.py axil_master.py apb.py axis.py", [("copy on submit", "init_write/write of each master, AxiStreamSource.send/send_nowait")]),
P("C10", "Every requested attribute reaches its own signal unchanged",
  "Each attribute given with an operation (ID, burst type, size, lock, cache, protection, QoS, region, user) is driven on its own bus signal, with that value, for every transfer the operation is split into; per-beat user data goes beat by beat. Blocking, non-blocking and combined-master calls treat every argument alike and use the same defaults.",
  "inputs configurations", "all attribute values and all call styles, for every transfer of an operation",
  "The tests leave nearly all attributes at their defaults, so swapped or dropped attributes go unnoticed.",
  "axi_master.py axil_master.py apb.py", [("command to channel", "_process_write/_process_read of each master"), ("forwarding", "AxiMaster, AxiLiteMaster")]),
P("C11", "Exactly the operations that can be carried out are accepted",
  "A master refuses with ValueError, before changing anything, an operation that starts outside its address space or runs past its end, has a negative length, an ID or beat size the bus cannot carry, integer data, a completion event of the wrong type, or a sideband value whose signal is absent. Everything else is accepted.",
  "inputs configurations", "all addresses, lengths, IDs, sizes and sideband values, all signal widths and optional-signal subsets",
  "Boundary values (last byte of the address space, ID equal to the ID count) are not tested.",
  "axi_master.py axil_master.py apb.py", [("argument checks", "init_write/init_read/write/read of each master")]),
P("C12", "Optional signals may be absent",
  "Every optional signal of a bus may be missing: no component reads or drives an optional signal without knowing that it exists, and absent response or sideband signals are treated as their protocol default.",
  "configurations", "all subsets of optional signals on every bus",
  "The test benches connect all signals.",
  "stream.py axis.py apb.py axi_channels.py axil_channels.py axi_master.py axi_slave.py axil_master.py axil_slave.py", [("guarded access", "hasattr / *_present tests before each use")]),
P("C13", "Errors seen on the bus are reported to the caller",
  "The response reported for an operation is an error response that was received for one of its transfers whenever there was one, wherever in the operation it occurred, and OKAY only if every transfer's response was OKAY. The response code reported is one of those received.",
  "inputs histories", "all positions and combinations of error responses within an operation",
  "The tests only ever receive OKAY on multi-transfer operations.",
  "axi_master.py axil_master.py apb.py", [("merge", "_process_*_resp(_id) of the masters, ApbMaster._run")]),
P("C14", "A slave answers every request exactly once, with its ID and its error",
  "For each request a slave accepts it sends exactly one response (one data beat per requested beat for reads, last flagged on the final beat only), in order, carrying the request's ID. A failure of the target is answered with an error response and never ends the slave's processing or turns into OKAY.",
  "inputs fault_sequences", "all requests, burst lengths and failing target accesses",
  "Tests use targets that never fail; a failing access in the middle of a burst is not exercised.",
  "axi_slave.py axil_slave.py apb.py", [("response generation", "_process_write/_process_read of the slaves, ApbSlave._run")]),
P("C15", "Protocol violations by the other side are detected, not absorbed",
  "A master that receives a response for an ID with no outstanding transfer, or a last flag missing or early in a read burst, raises an error. A slave that receives a last flag missing or early in a write burst, or an illegal burst (beats wider than the bus, incrementing across a 4 KB boundary), raises an error; legal traffic is never rejected.",
  "inputs fault_sequences", "all malformed response and request sequences",
  "The tests pair these models only with well-behaved peers.",
  "axi_master.py axi_slave.py", [("assertions", "_process_*_resp_id of AxiMaster*, _process_write/_process_read of AxiSlave*")]),
P("C16", "Generated bursts are legal and exactly cover the request",
  "Every burst an AXI master issues has between 1 and 256 beats (16 for fixed bursts), never more than the configured maximum and (if incrementing) never crosses a 4 KB boundary, and it announces exactly as many beats as follow, the last flag being set on the last of them only. The transfers of one incrementing operation (bursts; words for AXI-lite and APB) are contiguous and together cover the requested bytes exactly once, the first at the requested address and the later ones aligned; a fixed operation at an aligned address repeats that address. As many responses are awaited as the requests call for.",
  "inputs configurations", "all addresses, lengths, sizes, bus widths and maximum burst lengths",
  "Tests sweep a few lengths and offsets near one 4 KB boundary with a few burst limits.",
  "axi_master.py axil_master.py apb.py", [("burst splitting", "_process_write/_process_read of the masters")]),
P("C17", "Bytes travel on the right lanes with exact strobes",
  "For each beat of an incrementing operation (or a fixed one at an aligned address), the byte at address a is carried on the lane selected by a modulo the bus width; write strobes are high on exactly the lanes carrying data of the operation, and read data is returned from exactly those lanes in address order with the requested length. No other byte is written or returned.",
  "inputs configurations", "all addresses, lengths, beat sizes and bus widths",
  "Tests sweep lengths up to a few beats; lane arithmetic errors appear for particular alignments and narrow sizes.",
  "axi_master.py axil_master.py apb.py", [("lane windows", "_process_write, _process_read_resp(_id), ApbMaster._run")]),
P("C18", "Responses are matched to operations per ID, in order",
  "A response carrying an ID is given to the oldest outstanding operation of that ID and to no other, whatever the order in which different IDs are answered. Bookkeeping for an ID is released only when nothing of it is outstanding, and reset hands back every outstanding operation exactly once.",
  "schedules histories", "all interleavings of responses over IDs, all reuse patterns of IDs",
  "The RAM models answer mostly in order, so tests rarely interleave IDs.",
  "axi_master.py", [("per-ID contexts", "axi_master.py TagContext, TagContextManager")]),
P("C19", "Slaves decode bursts and strobes into exact memory accesses",
  "For each beat of a fixed, incrementing or wrapping burst of any size a slave accesses its target in the bus word that contains the address the protocol assigns to that beat: writes touch exactly the bytes of that word whose strobe is set, each with its own lane's data; a read fetches the word and returns every byte of it on its own lane.",
  "inputs configurations", "all addresses, lengths, sizes, burst types and strobe patterns, all bus widths",
  "The masters used in tests never produce wrapping bursts and few strobe patterns.",
  "axi_slave.py axil_slave.py apb.py", [("burst addresses", "AxiSlaveWrite._process_write, AxiSlaveRead._process_read"), ("strobe runs", "write_ops construction in the slaves")]),
P("C20", "APB transfers follow the two-phase protocol",
  "An APB master asserts select without enable for one cycle, then enable until ready, with address, direction, protection, data and strobes stable throughout, deasserting both afterwards (select may stay asserted only if the next transfer begins at once), and samples read data and error only at completion. An APB slave responds once per access phase and asserts ready for exactly one cycle with its data and error valid then.",
  "schedules inputs", "all wait-state and pause patterns and sequences of operations",
  "The master is only tested against the slave of the same package.",
  "apb.py", [("master sequencing", "ApbMaster._run"), ("slave sequencing", "ApbSlave._run")]),
P("C21", "Address spaces route every byte to the region that owns it",
  "An access to an address space is divided among the registered regions so that each byte reaches exactly the region covering its address at the offset given at registration, in order, and read data is assembled in address order. Overlapping or out-of-space regions cannot be registered, and an access to an unmapped byte or region of the wrong kind raises an error.",
  "inputs configurations", "all region layouts and all accesses, including ones spanning regions",
  "Tests use one or two regions and never span them.",
  "address_space.py", [("routing", "AddressSpace.find_regions, read, write, register_region")]),
P("C22", "Windows and pools give access to exactly their own range",
  "Accesses through a window act on the parent at the window's offset plus the given address, whatever the nesting, and window pools hand out disjoint, aligned windows of at least the size asked for. An access outside a window never reaches the parent.",
  "inputs histories", "all window sizes, nestings, accesses and allocation orders",
  "Windows are barely tested.",
  "address_space.py", [("windows", "Window, WindowPool, MemoryInterface.create_window")]),
P("C23", "Accesses out of range raise and change nothing",
  "An access to a memory interface, sparse memory, window or address space that starts before or ends beyond its range raises an error before any byte is read or written; an access within the range is not refused.",
  "inputs", "all addresses and lengths, including boundary and zero lengths",
  "Boundary values are not tested.",
  "address_space.py sparse_memory.py", [("range checks", "MemoryInterface/Window/AddressSpace read/write, SparseMemory.read/write")]),
P("C24", "Sparse memory behaves as one flat zero-filled memory",
  "Reading a byte of a sparse memory returns the value most recently written to that address, or zero if none was, however reads and writes are sized, aligned or split over internal segments. Writes change exactly the addressed bytes and cost memory only for what is touched.",
  "inputs histories", "all sequences of reads and writes of all sizes and alignments",
  "There is no test of segment-crossing accesses.",
  "sparse_memory.py", [("segments", "SparseMemory._find_segment, read, write")]),
P("C25", "The buddy allocator never hands out overlapping or misaligned blocks",
  "Blocks handed out by the allocator lie within the managed range, are aligned to their power-of-two size of at least the size asked for, and never overlap a block still allocated. Freeing returns exactly that block, merges it with its free buddy, makes the whole range allocatable again when all is freed, and freeing anything else is refused.",
  "histories inputs", "all sequences of allocations and frees, all sizes and ranges",
  "The unit test runs one fixed sequence.",
  "buddy_allocator.py", [("free lists", "BuddyAllocator.alloc, free")]),
P("C26", "Word-access helpers are exact conversions of byte accesses",
  "Each word access helper (byte, 16, 32, 64 bit and arbitrary size, single or list) performs exactly one access covering exactly its words, with the byte order requested, little endian by default, so that reading back what was written returns the same values. It passes its remaining arguments on unchanged.",
  "inputs", "all word sizes, counts, values and byte orders",
  "Tests use one word size with default byte order.",
  "address_space.py memory.py", [("helpers", "Region read_/write_ words, dwords, qwords, byte"), ("memory helpers", "memory.py Memory")]),
P("C27", "Stream frames and bus beats convert losslessly",
  "A frame sent appears on the bus as consecutive beats carrying its bytes in order, one lane after another, with keep set on exactly the used lanes, last on the final beat only, and with each beat the ID, destination and user value of a byte it carries. A receiver rebuilds the frame from these beats: every lane of every accepted beat in order, the lanes not kept being dropped unless the caller asks for them.",
  "inputs configurations", "all frame lengths, sideband values, lane counts and byte sizes, all subsets of sideband signals",
  "Tests use a few lengths with uniform sidebands and one lane width at a time.",
  "axis.py", [("serialise", "AxiStreamSource._run"), ("reassemble", "AxiStreamMonitor._run, AxiStreamSink._run")]),
P("C28", "Stream frame normalisation, compaction and comparison preserve content",
  "Normalising a frame gives every sideband exactly one value per byte, keeping given values, repeating the last one to extend and using the documented default for missing ones; compacting removes exactly the bytes not kept from data and sidebands alike and folds uniform sidebands to one value. Copying yields an independent equal frame, and comparison depends on content only.",
  "inputs", "all frames: lengths, scalar, list and absent sidebands, any keep pattern",
  "Tests build frames with full or absent sidebands only.",
  "axis.py", [("frame", "axis.py AxiStreamFrame.__init__, normalize, compact, __eq__")]),
P("C29", "Frame completion is signalled exactly once, for every outcome",
  "Each frame a stream source takes signals its completion exactly once: when its last beat is put on the bus, or when it is aborted by a reset or dropped from the queue by clear(). A completion event is set with the frame as its data and a completion callable is called with the frame; completion is never signalled while bytes of the frame are still to be sent.",
  "histories fault_sequences", "all frames with completion handlers, clear and reset at any point",
  "No test combines completion handlers with clear or reset.",
  "axis.py", [("completion", "AxiStreamFrame.handle_tx_complete, AxiStreamSource._run/clear/_handle_reset")]),
P("C30", "RAM models apply bus accesses and direct accesses to one memory",
  "A RAM model's write and read interfaces and its direct access methods all act on one memory of the size given (or the memory object supplied), so that each sees the others' writes. Bus addresses wrap modulo the memory size (a multiple of the bus width) and never fail or touch other bytes.",
  "inputs configurations histories", "all sizes, shared memory objects, addresses and access orders",
  "The tests write and read back through the same path within the size.",
  "axi_ram.py axil_ram.py apb.py memory.py", [("shared storage", "AxiRam, AxiLiteRam, ApbRam constructors"), ("wrapping", "AxiRamWrite._write, AxiRamRead._read and counterparts")]),
P("C31", "Bus definitions, encodings and signal wiring match the AMBA specifications",
  "Each channel declares exactly the specified signals with their roles (payload, handshake, mandatory or optional) and fixed widths, and each bus object binds each channel's signals by the specified names. The encodings of burst types, responses, lock, cache and protection attributes are the specified values.",
  "configurations", "all bus definitions and encodings",
  "Both ends of every test use the same definitions, so a wrong name or code cancels out.",
  "axi_channels.py axil_channels.py constants.py apb.py axis.py stream.py", [("channel definitions", "define_stream calls"), ("encodings", "constants.py")]),
P("C32", "User sideband values received are reported exactly",
  "A master reports, for each operation, the user sideband values of its own responses: one entry for every write response or read beat received for it, in the order received, each with the value of that transfer. It reports None, and only then, when the bus has no such user signal.",
  "configurations histories", "all burst splittings, user signals connected or absent, values including zero",
  "Tests connect constant user signals and never look at the values returned.",
  "axi_master.py", [("write responses", "AxiMasterWrite._process_write_resp_id"), ("read beats", "AxiMasterRead._process_read_resp_id")]),
P("C33", "A paused interface starts no new transfer",
  "While paused, a source presents no new item or beat (what is already on the bus stays until accepted), a sink does not offer ready, an APB master starts no transfer and an APB slave answers none; all starting with the first clock edge at which the pause is seen. Components start out unpaused, the pause property sets and reads this state and nothing else does, except a pause generator, which supplies one value per clock cycle until cleared or replaced.",
  "schedules histories", "pause changed at any clock edge, in any state of the transfer, by property or generator",
  "Tests only see that traffic still arrives when pauses are applied.",
  "stream.py axis.py apb.py", [("pause", "StreamPause, AxiStreamPause, ApbPause"), ("source and sink loops", "StreamSource._run, StreamSink._run, AxiStreamSource._run, AxiStreamSink._run"), ("APB", "ApbMaster._run, ApbSlave._run")]),
P("C34", "Stream frames carry exact time stamps",
  "A received frame carries the simulation time of the clock edge at which its first beat was accepted as its start and that of its last beat as its end when it is handed over. A transmitted frame carries the time it was taken up for transmission and, when completion is signalled, the time its last beat was put on the bus; a frame dropped or aborted has no end time. Copies of a frame keep its stamps.",
  "schedules histories", "all frame lengths, stalls, resets and drops at any point",
  "Tests never read the time stamps.",
  "axis.py", [("transmit", "AxiStreamSource._run, clear, _handle_reset"), ("receive", "AxiStreamMonitor._run, AxiStreamSink._run")]),
P("C35", "Bus geometry is derived exactly and inconsistent buses are refused",
  "Each component derives its data width from the data signal and from it the number of lanes, the lane width and the masks, such that lanes times lane width is the data width: 8-bit lanes on memory-mapped buses, the lanes given by tkeep or the caller on stream interfaces. It refuses a bus whose data width does not divide into lanes, whose strobe or ID signals have the wrong width, whose signals of specified width have another one, and conflicting lane settings; it accepts every consistent bus.",
  "configurations", "all data, strobe, keep and ID widths and lane settings",
  "Tests only use consistent buses of a few widths.",
  "axi_master.py axi_slave.py axil_master.py axil_slave.py apb.py axis.py stream.py", [("constructors", "__init__ of masters, slaves and stream interfaces"), ("signal widths", "StreamBase.__init__, define_stream")]),
P("C36", "Hex dumps show exactly the addressed bytes",
  "A hex dump covers exactly the requested range, clipped to the end of the data, one row per row_size bytes from its start, each row labelled with the prefix and its address and showing each byte as two hexadecimal digits and as its printable character, or a dot. The dump methods of memories and memory regions show the bytes at the requested addresses.",
  "inputs", "all ranges, contents, row sizes, offsets and prefixes",
  "Tests only pass dumps to the debug log.",
  "utils.py memory.py sparse_memory.py address_space.py", [("formatting", "utils.hexdump_line, hexdump, hexdump_lines, hexdump_str"), ("methods", "hexdump* of Memory, SparseMemory, MemoryRegion, SparseMemoryRegion")]),
P("C37", "Byte-stream reads return the received bytes in order",
  "read and read_nowait of an AXI stream monitor or sink return the received bytes that are kept, in order of arrival and each exactly once, taking in every frame that has arrived: at most count bytes, or all of them for a negative count, with the rest left for the next read. The blocking read waits only while nothing is held. wait returns at once when something has been received, and otherwise after an arrival or the given time in the given unit. write and write_nowait queue their data as send and send_nowait do.",
  "inputs histories schedules", "all sequences of frames and reads, all counts and timeouts",
  "No test calls read, read_nowait, or wait with a timeout.",
  "axis.py stream.py", [("reads", "AxiStreamMonitor.read, read_nowait"), ("wait", "AxiStreamMonitor.wait, StreamMonitor.wait"), ("alias", "AxiStreamSource.write, write_nowait")]),
]

NA = [
P("N01", "Data survives an arbitrary device under test end to end",
  "Data written by a master through any correct device under test is read back unchanged.",
  "programs schedules", "all devices and traffic", "Tests use one interconnect.", "axi_master.py axi_slave.py", [("whole system", "masters and slaves around a DUT")]),
P("N02", "Traffic always makes progress",
  "With a peer that eventually accepts and answers, every operation eventually completes and concurrent operations are treated fairly.",
  "schedules", "all fair schedules", "Tests only see finite runs.", "stream.py axi_master.py", [("scheduling", "all worker coroutines")]),
P("N03", "Order of effects across concurrent operations",
  "Concurrent operations of one master to overlapping addresses take effect in the order of submission.",
  "schedules histories", "all overlapping operations", "Depends on the peer.", "axi_master.py", [("issue order", "_process_write/_process_read")]),
P("N04", "Full throughput without idle cycles",
  "Back-to-back transfers are issued without idle cycles when neither side stalls.",
  "schedules", "all traffic", "Tests do not measure throughput.", "stream.py axis.py axi_master.py", [("pipelining", "source and sink loops")]),
P("N05", "Bounded memory and time for long simulations",
  "Long simulations use memory and time proportional to outstanding work only.",
  "histories", "arbitrarily long runs", "Tests are short.", "axi_master.py axis.py sparse_memory.py", [("queues", "all queues and caches")]),
]
NA_REASON = {
    "N01": "quantifies over the behaviour of an external RTL design that is not in the source analysed; the parts that are in the package are C05, C06, C16-C19, C27",
    "N02": "liveness under fairness depends on the peer and on the simulator's scheduler; the statically decidable core (no lost wake-ups, nothing dropped) is claimed as C01, C02 and C07",
    "N03": "the order in which effects become visible is decided by the interconnect and slave, not by this package; per-ID matching is C18",
    "N04": "a cycle-count property of runs: it bounds run-time quantities (stall lengths) that no static argument over the source bounds",
    "N05": "resource consumption over unbounded runs is a run-time quantity; occupancy limits are claimed as C08",
}
