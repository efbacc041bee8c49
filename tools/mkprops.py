#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here, one entry per property)."""
import json, os
B = "cocotbext/axi/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],
            state=[dict(name=n, meaning=m, where=B+w) for n, m, w in state],
            mechanism=[dict(name=n, where=B+w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ streams
p("S01", "AXI-stream frames arrive exactly once, in order and bit-exact",
  "Every non-empty frame queued on an AXI-stream source reaches the sink on the same bus exactly once, in the order queued, with the same data, the same frame boundary and, for each bus cycle, the sideband values (tid, tdest, tuser) of the last byte of that cycle. Bytes marked not-kept are removed from a compacted frame on receive and no others are; sideband fields absent from the frame read as 0 on the wire. This holds for any pausing on either side, any bus width and byte size, and any subset of tready, tkeep, tid, tdest and tuser (without tkeep the last cycle is padded with zero bytes).",
  ["schedules", "inputs", "configurations", "histories"],
  "all sequences of frames, all interleavings of source idling and sink backpressure, all widths/byte sizes/optional-signal subsets",
  "test_axis drives one incrementing payload per length with two fixed pause patterns, one bus layout with every optional signal present, constant sideband and tkeep all ones",
  ["axis.py"],
  [("AxiStreamSource._run packs bytes, keep and sideband per cycle", "axis.py"), ("AxiStreamSink._run/AxiStreamMonitor._run unpack cycles into frames", "axis.py"), ("AxiStreamFrame.normalize/compact", "axis.py")],
  [("queue/current_frame", "frames waiting and frame being driven", "axis.py")], ["tvalid/tready/tdata/tkeep/tlast/tid/tdest/tuser at each clock edge", "AxiStreamSource.send", "AxiStreamSink.recv"])
p("S02", "A presented transfer is held unchanged until it is accepted",
  "Once any source in the package (AXI-stream source, every AXI and AXI-lite channel source of the masters and slaves, user-defined stream sources) presents a transfer with valid high, valid stays high and every payload signal keeps its value at every clock edge up to and including the one where ready is also high, unless reset is asserted. Payload signals are fully defined (no X) whenever valid is high.",
  ["schedules", "inputs", "configurations", "histories"],
  "every cycle of every execution: any ready pattern, pausing, queue clearing and operation mix",
  "no test looks at the bus signals; a withdrawn or altered transfer is usually still received by the permissive sink on the other end",
  ["stream.py", "axis.py", "axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py"],
  [("StreamSource._run drives a new item only when ready&valid or not valid", "stream.py"), ("AxiStreamSource._run likewise", "axis.py")],
  [], ["valid, ready and payload of every channel at each clock edge"])
p("S03", "Pause stops new transfers; un-paused streams always make progress",
  "While a stream source (AXI-stream or user-defined/AXI-channel) is paused it starts no new transfer, and while a sink is paused it accepts nothing from the second clock edge after the pause took hold; pausing never withdraws, loses, duplicates or reorders data. Whenever data is queued on an un-paused source it is presented within a bounded number of clock cycles, and whenever a sink is neither paused nor over its queue limit it raises ready within a bounded number of cycles while valid is high, whatever the preceding history of pausing, filling up, dequeuing and queue clearing.",
  ["schedules", "histories"],
  "all interleavings of pause set/cleared (directly or by generator), send, dequeue, clear, and handshakes",
  "the tests use one periodic pause generator, never change pause while a queue limit is in force and never clear a queue, so lost wake-ups are not reachable",
  ["stream.py", "axis.py"],
  [("wake_event/active_event hand-off between pause setter, dequeue and the run loop", "axis.py"), ("same in generic streams", "stream.py")],
  [("wake_event", "wakes a sleeping sink", "axis.py"), ("active_event", "wakes a sleeping source", "axis.py")], ["valid/ready at each edge", "pause attribute"])
p("S04", "Queue limits and occupancy counters are exact",
  "The reported item count, byte occupancy and frame occupancy of a stream source, sink or monitor always equal what is actually queued, whatever mixture of send, receive, clear and reset preceded. A source refuses non-blocking sends (and blocks blocking sends, losing none of them) exactly while its queue limit is in force, and a sink with a limit accepts no further transfer after the edge that put it over its limit until something is dequeued or cleared.",
  ["schedules", "histories", "inputs"],
  "all limits, frame sizes, and orders of send/send_nowait/recv/clear/reset with several concurrent senders",
  "no test sets a limit on an AXI-stream endpoint or reads the occupancy attributes",
  ["axis.py", "stream.py"],
  [("queue_occupancy_bytes/frames bookkeeping and full()", "axis.py"), ("queue_occupancy_limit and full()", "stream.py")],
  [("queue_occupancy_bytes, queue_occupancy_frames", "current occupancy", "axis.py")], ["count(), full(), empty(), queue_occupancy_*", "QueueFull", "ready at each edge"])
p("S05", "Transmit completion, idle and wait report exactly what was sent",
  "A stream source is idle only when nothing is queued and its last transfer has been accepted, wait() on a source returns when and only when that holds (absent clear), and it always returns once the sink drains the data. The tx_complete event or callback of each non-empty frame fires exactly once, in order, no earlier than the clock edge at which its last cycle is put on the bus, carrying the frame with its start and end times; a frame dropped by clear() or flushed by reset is signalled exactly once too.",
  ["schedules", "histories"],
  "all schedules of sends, pauses, backpressure, clear and reset",
  "no test awaits tx_complete or wait(), reads idle() or drops frames",
  ["axis.py", "stream.py"],
  [("idle_event set in the run loop", "axis.py"), ("handle_tx_complete on last cycle, in clear() and in _handle_reset()", "axis.py")],
  [("idle_event, active", "idle tracking", "axis.py")], ["wait(), idle(), tx_complete, sim_time_start/sim_time_end"])
p("S06", "Reset of stream endpoints is clean",
  "From the clock edge after reset is asserted until it is released, a source keeps valid low and a sink keeps ready low, and no transfer is made or recorded. A frame cut by reset is never delivered in part, merged with later data or resumed; frames still queued on an AXI-stream source survive and are sent whole after release, and everything sent after release is delivered exactly once in order. The polarity configured for the reset signal is honoured.",
  ["fault_sequences", "schedules", "configurations"],
  "reset asserted and released at every point (any phase of the clock, any number of times, either polarity, also through assert_reset()) of every traffic schedule",
  "the tests reset once, before any traffic",
  ["axis.py", "stream.py", "reset.py"],
  [("_handle_reset kills the run loop, drives valid/ready low, flushes the current frame", "axis.py"), ("Reset._update_reset combines local and external reset", "reset.py")],
  [("_reset_state", "combined reset", "reset.py")], ["valid/ready at each edge", "received frames"])
p("S07", "Monitors report exactly the handshaked traffic and drive nothing",
  "A stream monitor, wherever it is attached and whatever drives the bus, delivers exactly the transfers (for AXI-stream: the frames) formed by the clock edges with valid and ready both high, in order, with data, sideband and start/end times of the first and last of those edges. It never changes any signal and its own queue being full or never read has no effect on the bus.",
  ["schedules", "inputs", "configurations"],
  "all valid/ready waveforms legal on the bus, including ready before valid, single-cycle gaps and back-to-back traffic",
  "the only monitor test shares the bus with the package's own source and sink under two pause patterns",
  ["axis.py", "stream.py"],
  [("AxiStreamMonitor._run with wake on valid or ready", "axis.py"), ("StreamMonitor._run", "stream.py")],
  [], ["monitor recv() against pins"])
p("S08", "Byte-stream reads lose, duplicate and reorder nothing",
  "On an AXI-stream sink or monitor any interleaving of read(n), read_nowait(n), recv and recv_nowait returns the received kept bytes in arrival order, each exactly once; read(n) returns at most n bytes, at least one when it returns with n > 0, and -1 means everything available. wait() returns only when a frame is available (or its timeout expires) and does return then.",
  ["histories", "schedules", "inputs"],
  "all sequences of counts and frame sizes, interleaved with arrival",
  "read(), read_nowait() and wait() are not called by any test",
  ["axis.py"],
  [("read_queue coalescing in read/read_nowait", "axis.py"), ("active_event in wait/_recv", "axis.py")],
  [("read_queue", "bytes already received and not yet read", "axis.py")], ["read/read_nowait/recv/recv_nowait/wait results"])
p("S09", "Frame objects: copy, normalize, compact and equality are lossless",
  "Constructing a frame from a frame yields an equal, independent copy; normalize() extends each sideband field to the data length by repeating its last element (scalars repeated, absent ones 0, keep defaults to 1) and never changes data; compact() removes exactly the bytes whose keep is 0 together with their sideband entries and collapses a sideband field to a scalar only if all values agree. Two frames compare equal exactly when data match and every field present on both sides matches, a scalar matching a list of equal values.",
  ["inputs"],
  "all data lengths and all combinations of scalar, list (shorter, equal, longer) and absent keep/sideband fields",
  "only scalar tid/tdest with full keep are exercised, through the bus",
  ["axis.py"],
  [("AxiStreamFrame.__init__/normalize/compact/__eq__", "axis.py")], [], ["AxiStreamFrame public methods"])
p("S10", "User-defined streams carry every transaction once, in order",
  "For any stream declared through the generic stream factory (any payload signals, optional signals and ready present or not), every transaction queued on the source is delivered to the sink exactly once, in order, with each payload signal's value, under any pausing and queue limits on either side.",
  ["schedules", "configurations", "inputs"],
  "all signal declarations and all schedules of send, pause, limits, recv",
  "the factory is only used indirectly, for the AXI channels, with valid and ready always present",
  ["stream.py"],
  [("define_stream", "stream.py"), ("StreamSource._run, StreamSink._run", "stream.py")], [], ["source send / sink recv", "pins"])

# ------------------------------------------------------------------ AXI master
p("M01", "An AXI write changes exactly the requested bytes",
  "A write of n bytes at address a with any legal size, alignment and burst limit issues write beats whose strobed lanes cover the bytes a..a+n-1, each exactly once, with the given data and nothing else, so that a conforming slave's memory afterwards differs only there. The operation reports the requested address, length and the burst responses combined (OKAY only if all were OKAY). A size-aligned FIXED burst carries its bytes successively on the lanes of its address.",
  ["inputs", "configurations", "schedules"],
  "all addresses (including the top of the address space), lengths (including 0), transfer sizes, burst-length limits, data widths, and all slave timings",
  "tests use lengths up to two words plus 1024 at offsets around one 4 kB boundary, default burst limit and check only one guard byte on each side",
  ["axi_master.py"],
  [("AxiMasterWrite._process_write strobe/offset/cycle computation", "axi_master.py")], [], ["AW/W beats", "AxiWriteResp"])
p("M02", "An AXI read returns exactly the requested bytes",
  "A read of n bytes at address a with any legal size, alignment and burst limit returns exactly n bytes, byte i being what a conforming slave presented for address a+i, whatever the slave drives on lanes that do not belong to the beat. The operation reports the requested address and the beat responses combined (OKAY only if all were OKAY).",
  ["inputs", "configurations", "schedules"],
  "all addresses, lengths (including 0), sizes, burst-length limits, data widths, slave timings and values on unused lanes",
  "as for writes; the slave in the tests always returns memory contents on every lane, so taking a wrong lane of a narrow beat can go unnoticed",
  ["axi_master.py"],
  [("AxiMasterRead._process_read and _process_read_resp_id lane extraction", "axi_master.py")], [], ["AR/R beats", "AxiReadResp"])
p("M03", "Every burst issued is legal AXI and carries the requested attributes",
  "For every operation the AXI master issues a sequence of bursts that are contiguous and cover exactly the operation's address range, each at most the configured maximum burst length (1-256), of the requested beat size and burst type, none (INCR) crossing a 4 kB boundary, each followed by exactly awlen+1 data beats with wlast on the last only. All bursts of one operation carry the same ID (the requested one, or the automatically assigned one) and the requested lock, cache, prot, qos, region and user values, and wuser per beat.",
  ["inputs", "configurations", "schedules"],
  "all operations and burst limits",
  "nothing in the tests looks at the address channels; the RAM model only asserts the 4 kB rule",
  ["axi_master.py"],
  [("burst splitting in _process_write/_process_read", "axi_master.py")],
  [("cur_id", "next automatic ID", "axi_master.py")], ["AW, W and AR handshakes"])
p("M04", "Concurrent operations each complete once, with their own response",
  "With any number of AXI, AXI-lite or APB master operations outstanding, started in any style, each completes exactly once, only after its last response beat has arrived, and with its own response code, user values and data, for every order in which the slave answers different IDs and interleaves read data. Operations with the same ID are matched to responses in issue order. idle() is true and wait() returns exactly when no operation is outstanding.",
  ["schedules", "histories", "inputs"],
  "all interleavings of operations, IDs (explicit, automatic, reused) and legal response orders, including responses that arrive before later bursts of the same operation were issued",
  "the RAM model answers strictly in order, and the tests never pass IDs, so reordering and interleaving are never exercised; idle()/wait() are not called",
  ["axi_master.py", "axil_master.py", "apb.py"],
  [("TagContextManager/TagContext per-ID queues", "axi_master.py"), ("in_flight_operations and _idle", "axi_master.py"), ("int_*_resp_command_queue", "axil_master.py")],
  [("_context_mapping, _context_idle_list", "per-ID contexts", "axi_master.py"), ("in_flight_operations", "outstanding operations", "axi_master.py")], ["event of each operation, idle(), wait()"])
p("M05", "Reset releases every outstanding master operation and leaves no residue",
  "When reset is asserted, every outstanding operation of an AXI, AXI-lite or APB master is released (its waiter resumes, with no result), none hangs, and the master reports idle; an operation that had already completed keeps its result. Operations issued during or after reset run normally afterwards: they complete exactly once with their own data and responses, unaffected by anything from before the reset.",
  ["fault_sequences", "schedules", "histories"],
  "reset at every point of every mix of queued, partially issued and partially answered operations, any number of times",
  "the tests reset only before any operation",
  ["axi_master.py", "axil_master.py", "apb.py", "reset.py"],
  [("_handle_reset flush of command queues, current command and tag contexts", "axi_master.py"), ("_handle_reset", "axil_master.py"), ("_handle_reset", "apb.py")],
  [("current_write_command/current_read_command", "operation being issued", "axi_master.py")], ["results of outstanding operations", "idle()", "bus after reset"])
p("M06", "Illegal requests are rejected up front and leave no trace",
  "A request whose address or extent is outside the interface's address range, whose ID or beat size does not fit the bus, which has a negative length, non-bytes data, or a non-default sideband value for an unconnected signal is rejected with ValueError by the AXI, AXI-lite and APB masters in both the blocking and the init style. A rejected request produces no bus activity and does not change idle(), and every request within those limits is accepted.",
  ["inputs", "configurations"],
  "all argument values at and around each limit, all subsets of connected optional signals",
  "no test passes an illegal argument",
  ["axi_master.py", "axil_master.py", "apb.py"],
  [("argument checks of init_write/write/init_read/read", "axi_master.py"), ("same", "axil_master.py"), ("same", "apb.py")], [], ["exceptions, bus activity"])

# ------------------------------------------------------------------ AXI slave
p("V01", "The AXI slave writes exactly the strobed bytes of each beat address",
  "For every legal write burst (FIXED, INCR, WRAP, any beat size and alignment, any strobes, data arriving before, with or after the address) an AXI slave or RAM stores each strobed byte lane at the bus-word address of its beat plus the lane number, beats taking effect in order, and changes no other byte. RAM addresses wrap modulo the memory size.",
  ["inputs", "schedules", "configurations"],
  "all burst types, lengths, sizes, addresses, strobe patterns and channel timings a master may produce",
  "only bursts generated by the package's own master are used: INCR, contiguous strobes",
  ["axi_slave.py", "axi_ram.py"],
  [("AxiSlaveWrite._process_write address sequence and operation list", "axi_slave.py"), ("AxiRamWrite._write", "axi_ram.py")], [], ["memory contents / target write calls"])
p("V02", "The AXI slave returns the bytes of each beat address",
  "For every legal read burst an AXI slave or RAM returns awlen-style length+1 beats, the lanes of beat k holding the target's bytes at that beat's address as defined by the burst type (FIXED, INCR, WRAP), size and start address, with values current at some moment between the request and the beat.",
  ["inputs", "schedules", "configurations"],
  "all burst types, lengths, sizes, addresses and timings",
  "only INCR bursts from the package's own master are used",
  ["axi_slave.py", "axi_ram.py"],
  [("AxiSlaveRead._process_read address sequence", "axi_slave.py"), ("AxiRamRead._read", "axi_ram.py")], [], ["R beats against target contents"])
p("V03", "AXI slave responses: one per burst, right ID, order and error scope",
  "Each write burst gets exactly one response, with its ID, in acceptance order and only after its address and its last data beat were accepted; each read burst gets exactly length+1 data beats with its ID, contiguous, in acceptance order, last marked on the final one only. If the target raises an error the beat (read) or burst (write) concerned is answered SLVERR, all others OKAY, and the slave keeps serving.",
  ["schedules", "inputs", "fault_sequences"],
  "all request pipelines, backpressure on the response channels, and any set of failing target accesses",
  "the tests never look at B/R beats, never fail a target access and never use IDs",
  ["axi_slave.py"],
  [("AxiSlaveWrite._process_write / AxiSlaveRead._process_read", "axi_slave.py")], [], ["B and R handshakes"])
p("V04", "Slaves drop in-flight work on reset and then serve normally",
  "When reset is asserted, AXI, AXI-lite and APB slaves abandon requests not yet answered, drive no response (valid or ready low) until release, and never answer a pre-reset request afterwards. Beats already stored stay stored, no later effect of an abandoned request reaches memory, and requests made after release are served exactly as on a fresh slave.",
  ["fault_sequences", "schedules"],
  "reset at every point of every request pipeline",
  "the tests reset only before traffic",
  ["axi_slave.py", "axil_slave.py", "apb.py", "stream.py"],
  [("_handle_reset kills the processing loop and clears the channels", "axi_slave.py"), ("same", "axil_slave.py"), ("same", "apb.py")], [], ["response channels, memory"])

# ------------------------------------------------------------------ AXI-lite / APB
p("L01", "AXI-lite master operations map to exact word accesses",
  "An AXI-lite write of n > 0 bytes at address a is issued as the minimal in-order sequence of bus-word accesses covering a..a+n-1, one address and one data beat each with the requested prot, strobes selecting exactly the requested bytes with the given data; a read of n bytes issues the same word sequence and returns exactly those bytes. The result reports address, length or data, and OKAY only if every access was OKAY.",
  ["inputs", "configurations", "schedules"],
  "all addresses, lengths (including 0), widths, slave timings and response codes",
  "tests use short operations at one address range against the package's own RAM, and only check one guard byte on each side",
  ["axil_master.py"],
  [("AxiLiteMasterWrite._process_write, AxiLiteMasterRead._process_read(_resp)", "axil_master.py")], [], ["AW/W/AR beats, results"])
p("L02", "AXI-lite slaves answer each access once, in order, touching only it",
  "An AXI-lite slave or RAM stores exactly the strobed bytes of each write access at its word address, returns the whole addressed word for each read, and gives each access exactly one response in order, only after its address (and data) were accepted: OKAY, or SLVERR when and only when the target raised an error for it.",
  ["inputs", "schedules", "fault_sequences"],
  "all addresses, strobes, address/data arrival orders, backpressure and failing target accesses",
  "only the package's own master is used; no failing target, sparse strobes or address/data skew",
  ["axil_slave.py", "axil_ram.py"],
  [("AxiLiteSlaveWrite._process_write, AxiLiteSlaveRead._process_read", "axil_slave.py")], [], ["memory, B and R beats"])
p("A01", "APB transfers follow the setup/access protocol",
  "Every APB master transfer is one setup cycle (select high, enable low) followed by access cycles (select and enable high) until the edge where ready is high, with address, direction, write data, strobes and protection constant throughout and strobes zero for reads; enable is never high without select. At most one transfer is in progress and operations run in the order issued; a paused master starts no transfer.",
  ["schedules", "inputs", "fault_sequences"],
  "all wait-state patterns, pausing, operation mixes and reset points",
  "no test looks at the bus; the package's own slave ignores the protocol phase",
  ["apb.py"],
  [("ApbMaster._run", "apb.py")], [], ["psel/penable/pready/paddr/pwrite/pwdata/pstrb/pprot at each edge"])
p("A02", "APB master operations transfer exactly the requested bytes",
  "An APB write of n > 0 bytes at a is issued as the minimal in-order sequence of bus-word transfers whose strobes select exactly bytes a..a+n-1 with the given data; a read issues the same word sequence and returns exactly those bytes as presented at the completing edges. The result reports address, length or data, and SLVERR if any transfer signalled an error, OKAY otherwise.",
  ["inputs", "configurations", "schedules"],
  "all addresses, lengths (including 0), widths, wait states and error patterns",
  "as for AXI-lite",
  ["apb.py"],
  [("ApbMaster._run splitting and merging", "apb.py")], [], ["APB transfers, results"])
p("A03", "APB slaves perform each transfer once and answer it",
  "An APB slave or RAM performs each transfer exactly once: a write stores exactly the strobed bytes at the word address, a read returns the addressed word at the edge where ready is high, and ready is high for exactly one access-phase edge per transfer and never outside one. Error is signalled with a transfer when and only when the target raised an error for it, and a paused slave merely adds wait states.",
  ["inputs", "schedules", "fault_sequences"],
  "all transfer sequences (back-to-back or spaced), strobes, pausing and failing targets",
  "only the package's own master is used and it tolerates early or repeated ready",
  ["apb.py"],
  [("ApbSlave._run", "apb.py")], [], ["pready/prdata/pslverr at each edge, memory"])

# ------------------------------------------------------------------ address space / memory
p("R01", "Memory objects behave as byte arrays",
  "SparseMemory, memory regions and the RAM models' memory interface behave as an array of bytes of the declared size, initially zero: a read returns the last value written to each byte, a write changes exactly the addressed bytes, and multi-port RAMs given the same memory see each other's writes. Accesses through SparseMemory or a region that do not lie within the size, and slice assignments of the wrong length, are rejected and change nothing.",
  ["inputs", "histories", "configurations"],
  "all sequences of accesses at any address up to 2^64, crossing internal block boundaries, through any accessor",
  "tests touch the low 64 kB through one accessor and never check rejection",
  ["sparse_memory.py", "memory.py", "address_space.py", "axi_ram.py", "axil_ram.py", "apb.py", "utils.py"],
  [("SparseMemory.read/write block loop", "sparse_memory.py"), ("Memory.read/write", "memory.py"), ("MemoryRegion/SparseMemoryRegion", "address_space.py")],
  [("segs", "allocated blocks", "sparse_memory.py")], ["public accessors"])
p("R02", "Address spaces route every byte to the right place",
  "An access to an address space is carried out on exactly the registered regions that hold each byte of it, in address order, at the translated address (base+N maps to N+offset, or untranslated), and reads return the concatenated bytes; an access with any byte not covered by a region raises an error. Registering a region that overlaps another is refused, adjacent ones are accepted, and regions may be nested address spaces, pools or bus masters.",
  ["inputs", "histories", "configurations"],
  "all region layouts (adjacent, gapped, nested, repeated, translated) and all accesses",
  "the address space module has no test",
  ["address_space.py"],
  [("AddressSpace.find_regions/register_region/read/write", "address_space.py")],
  [("regions", "registered (base, size, offset, region)", "address_space.py")], ["region calls, results"])
p("R03", "Windows and absolute addresses translate consistently",
  "Reading or writing offset x of a window (of any depth of nesting, over any region or address space) accesses parent address x plus the window's offset, and accesses that do not fit in the window are refused without reaching the parent. The absolute address reported for an offset of a window, pool or region is the address at which the top-level address space reaches the same byte, or none if the region is registered with a translation.",
  ["inputs", "configurations", "histories"],
  "all nestings of windows, window pools, pools and registered regions",
  "the address space module has no test",
  ["address_space.py"],
  [("Window.get_parent_address, MemoryInterface.create_window/get_absolute_address", "address_space.py")], [], ["read/write results, get_absolute_address"])
p("R04", "Allocators hand out disjoint, aligned, in-range blocks and leak nothing",
  "For any sequence of allocations and frees, the allocator (also behind window pools and memory pools) returns blocks that lie inside the managed range, are naturally aligned to their size rounded up to a power of two, and do not overlap any other live block; freeing an unknown address is refused. An allocation fails only if no aligned free block of that size exists, and when everything is freed the full capacity is available again.",
  ["histories", "inputs", "configurations"],
  "all alloc/free histories, sizes (including non-powers of two) and minimum sizes",
  "one test allocates 1..31 bytes from 1024 and frees them in the same order",
  ["buddy_allocator.py", "address_space.py"],
  [("BuddyAllocator.alloc split loop / free merge loop", "buddy_allocator.py"), ("WindowPool.alloc_window, Pool.alloc_region", "address_space.py")],
  [("free_lists, allocations", "free blocks per order and live blocks", "buddy_allocator.py")], ["alloc/free results"])
p("R05", "Word accessors are consistent with byte accesses everywhere",
  "On every object with the memory interface (masters, regions, windows, address spaces, pools, RAM models, any backing memory) the byte, word, dword, qword and list accessors read and write exactly the bytes of the corresponding byte access in the requested byte order and word size, so that what one accessor writes the matching one reads back and other bytes are untouched.",
  ["inputs", "configurations"],
  "all accessors, byte orders, word sizes, counts, addresses, on every kind of object",
  "only little-endian default-size accessors on the bus masters and RAM models are tested",
  ["address_space.py", "memory.py"],
  [("MemoryInterface.read_words/write_words/...", "address_space.py"), ("Memory.read_words/write_words/...", "memory.py")], [], ["accessor results"])
p("R06", "Wrapped peripherals see each access exactly once",
  "A region wrapping a user object forwards every read and write to that object exactly once, with the region-relative address, length or data and keyword arguments, whether the object's methods are plain or async, returns its result, and lets its exceptions through.",
  ["inputs", "configurations", "fault_sequences"],
  "all access sequences on objects with plain or async, pure or side-effecting, failing or succeeding methods",
  "PeripheralRegion has no test",
  ["address_space.py"],
  [("PeripheralRegion._read/_write", "address_space.py")], [], ["calls seen by the wrapped object"])
p("E01", "Master-to-RAM systems are coherent under concurrency",
  "With the package's AXI, AXI-lite or APB master and RAM (or slave over an address space) connected, any number of concurrent reads and writes and any pausing: every read byte equals the initial value or that of a write to it which is not superseded by another one that completed before the read began, and does not begin after the read ended. Every operation completes, and after all complete memory holds for each byte the data of a last write to it.",
  ["schedules", "histories", "configurations"],
  "all mixes of concurrent operations, IDs, pausing, widths and shared (multi-port) memory",
  "the stress tests give each worker a private address range and one repeating pattern, so cross-talk within a range, lost or repeated writes and stale reads often go unseen",
  ["axi_master.py", "axi_slave.py", "axi_ram.py", "axil_master.py", "axil_slave.py", "axil_ram.py", "apb.py", "stream.py", "memory.py"],
  [("whole data path", "axi_master.py")], [], ["results of concurrent operations, memory"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for e in P:
            f.write(json.dumps(e) + "\n")
    print(len(P), "properties")
