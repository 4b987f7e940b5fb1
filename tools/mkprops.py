#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, in one place)."""
import json, os
H = "core/include/vecmem/"
S = "core/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

ALLOC_FILES = [S+"memory/details/pool_memory_resource_impl.cpp", S+"memory/details/arena_memory_resource_impl.cpp",
               S+"memory/details/binary_page_memory_resource_impl.cpp", S+"memory/details/contiguous_memory_resource_impl.cpp"]
prop("C01", "Live allocations are disjoint and lie inside memory owned upstream",
 "At every moment, the memory ranges handed out by a sub-allocating memory resource (pool, arena, binary page, contiguous) and not yet given back are pairwise disjoint, and each lies completely inside a block that the resource currently holds from its upstream resource. The resource never writes into a range that is handed out.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every history of allocations and deallocations of any sizes and alignments, every configuration of the resource, any placement of upstream blocks (adjacent, descending, reused addresses), any subset of upstream requests failing",
 "The tests allocate a handful of blocks of a few sizes from a well-behaved host resource, and never compare the address ranges of what is live; overlap needs a particular split/merge/refill history or a particular placement of upstream blocks.",
 ALLOC_FILES,
 [("free lists per size class", S+"memory/details/pool_memory_resource_impl.cpp"), ("address ordered free set, split and coalesce", S+"memory/details/arena_memory_resource_impl.cpp"),
  ("buddy tree page states", S+"memory/details/binary_page_memory_resource_impl.cpp"), ("bump pointer", S+"memory/details/contiguous_memory_resource_impl.cpp")],
 [("live", "ranges handed out and not yet returned", "client of the resource"), ("held", "blocks obtained from upstream and not yet returned", "upstream resource")],
 ["vecmem::memory_resource::allocate/deallocate of the resource and of its upstream"])
prop("C02", "Every allocation has the alignment that was asked for",
 "The address returned by any host-side memory resource or stack of resources, and by every typed allocation built on one (allocators, unique pointers, buffers), is a multiple of the requested alignment, respectively of the alignment of the type. Sub-allocating resources do not rely on their upstream resource aligning better than what they asked it for.",
 ["inputs", "histories", "configurations"],
 "all power of two alignments supported by the resource (host, pass-through, pool, contiguous: up to a page and beyond; arena and binary page: up to 256 bytes), all sizes, all histories, upstream blocks that are aligned exactly as requested and no better",
 "The tests check alignment for a few sizes against malloc, which aligns large blocks much better than requested, hiding a lost alignment.",
 ALLOC_FILES + [S+"memory/host_memory_resource.cpp", H+"memory/unique_ptr.hpp", H+"memory/impl/allocator.ipp", H+"containers/impl/aligned_multiple_placement.ipp"],
 [("alignment forwarded or rounded", S+"memory")], [("base alignment", "alignment of upstream blocks", "upstream resource")], ["address returned by allocate"])
prop("C03", "Everything taken from upstream is given back exactly once",
 "Whatever happened in between, once a caching or sub-allocating memory resource has been destroyed every block that it obtained from its upstream resource has been returned exactly once, with the size and alignment it was requested with; a pass-through resource holds nothing any more as soon as its clients have returned everything. No block is returned while memory inside it is still handed out, other than by destroying the resource, and moving a resource transfers its blocks without returning or losing any.",
 ["histories", "configurations", "fault_sequences"],
 "all histories ending in destruction or in move construction/assignment of the resource, for every kind of resource that keeps blocks, all upstream failures and placements",
 "The tests never look at what arrives at the upstream resource when a caching resource dies, so leaks, double returns and wrong sizes pass unnoticed with malloc as upstream.",
 ALLOC_FILES + [S+"memory/details/choice_memory_resource_impl.cpp", S+"memory/details/coalescing_memory_resource_impl.cpp"],
 [("destructors", S+"memory/details"), ("ownership records", S+"memory/details")], [("held", "multiset of blocks held from upstream", "upstream resource")],
 ["deallocate calls seen by the upstream resource"])
prop("C04", "Failed allocations are reported and leave no trace",
 "A non-zero-sized request either returns at least the requested number of usable bytes or throws std::bad_alloc; it never returns a null or shorter block, including for sizes near the maximum of the size type and when the upstream resource fails. After a failure every live allocation is intact, nothing is leaked, and the resource serves later requests as if the failed one had never been made.",
 ["inputs", "fault_sequences", "histories"],
 "every position of one or more upstream failures within any history, and every request size including those that overflow when rounded up",
 "Existing tests have no failing upstream resource except the terminal one, and use only small sizes.",
 ALLOC_FILES + [S+"memory/host_memory_resource.cpp", S+"memory/details/instrumenting_memory_resource_impl.cpp"],
 [("exception safety of allocate", S+"memory/details"), ("size rounding", S+"utils/integer_math.hpp")], [("fail", "which upstream calls fail", "upstream resource")],
 ["result of allocate, and later behaviour"])
prop("C05", "The pool resource recycles blocks and follows its configured limits",
 "The pool resource serves a request within its block size and alignment limits from the pool of the smallest power-of-two block size that fits, and goes upstream only when that pool has no free block, for a chunk whose block count and byte size, in whole blocks, lie within the configured limits and do not shrink from one chunk of a pool to the next. A larger or over-aligned request is served by a freed cached block only if that block is at least as large and as aligned and its excess is below the configured cut-off factors, a freed block being always reused for an identical request (if the factors are at least two); without caching such blocks go back upstream at once. Option combinations that contradict each other are rejected at construction.",
 ["histories", "configurations", "inputs"],
 "all consistent option sets, all request sequences including interleavings of pooled, oversized and over-aligned requests",
 "Tests use the default options plus one more set and only check that allocation works.",
 [S+"memory/details/pool_memory_resource_impl.cpp", H+"memory/pool_memory_resource.hpp"],
 [("bucket selection", "pool_memory_resource_impl::allocate"), ("chunk growth", "pool_memory_resource_impl::allocate"), ("sorted cache of oversized blocks", "pool_memory_resource_impl::deallocate"), ("option validation", "check_valid")],
 [("free", "free blocks per pool", "m_pools"), ("cached", "cached oversized blocks", "m_cached_oversized")], ["upstream calls and returned addresses"])
prop("C06", "The binary page resource behaves as a buddy allocator",
 "The binary page resource serves a request with a naturally aligned power-of-two page of at least 256 bytes that is the smallest fitting power of two, taken by halving the smallest free page that can hold it, and asks upstream for a new block, whose size is a power of two, only if no held block has a usable free page. When a page is given back it is merged with its buddy as long as the buddy is entirely free, so that once everything has been given back each upstream block is available again as a whole.",
 ["histories", "inputs"],
 "all sequences of allocations and deallocations of any sizes and in any order, over several upstream blocks of different sizes",
 "The tests exercise a few fixed patterns, and compare a couple of addresses.",
 [S+"memory/details/binary_page_memory_resource_impl.cpp", S+"memory/details/binary_page_memory_resource_impl.hpp", S+"utils/integer_math.hpp"],
 [("find_free_page", "binary_page_memory_resource_impl.cpp"), ("split/unsplit", "binary_page_memory_resource_impl.cpp")],
 [("page tree", "state of every page of a super page", "superpage::m_pages")], ["upstream calls and returned addresses"])
prop("C07", "The arena resource reuses and coalesces freed memory within its limit",
 "The arena resource rounds requests up to multiples of 256 bytes and serves those below its large-request threshold (256 KiB) from the lowest-addressed free range that is large enough, asking upstream for more only if there is none; larger requests always make it obtain a new upstream block that can hold them. Memory that is given back is merged with all directly neighbouring free memory of the same upstream block, so that any request fitting in a contiguous free range can be served from it, and the total taken from upstream never exceeds the configured maximum.",
 ["histories", "configurations", "inputs"],
 "all allocation/deallocation sequences, all initial and maximum sizes, all placements of upstream blocks relative to each other",
 "The tests allocate a few vectors; they never provoke neighbouring upstream blocks, requests bigger than the initial size, or the maximum size.",
 [S+"memory/details/arena_memory_resource_impl.cpp", S+"memory/details/arena_memory_resource_impl.hpp", H+"memory/arena_memory_resource.hpp"],
 [("first_fit", "arena_memory_resource_impl.cpp"), ("coalesce_block", "arena_memory_resource_impl.cpp"), ("expand_arena", "arena_memory_resource_impl.cpp")],
 [("free", "address ordered free ranges", "free_blocks_"), ("allocated", "ranges handed out", "allocated_blocks_")], ["upstream calls and returned addresses"])
prop("C08", "The contiguous resource carves one block in order, without waste",
 "The contiguous resource makes exactly one upstream request, of exactly its configured size, and returns it exactly once on destruction. Successive allocations are placed at the lowest suitably aligned address after the end of the previous successful one, whatever was deallocated in between, and a request fails with std::bad_alloc exactly when it does not fit in what remains, without changing where later requests are placed.",
 ["histories", "inputs", "configurations"],
 "all sizes of the block, all sequences of sizes and alignments including exact fits, all base alignments of the upstream block",
 "Tests use one block size and aligned sizes that never reach the exact end of the block.",
 [S+"memory/details/contiguous_memory_resource_impl.cpp", H+"memory/contiguous_memory_resource.hpp"],
 [("std::align bump pointer", "contiguous_memory_resource_impl::allocate")], [("next", "next free byte", "m_next")], ["returned addresses"])
prop("C09", "Routing resources pick the right upstream and always return to it",
 "The choice resource serves each request from exactly the upstream that its decision function names for that size and alignment; the conditional resource forwards exactly the requests its predicate accepts and rejects the others with std::bad_alloc; the coalescing resource tries its upstreams in their given order and uses the first that succeeds, throwing std::bad_alloc only if all fail. Each block is later returned to the very upstream that provided it, with unchanged size and alignment, whatever the decision function or the upstreams would say by then.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "any number of upstreams, any (also stateful) decision function, any failure pattern of the upstreams, any order of deallocations, address reuse between upstreams",
 "The tests cover one or two hard-wired decisions with upstreams that never fail after having succeeded.",
 [S+"memory/details/choice_memory_resource_impl.cpp", S+"memory/details/conditional_memory_resource_impl.cpp", S+"memory/details/coalescing_memory_resource_impl.cpp"],
 [("map from block to upstream", S+"memory/details")], [("owner", "which upstream provided a live block", "m_allocations")], ["calls seen by each upstream"])
prop("C10", "The debug resource flags misuse exactly when it happens",
 "The debug resource throws std::logic_error exactly for a deallocation of something that is not currently allocated through it or that was allocated with another size or alignment, and for an allocation whose range overlaps a live one; in all other cases it is indistinguishable from its upstream resource. A flagged operation neither reaches upstream as a deallocation nor changes the record of what is live.",
 ["histories", "inputs", "fault_sequences"],
 "all histories mixing correct and incorrect calls, and all (correct and faulty) upstream behaviours",
 "The tests have one example for some of the kinds of misuse, always on a fresh resource.",
 [S+"memory/details/debug_memory_resource_impl.cpp"], [("map of live allocations", "debug_memory_resource_impl")], [("live", "record of live allocations", "m_allocations")], ["exceptions and upstream calls"])
prop("C11", "The instrumenting resource reports exactly what happened, in order",
 "The instrumenting resource forwards every call unchanged, and records one event per call, in call order, with the kind, size, alignment, address (null if the upstream failed) of the call, and a duration in nanoseconds that is no less than what the upstream call took and no more than what the whole call took. All hooks registered before a call are invoked exactly once for it, in order of registration, with these values: pre-hooks before the upstream call, post-allocation hooks after it and after the event is recorded, also when the upstream fails, in which case the exception still reaches the caller.",
 ["histories", "fault_sequences"],
 "all histories of allocations, deallocations, hook registrations and upstream failures",
 "Tests register one hook of each type and never let the upstream fail.",
 [S+"memory/details/instrumenting_memory_resource_impl.cpp", H+"memory/instrumenting_memory_resource.hpp"],
 [("event log and hook lists", "instrumenting_memory_resource_impl.cpp")], [("events", "the event log", "m_events")], ["hook invocations, get_events()"])
prop("C12", "The memory monitor's statistics equal the allocation history",
 "At every moment the memory monitor attached to an instrumenting resource reports the number of bytes ever allocated successfully, the bytes currently outstanding, the largest value that the outstanding amount ever had, and the mean size of all successful allocations rounded to the nearest byte (zero if there were none). Failed requests change none of these.",
 ["histories", "fault_sequences"],
 "all histories of allocations and deallocations, including failing ones, and monitors attached half way",
 "The test checks one short sequence.",
 [S+"utils/memory_monitor.cpp", H+"utils/memory_monitor.hpp"], [("post allocation / pre deallocation hooks", "memory_monitor.cpp")], [("totals", "running totals", "m_total_alloc, m_outst_alloc, m_max_alloc")], ["accessors of memory_monitor"])
prop("C13", "The synchronized resource serialises all access to its upstream",
 "Calls made on one synchronized resource from any number of threads reach the upstream resource one at a time, each forwarded exactly once with unchanged arguments and result, also when the upstream throws; a failing call releases the resource for the others. No schedule leads to deadlock or to two threads being inside of the upstream at once.",
 ["schedules", "fault_sequences"],
 "all interleavings of any number of threads making allocations and deallocations, with upstream calls of any duration, some of which throw",
 "The test lets some threads hammer the resource, and cannot tell whether calls actually overlapped.",
 [S+"memory/synchronized_memory_resource.cpp", H+"memory/synchronized_memory_resource.hpp"], [("mutex", "synchronized_memory_resource.cpp")], [("inside", "threads inside of the upstream", "upstream resource")], ["entry and exit of the upstream's functions"])
prop("C14", "Resources compare equal only if they can release each other's memory",
 "Every resource equals itself, and comparing the same pair again, for two resources of the same kind without synchronization beneath them also in the other order, gives the same answer. Two different resource objects are equal only if memory from one may be released through the other: any two host resources, any two terminal resources, two identity resources with equal upstreams, a synchronized resource and whatever its upstream equals, synchronized or not; resources that keep their own records (pool, arena, binary page, contiguous, debug, choice, conditional, coalescing, instrumenting) equal only themselves.",
 ["configurations", "programs"],
 "all pairs of resource objects of all kinds and nesting depths",
 "Tests compare a few pairs of the same type.",
 [S+"memory/details/memory_resource_base.cpp", S+"memory/identity_memory_resource.cpp", S+"memory/synchronized_memory_resource.cpp", S+"memory/host_memory_resource.cpp", S+"memory/terminal_memory_resource.cpp"],
 [("do_is_equal", S+"memory")], [], ["operator==, is_equal"])
prop("C15", "Trivial requests and pass-through resources change nothing",
 "For every memory resource, a request for zero bytes and the deallocation of a null pointer have no effect on it, reach its upstream at most as such, and are never an error except that the terminal resource refuses every request. The identity and synchronized resources forward each call unchanged and exactly once; the terminal resource serves nothing; the host resource's blocks are usable in their full requested size, disjoint, and independent of each other.",
 ["inputs", "histories", "programs"],
 "zero-size and null operations at any point of any history of any stack of resources",
 "Only some resources have a zero-size test, and none checks what reaches upstream.",
 [S+"memory/details/memory_resource_impl.hpp", S+"memory/identity_memory_resource.cpp", S+"memory/terminal_memory_resource.cpp", S+"memory/host_memory_resource.cpp"],
 [("PIMPL wrapper's guards", S+"memory/details/memory_resource_impl.hpp")], [], ["upstream calls"])
prop("C16", "Typed allocators allocate and release the same amount they were asked for",
 "vecmem::allocator's byte, object-array and new/delete functions request from the wrapped resource exactly the size and alignment implied by the type and count, construct an object exactly once from the given arguments, destroy it exactly once before its memory is released, and release with the same size and alignment. If construction throws, the memory is released and the exception propagates; zero counts and null pointers are harmless.",
 ["histories", "inputs", "fault_sequences"],
 "all types (including over-aligned and throwing ones), counts and interleavings",
 "Tests use a few trivial types and do not look at the resource's side.",
 [H+"memory/impl/allocator.ipp", H+"memory/allocator.hpp", S+"memory/allocator.cpp"], [("allocate_object/new_object and counterparts", H+"memory/impl/allocator.ipp")], [], ["upstream calls and constructor/destructor calls"])
prop("C17", "Unique pointers and arrays own their memory and objects exactly once",
 "A unique_obj_ptr, unique_alloc_ptr or vecmem::array obtains from its resource exactly the bytes needed, constructs (where it owns objects) each object once, and on destruction, reset or move assignment destroys each object once and returns the memory once with the same size and alignment; release() and moved-from pointers return nothing. If constructing an object throws, objects already constructed are destroyed and the memory is returned before the exception propagates.",
 ["histories", "inputs", "fault_sequences"],
 "all sequences of make/move/reset/release/swap/destroy over several pointers and resources, all element counts including zero, throwing at any element",
 "Tests create and destroy a few pointers, never with throwing constructors, and rarely look at destruction or at the sizes returned.",
 [H+"memory/unique_ptr.hpp", H+"memory/details/unique_obj_deleter.hpp", H+"memory/details/unique_alloc_deleter.hpp", H+"containers/impl/array.ipp"],
 [("deleters carrying size and count", H+"memory/details")], [("owned", "block and objects owned by each pointer", "deleter state")], ["upstream calls and constructor/destructor calls"])
prop("C18", "A device vector behaves as a sequence of bounded capacity",
 "Operations on a device vector over a view change the underlying memory as the corresponding operations on a sequence: push_back/emplace_back append and return the position, bulk append adds the given number of elements at consecutive positions and returns the first one, pop_back/clear/resize/assign shorten or extend, every removed element being destroyed and every new one constructed exactly once. Size, element access, iterators and the data seen through other vectors over the same view always reflect exactly that sequence, elements that the operation does not concern are untouched, and the capacity never changes.",
 ["histories", "inputs"],
 "all operation sequences within capacity, for fixed and resizable views, trivial and counted element types",
 "Tests go through one short scenario per operation.",
 [H+"containers/device_vector.hpp", H+"containers/impl/device_vector.ipp", H+"containers/impl/vector_view.ipp"],
 [("size variable shared through the view", H+"containers/impl/device_vector.ipp")], [("size", "shared size variable", "m_size"), ("elements", "payload", "m_ptr")], ["contents after each operation, constructor/destructor calls"])
prop("C19", "Concurrent appends to a device vector lose and duplicate nothing",
 "When several threads append to the same resizable device vector concurrently (single elements or in bulk), each append gets its own position(s), disjoint from all others, bulk appends get consecutive ones, and after all of them have finished the size equals the number of elements appended and each element is found at the position that its append returned. This holds for every interleaving of the threads' steps.",
 ["schedules", "histories"],
 "all interleavings of the atomic steps of any number of appending threads",
 "The tests of the core library are single threaded; a real schedule that shows a lost update is rare.",
 [H+"containers/impl/device_vector.ipp", H+"memory/impl/posix_device_atomic_ref.ipp"], [("atomic fetch-and-add on the shared size", "device_vector::add_size / bulk_append")], [("size", "shared size variable", "m_size")], ["returned positions and final contents"])
prop("C20", "Atomic references provide linearizable read-modify-write operations",
 "Operations through any number of device atomic references to the same object (load, store, exchange, compare-exchange, fetch add/sub/and/or/xor) made from any number of threads take effect one at a time in some order consistent with each thread's program order, each returning the value required by that order. A compare-exchange succeeds exactly if the object held the expected value, and otherwise reports the value it held without changing the object; arithmetic wraps around as for the type. Each operation orders memory at least as strongly as the memory order that was asked for.",
 ["schedules", "inputs"],
 "all interleavings, all operand values and widths, all memory orders accepted by the interface",
 "Tests run each operation on a few values, sequentially; atomicity cannot be seen that way.",
 [H+"memory/impl/posix_device_atomic_ref.ipp", H+"memory/details/posix_device_atomic_ref.hpp", H+"memory/impl/atomic.ipp", H+"memory/impl/dummy_device_atomic_ref.ipp", H+"memory/impl/cuda_device_atomic_ref.ipp", H+"memory/impl/sycl_custom_device_atomic_ref.ipp"],
 [("compiler atomics", H+"memory/impl/posix_device_atomic_ref.ipp")], [("value", "referenced object", "m_ptr")], ["returned values"])
prop("C21", "A static vector behaves as std::vector up to its capacity",
 "After any sequence of operations that stays within capacity, a static_vector holds the same elements in the same order as a std::vector put through the same operations, and element access, iteration, insertion/erasure positions and size agree with it. Each element is constructed and destroyed exactly once, no operation touches elements it does not concern, and copies are independent of the original.",
 ["histories", "inputs"],
 "all operation sequences over insert/emplace/erase (single, count, range), push/pop, assign, resize, clear, copy construction and assignment, for trivial and counted element types",
 "Tests cover one scenario per function, at one position each.",
 [H+"containers/static_vector.hpp", H+"containers/impl/static_vector.ipp"], [("element storage and size", H+"containers/static_vector.hpp")], [("elements", "the sequence", "m_elements, m_size")], ["contents after each operation, constructor/destructor calls"])
prop("C22", "Fixed-size arrays and tuples give safe, faithful element access",
 "static_array, device_array and vecmem::array expose exactly N elements in order: indexing, at(), front(), back(), data() and (reverse) iteration reach the same objects, writes through any of them are visible through all others and touch nothing else. Checked access outside of the valid range (at() of static_array and vecmem::array, front() and back() of an empty vecmem::array) throws std::out_of_range. Static arrays compare equal exactly if all of their elements do, fill() sets every element, a vecmem::array's elements live in memory of its resource that is returned with it, and tuples keep each value at its own position through construction, conversion, assignment, element access, make_tuple and tie.",
 ["inputs", "histories"],
 "all sizes including zero, all element positions and values, all operation sequences",
 "Tests use one or two sizes and touch a few positions.",
 [H+"containers/static_array.hpp", H+"containers/impl/static_array.ipp", H+"containers/impl/device_array.ipp", H+"containers/impl/array.ipp", H+"utils/impl/tuple.ipp"],
 [("index arithmetic", H+"containers/impl")], [("elements", "the sequence", "m_array")], ["values read back"])
prop("C23", "Views and iterators address exactly the elements they name",
 "Reverse iterators and jagged-vector iterators obey the random access laws: for any positions, stepping, adding and subtracting distances, comparing for equality, dereferencing and indexing agree with the integer positions they stand for, in both directions and also through conversions to constant ones and to reverse ones and back. Views obtained from host containers, buffers or other views refer to exactly the source's elements and sizes, so that a write through one is seen through all, and views compare equal exactly if they describe the same memory (for jagged views: the same array of rows).",
 ["inputs", "programs"],
 "all iterator positions and offsets, all shapes of jagged vectors including empty inner vectors",
 "Tests iterate forward over one shape.",
 [H+"containers/impl/jagged_device_vector_iterator.ipp", H+"containers/impl/reverse_iterator.ipp", H+"containers/impl/jagged_device_vector.ipp", H+"containers/impl/vector_view.ipp", H+"containers/impl/jagged_vector_view.ipp", H+"containers/impl/jagged_vector_data.ipp"],
 [("iterator arithmetic", H+"containers/impl")], [], ["elements reached"])
prop("C24", "Buffers own correctly laid out storage of the requested shape",
 "A one-dimensional or jagged buffer describes exactly the number and capacities of (inner) vectors that it was asked for; payloads, size variables and descriptors are aligned for their type, pairwise disjoint, and lie inside memory the buffer obtained from its resource(s), all of which is returned when the buffer is destroyed or overwritten. After setup a resizable buffer's sizes are zero, a fixed one's sizes equal its capacities, and the descriptors on the device equal those on the host.",
 ["inputs", "configurations", "histories"],
 "all capacities including zero (alone, leading, trailing, all), all element sizes and alignments, fixed and resizable, with and without separate host memory, moved buffers",
 "Tests use a couple of shapes with host memory throughout.",
 [H+"containers/impl/vector_buffer.ipp", H+"containers/impl/jagged_vector_buffer.ipp", H+"containers/impl/aligned_multiple_placement.ipp", H+"utils/impl/copy.ipp"],
 [("aligned_multiple_placement", H+"containers/impl/aligned_multiple_placement.ipp")], [("layout", "where each part lies in the allocation", "buffer")], ["view accessors, upstream calls"])
prop("C25", "Copying a one-dimensional vector reproduces it exactly",
 "After a copy between any two one-dimensional vectors (host vectors, views, fixed or resizable buffers, in host or device memory) or to a newly made buffer, the target holds exactly the source's elements in order; a resizable target or host vector has exactly the source's size, also when that is zero. The source, elements of a fixed target beyond the source's size, and all other memory are unchanged; memset fills exactly the target's bytes.",
 ["inputs", "programs", "configurations"],
 "all sizes and capacities including zero and exactly full, all kinds of source and target, any previous contents of the target",
 "Tests use a few combinations with one size, targets being freshly made.",
 [H+"utils/impl/copy.ipp", H+"utils/copy.hpp"], [("copy_view_impl (vector)", H+"utils/impl/copy.ipp")], [("contents", "target elements and size", "target memory")], ["contents after the copy"])
prop("C26", "Copying a jagged vector reproduces it exactly",
 "After a copy between any two jagged vectors (host vectors, views, fixed or resizable buffers, in host or device memory) or to a newly made buffer, each inner target vector holds exactly the corresponding source vector's elements, a resizable target or host vector having exactly its size. It does not matter whether source and target memory are contiguous or how their capacities compare; the source, unused capacity of non-contiguous targets and all other memory are unchanged, and memset fills exactly the inner vectors' bytes.",
 ["inputs", "programs", "configurations"],
 "all shapes including empty outer and inner vectors, all kinds of source and target, any previous contents of the target",
 "Tests use one shape.",
 [H+"utils/impl/copy.ipp", H+"containers/impl/jagged_vector_buffer.ipp"], [("copy_view_impl (jagged)", H+"utils/impl/copy.ipp"), ("contiguous fast path", "copy_views_contiguous_impl")], [("contents", "inner vectors of the target", "target memory")], ["contents after the copy"])
prop("C27", "Copies that cannot fit are refused before anything is changed",
 "A copy of a one-dimensional or jagged vector whose source does not fit in the target (too many elements, too many inner vectors, an inner vector larger than its counterpart's capacity, mismatched size lists) throws std::length_error. The target's contents and sizes, and the source, are then exactly as they were before.",
 ["inputs", "programs"],
 "all pairs of shapes that do not fit, with the first misfit at any position",
 "Tests have at most one misfit example, and do not check the target afterwards.",
 [H+"utils/impl/copy.ipp"], [("capacity checks before transfers", H+"utils/impl/copy.ipp")], [], ["exception and contents after it"])
prop("C28", "Device memory is only touched through the copy object",
 "Making, setting up, copying and clearing buffers touches memory obtained from a device-side resource exclusively through the copy object's low-level transfer and fill operations, never by direct access from the host; each transfer stays within the source and target objects and carries a direction hint that agrees with where its two ends live, whenever the caller's hint did (the memory of a buffer with separate descriptors for the host counting as device memory). Host code works on host copies of the descriptors only.",
 ["programs", "inputs", "configurations"],
 "all operations on all kinds of (resizable) one-dimensional, jagged and structured buffers with host-inaccessible memory",
 "The core tests use host memory for everything, where illegal direct access works fine.",
 [H+"utils/impl/copy.ipp", H+"containers/impl/jagged_vector_buffer.ipp", H+"edm/impl/buffer.ipp"], [("do_copy/do_memset", H+"utils/copy.hpp")], [("accessible", "whether device memory may be touched now", "memory protection")], ["faults and the transfer log"])
prop("C29", "Waiting on a copy's event is enough, with deferred transfers as well",
 "With a copy implementation whose transfers happen at any time up to the point where an event made after them is waited on, every operation gives the same final result as with immediate transfers once its returned event has been waited on. Functions that return a value or a filled object instead of an event have completed their transfers on return, and no transfer refers to memory that the library itself has released or changed since.",
 ["schedules", "programs"],
 "all points in time at which deferred transfers may be carried out, for all operations and operand kinds",
 "The core tests use synchronous copies; the asynchronous back ends need accelerators that are not present.",
 [H+"utils/impl/copy.ipp", H+"utils/abstract_event.hpp"], [("create_event()->wait() before locals go out of scope", H+"utils/impl/copy.ipp")], [("pending", "transfers issued but not carried out", "copy implementation")], ["contents after wait"])
prop("C30", "Structured host containers keep all of their variables consistent",
 "All vector variables of a structured host container have the container's size after construction, resize, reserve and element assignment, scalars being single values; an element proxy reads and writes exactly the element's values of each variable. Checked access outside of the size throws, and a container whose variables have been given different sizes reports that as an error instead of a size.",
 ["histories", "inputs", "programs"],
 "all schemas of scalars, vectors and jagged vectors, all operation sequences",
 "Tests use two fixed schemas and one scenario.",
 [H+"edm/impl/host.ipp", H+"edm/impl/proxy.ipp", H+"edm/details/proxy_traits.hpp", H+"edm/details/schema_traits.hpp"], [("fold over variables", H+"edm/impl/host.ipp")], [("variables", "sequence per variable", "m_data")], ["variable accessors"])
prop("C31", "Structured buffers and device containers expose every variable consistently",
 "Each variable of a structured buffer is a correctly aligned region, disjoint from all others, inside the memory obtained from the buffer's resource(s), with the requested capacities, and the memory is returned when the buffer is destroyed. Device containers on top address exactly these regions: element proxies read and write one element of each variable, push_back_default adds one default element to every variable and returns its position, also when several threads do it, and size and capacity agree for all variables.",
 ["inputs", "configurations", "histories", "schedules"],
 "all schemas, capacities (including zero) and inner capacities, fixed and resizable",
 "Tests use one schema and capacity.",
 [H+"edm/impl/buffer.ipp", H+"edm/details/buffer_traits.hpp", H+"edm/impl/view.ipp", H+"edm/impl/device.ipp", H+"edm/details/device_traits.hpp"], [("single allocation with aligned placement", H+"edm/impl/buffer.ipp")], [("layout", "region per variable", "buffer")], ["view accessors, upstream calls"])
prop("C32", "Copying a structured container reproduces all of its variables",
 "After a copy between structured containers (host containers, fixed and resizable buffers, views) all scalars, vectors and jagged vectors of the target equal those of the source, and a resizable target or host container has the source's size(s), whichever combination of layouts is involved. If the source does not fit, std::length_error is thrown.",
 ["inputs", "programs", "configurations"],
 "all schemas, sizes, capacities and inner shapes, all combinations of source and target kinds",
 "Tests use one schema and a few combinations.",
 [H+"utils/impl/copy.ipp", H+"edm/impl/view.ipp", H+"edm/impl/data.ipp"], [("payload fast path and per-variable path", H+"utils/impl/copy.ipp")], [("variables", "value of each variable", "target memory")], ["contents after the copy"])

prop("C33", "Back-end memory resources map requests onto the run-time exactly",
 "Each allocation from a CUDA, HIP or SYCL memory resource obtains exactly one block of exactly the requested size, from the allocation function for the resource's kind of memory (device, managed/shared, page-locked host), on the resource's device (the one current at construction if none was given) or queue, with the requested alignment where the run-time can be asked for it; giving it back releases exactly that block with the function that belongs to it. A request of zero bytes returns null and a null pointer may be given back, neither reaching the run-time. If any call of the run-time fails, the operation throws (std::bad_alloc for SYCL) and leaves nothing behind. The client's current device is afterwards always what it was before, and resources are equal exactly if they are of the same kind and device (CUDA, HIP), or use the same queue (SYCL).",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all histories of constructions, allocations, deallocations and device switches of the client, any number of devices, failures at every call of the run-time",
 "The back ends' tests need accelerators, do not run here, and never fail a call or use a second device.",
 ["cuda/src/memory/device_memory_resource.cpp", "cuda/src/memory/host_memory_resource.cpp", "cuda/src/memory/managed_memory_resource.cpp", "cuda/src/utils/select_device.cpp", "hip/src/memory/device_memory_resource.cpp", "hip/src/memory/host_memory_resource.cpp", "hip/src/memory/managed_memory_resource.cpp", "hip/src/utils/select_device.cpp", "sycl/src/memory/memory_resource_base.sycl", "sycl/src/memory/device_memory_resource.sycl", "sycl/src/memory/host_memory_resource.sycl", "sycl/src/memory/shared_memory_resource.sycl"],
 [("switching devices for the time of a call", "select_device, run_on_device"), ("error codes into exceptions", "cuda_error_handling.cpp, hip_error_handling.cpp")], [("device", "device of the resource", "m_device"), ("queue", "queue of the resource", "m_queue")], ["calls of the run-time, current device, results"])
prop("C34", "Back-end copies transfer exactly what is asked, events cover all of it",
 "A copy or fill through a CUDA, HIP or SYCL copy object results in exactly the transfer that was asked for: addresses, size, value, direction (or one left to the run-time), and for asynchronous copy objects on their own stream or queue; nothing for a size of zero. Synchronous copy objects have completed everything on return. For asynchronous ones, waiting on the returned event, or destroying it without having ignored it, means that everything the operation started has completed; no transfer is left that uses memory of the library which is gone. An event can be waited on again, or after having been ignored, without effect, an error of the run-time is reported as an exception, and no event of the run-time is left over. Whole vectors and jagged vectors copied there and back with only the returned events waited on come out unchanged.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "all points in time at which the run-time may carry out transfers, in order per stream or in any order (SYCL), all operations and waiting patterns, failures at every call of the run-time",
 "The back ends' tests need accelerators and do not run here; on real ones transfers are mostly finished before anybody looks.",
 ["cuda/src/utils/cuda/copy.cpp", "cuda/src/utils/cuda/async_copy.cpp", "hip/src/utils/hip/copy.cpp", "sycl/src/utils/sycl/copy.sycl", "sycl/src/utils/sycl/async_copy.sycl", H+"utils/impl/copy.ipp", H+"utils/abstract_event.hpp"],
 [("event recorded behind the transfers", "cuda/src/utils/cuda/async_copy.cpp"), ("collected events", "sycl/src/utils/sycl/async_copy.sycl")], [("pending", "transfers that the run-time has not carried out", "the run-time"), ("event", "transfers that an event stands for", "cuda_event, sycl_event")], ["calls of the run-time, when transfers are carried out, contents"])
prop("C35", "Stream and queue wrappers share ownership and never outlive or leak it",
 "A CUDA stream or SYCL queue made by a wrapper (on the device that was asked for) or by a resource exists exactly as long as some wrapper, copy object or memory resource refers to it: copies, moves and assignments of wrappers refer to the same stream or queue as their source, and whatever the target referred to before is let go of. A stream or queue that belongs to the client is never destroyed. Every wrapper gives access to the very stream or queue it stands for, synchronizing it waits for all that was put into it, and a stream that cannot be made is reported as an exception with nothing left behind.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of making, copying, moving, assigning (also to itself) and destroying wrappers, copy objects and resources, owning and borrowing ones mixed, in any order of destruction, failures at every call of the run-time",
 "The back ends' tests need accelerators, do not run here, and only make single wrappers that live to the end of the test.",
 ["cuda/src/utils/stream_wrapper.cpp", "cuda/src/utils/opaque_stream.cpp", "sycl/src/utils/sycl/queue_wrapper.sycl", "sycl/src/utils/sycl/opaque_queue.hpp", "sycl/src/utils/sycl/get_queue.sycl"],
 [("shared ownership", "stream_wrapper::m_managedStream"), ("copied handles", "queue_wrapper::m_managedQueue")], [("stream", "stream or queue a wrapper is about", "m_stream, m_queue"), ("ownership", "who keeps it alive", "m_managedStream, m_managedQueue")], ["creation and destruction of streams and queues, stream()/queue()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
