#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (development tool)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
AR = ["arena/arena.hpp", "arena/arena.cc"]


def prop(id, title, statement, over, text, why, files, mech, level_note, state=(), observe=(), technique="contract-based deductive verification of the compiled code (LLVM IR, Z3/cvc5)", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append(dict(property=id, quick_cmd=f"python3-vt check.py {id} --tier quick", thorough_cmd=f"python3-vt check.py {id} --tier thorough",
                       evidence_file=f"evidence/{id}.json", technique=technique, level="proof", level_note=level_note))


CH = []
AS = "An arena is configured with power-of-two block sizes between 64 bytes and the large block size, an initial size that is a multiple of 8, and callbacks that behave as documented."
LN = ("Every obligation generated from the code compiled from /repo's current tree is discharged for all inputs and all arena states; trusted: the VC generator in vf/, clang -O0 and "
      "the IR normalisation passes, Z3/cvc5, and the environment contracts listed in the evidence. A function outside the verifier's reach is reported as bounded, not proved.")
ST = [("block list", "the arena's blocks, newest first, each with used prefix, free gap and cleanup nodes at its end", "arena/arena.hpp Arena::Block")]

prop("A01", "Arena allocations are in bounds, disjoint, aligned, and survive until reset",
     "Every successful arena allocation (raw, cleanup-registering, object, array or through the memory resource, for alignments up to 32) returns exactly the requested bytes inside one live block of the arena, "
     "at an address with the requested alignment, disjoint from the block's header, from every earlier allocation and from every registered cleanup. "
     "No later operation other than a reset or the destruction changes bytes handed out before, and no request size wraps around to a smaller one.",
     ["inputs", "histories"], "all request sizes and alignments, in all arena states reachable by any sequence of operations, for all block addresses that are multiples of 8, any number of blocks",
     "Tests allocate a few sizes from a malloc whose blocks happen to be 16-byte aligned; padding, exact-fit and wrap-around cases depend on the block address modulo 32, the free gap and sizes near 2^64.",
     AR, [("bump allocation with padding", "arena/arena.hpp Block::alloc, Block::AlignPos, Block::has_enough_space"), ("block creation", "arena/arena.cc Arena::allocateAligned, Arena::newBlock")], LN, ST,
     ["returned pointer", "check()", "SpaceRemains()"])
prop("A02", "Registered cleanups run exactly once, newest first, before their block goes",
     "Every cleanup, destructor or ownership registered with an arena runs exactly once, with the element it was registered for, when the arena is reset or destroyed: newest first, and before the block that holds it is released. "
     "Objects are constructed exactly once, in place; nothing is registered for objects whose destructor may be skipped, and a failed creation leaves no constructed object behind. "
     "The reported number of cleanups is the number registered.",
     ["histories", "fault_sequences"], "all sequences of registrations over any number of blocks, any number of cleanups per block, block allocation failing at any point",
     "Tests register a handful of cleanups in one or two blocks; order and exactly-once across arbitrarily many blocks, and failure between construction and registration, need a loop invariant over all block lists.",
     AR, [("cleanup nodes", "arena/arena.hpp Block::register_cleanup, Block::run_cleanups"), ("release", "arena/arena.hpp Arena::free_all_blocks, Arena::free_blocks_except_head, Arena::Reset, Arena::~Arena"), ("registration", "arena/arena.hpp Arena::addCleanup, Arena::Own, Arena::Create")], LN, ST)
prop("A03", "An arena's blocks and its space accounting agree exactly",
     "The space an arena reports is at all times the sum of the sizes of the blocks it obtained and has not released; every block is released exactly once, by a reset (all but the first) or the destruction. "
     "At most one block is requested per allocation and only when the current block cannot hold it; after a reset the first block is the only one, empty, and the reset reports the space held before. "
     "The reported remaining space is the free gap of the current block.",
     ["histories", "inputs"], "all operation sequences, request sizes and block counts",
     "Tests check totals after a few scripted allocations; leaks, double releases and accounting drift show only for particular block counts and oversize blocks.",
     AR, [("accounting", "arena/arena.cc Arena::newBlock; arena/arena.hpp Arena::Reset, SpaceAllocated, SpaceRemains"), ("release loops", "arena/arena.hpp Arena::free_all_blocks, free_blocks_except_head")], LN, ST)
prop("A04", "Block sizes follow the configured policy exactly",
     "The size requested for a new block is never smaller than the request plus the block header, and is otherwise fixed by the options: the initial size for the first block; afterwards the normal size if the request fits it, "
     "the request rounded up to the normal size while request and header fit a quarter of the large size, the large size up to that size, and exactly request plus header beyond. A new arena uses the options it was given.",
     ["inputs", "configurations"], "all request sizes and all option values within the documented constraints",
     "Tests sample a few sizes per class with one set of options; the class boundaries are exact values that depend on the options.",
     AR, [("size classes", "arena/arena.cc Arena::newBlock"), ("rounding", "align/align.hpp AlignUp, AlignUpTo")], LN, ST)
prop("A05", "Pointer classification is exact",
     "For every address, the arena's classification is exact: outside all blocks, block header, used bytes, unused bytes or cleanup area of the block that contains it. Asking changes nothing.",
     ["inputs", "histories"], "all addresses below 2^47 and all well-formed arenas with any number of disjoint blocks",
     "Tests probe a few addresses in a one- or two-block arena; boundaries and deep block lists need all addresses and a loop invariant.",
     AR, [("list walk", "arena/arena.cc Arena::check")], LN, ST)
prop("A06", "A failed allocation returns null and leaves the arena as it was",
     "An arena operation reports failure only if the block allocator refused or the request is too large to be represented, and in particular every request that the current block can hold succeeds. "
     "After a failure the arena's blocks, accounting, earlier allocations and registered cleanups are unchanged (an object or buffer whose cleanup could not be registered may have used up space), and no allocation hook runs.",
     ["inputs", "fault_sequences"], "all request sizes up to 2^64-1, the block allocator failing at any call, all arena states",
     "Tests never make the block allocator fail at a chosen call in a chosen state, nor use sizes near 2^64.",
     AR, [("null propagation", "arena/arena.cc Arena::allocateAligned, Arena::newBlock; arena/arena.hpp Arena::Create, CreateArray, addCleanup")], LN, ST)
prop("A07", "Arena hooks run exactly once per event with the right values",
     "Each configured hook runs exactly once per event and never otherwise: init on construction (its result is the cookie passed to all others), allocation on each successful allocation with the created type (none for raw memory) and the requested size, "
     "block creation with the number of earlier blocks and the size, reset and destruction with the space held and the total unused space. Hooks that are not set are never called.",
     ["histories", "configurations"], "all subsets of hooks, all operations, any number of blocks",
     "Tests install all hooks and check a few calls; the totals over arbitrarily many blocks and every subset of hooks are not sampled.",
     AR, [("hook calls", "arena/arena.hpp Arena::init, Create, CreateArray, AllocateAligned, AllocateAlignedAndAddCleanup, Reset, ~Arena; arena/arena.cc newBlock")],
     LN + " The destruction hook of a moved-from arena is outside the property.", ST)
prop("A09", "Moving an arena transfers everything and leaves the source empty",
     "Move construction transfers the blocks, the accounting, the cookie, the options and the memory resource, which from then on allocates from the target; no hook runs, nothing is copied, released or cleaned up. The source ends up without blocks, space, cookie and memory resource.",
     ["histories"], "all arena states",
     "Tests move one small arena and never use its memory resource afterwards.",
     AR, [("move constructor", "arena/arena.hpp Arena::Arena(Arena&&)")], LN, ST)

VE = ["container/stdb_vector.hpp"]
VST = [("buffer", "start, finish and end of storage: size() live elements at the front of one heap buffer of capacity() elements, or no buffer", "container/stdb_vector.hpp core::_start, _finish, _edge")]
LV = ("Every obligation generated from the code compiled from /repo's current tree is discharged for all sizes, capacities, positions, counts and element values, for 64-bit and 8-bit elements and opaque element types that are "
      "movable, copy-only or relocatable; restrict-qualified pointers are exploited as the compiler does before verifying. erase(value) and erase_if are covered by a bounded comparison with std::vector only. Trusted: the VC generator in vf/, clang -O0 and the IR "
      "normalisation passes, Z3/cvc5, malloc/free and element special members by contract.")
prop("V01", "A vector behaves as the sequence its operations describe",
     "After every operation (construction, assign, push_back, emplace, insert, erase, resize, pop_back, clear, fill, get_writebuffer, access) a vector holds exactly the sequence the operation describes: "
     "the new elements at their place, all others unchanged and in order, and size, accessors and iterators agree with it. This holds also when the value passed by const reference to push_back, insert, resize or assign is an element of the vector itself. "
     "The position returned by insert, emplace, emplace_back and single-element erase is that of the element in question. An operation throws only if memory is refused or the size is impossible.",
     ["inputs", "histories"], "all sizes, capacities, positions, counts and values (including counts near 2^64), all states including vectors without a buffer",
     "Tests use small vectors of a few types; overlapping moves, reallocation at exactly full capacity, aliasing values and empty vectors without buffer need specific combinations of size, capacity, position and count.",
     VE, [("modifiers", "container/stdb_vector.hpp stdb_vector::insert, emplace, erase, assign, resize, push_back, fill, get_writebuffer"), ("element moves", "container/stdb_vector.hpp move_range_forward, core::move_backward, copy_range, copy_from_iterator")], LV, VST)
prop("V02", "Vector elements are constructed and destroyed exactly once",
     "For element types with their own constructors and destructors, every element of a vector is constructed in raw memory, used only while it is alive and destroyed exactly once: erased, overwritten, moved-from and relocated elements are not leaked, destroyed twice or copied bytewise unless declared relocatable. "
     "Buffers are freed exactly once, with no element alive in them. Destroying a vector destroys its elements and frees its buffer.",
     ["inputs", "histories"], "all sizes, capacities, positions and counts, for movable, copy-only and relocatable element types",
     "Tests count constructions for a few scripted operations; leaks of moved-from elements and double destruction in overlapping shifts depend on size, position and count.",
     VE, [("element moves", "container/stdb_vector.hpp move_range_without_overlap, move_range_forward, core::move_backward"), ("destruction", "container/stdb_vector.hpp destroy_ptr, destroy_range, core::destroy")], LV, VST)
prop("V03", "Vector capacity, growth and reallocation follow the documented rules",
     "size() never exceeds capacity(), and the buffer is an allocation of capacity() elements. Operations that fit the capacity neither reallocate nor move elements before the position of change. "
     "Otherwise push_back, insert, emplace, fill and get_writebuffer grow to the larger of the needed size and the next capacity (64 bytes' worth or one element at first, then half as much again below 128 KiB and twice as much above), resize, reserve and assign to exactly the requested size; shrink_to_fit leaves capacity equal to size.",
     ["inputs", "configurations"], "all sizes, capacities and counts",
     "Tests check a few growth steps of one type; the thresholds depend on the element size and capacities beyond 128 KiB.",
     VE, [("growth", "container/stdb_vector.hpp compute_next_capacity, compute_new_capacity, grown_size"), ("reallocation", "container/stdb_vector.hpp realloc_with_move, core::realloc_with_old_data, realloc_drop_old_data, realloc_and_emplace_back")], LV, VST)
prop("V04", "Copied vectors are independent; moved and swapped ones trade buffers",
     "Copy construction and assignment give equal, independent vectors and leave the source unchanged. Move construction, move assignment and swap hand buffers over without touching any element, and a moved-from vector is empty, without capacity, and usable. Self-assignment changes nothing.",
     ["inputs", "histories"], "all sizes and capacities of both vectors, with and without buffers",
     "Tests copy and move a few small vectors; assignment between all combinations of size, capacity and missing buffers, and self-assignment, are not sampled.",
     VE, [("special members", "container/stdb_vector.hpp core(const core&), core(core&&), operator=, core::swap")], LV, VST)
prop("V05", "Vector comparison is equality and lexicographic order",
     "Two vectors compare equal exactly if they have the same size and equal elements; <=> and the operators derived from it give the lexicographic order, a proper prefix being smaller. Comparing changes nothing.",
     ["inputs"], "all pairs of vectors of any size, any element values, any position of the first difference",
     "Tests compare a few short vectors; the result must be right for every position of the first difference and every prefix relation.",
     VE, [("comparison", "container/stdb_vector.hpp operator==, operator<=>")], LV, VST)
prop("V06", "When memory is refused a vector stays valid and keeps its elements",
     "If an allocation is refused, or the requested size can not exist, the operation reports it as bad_alloc or length_error, nothing is leaked, and the vector is as it was before (assignments may leave it empty). An operation that fits the capacity never fails.",
     ["fault_sequences", "inputs"], "an allocation failing in any operation, in any state, for all sizes and counts up to 2^64-1",
     "Tests never make an allocation fail; requests near the maximum size are not exercised.",
     VE, [("allocation", "container/stdb_vector.hpp alloc_buffer, realloc_with_move, core::allocate, realloc_and_emplace_back"), ("size checks", "container/stdb_vector.hpp grown_size")], LV, VST)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=CH, not_applicable=NA,
             notes="No hooks: /repo's code is compiled to LLVM IR as it is, with driver files of /verif that only instantiate and forward. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
