from .memory import MR, DET, impl, TRUST

TECH = ("static analysis: path enumeration over the canonicalised compiler IR "
        "of /repo, evaluated against every kind of recorded state")
INS = "core/include/vecmem/memory/instrumenting_memory_resource.hpp"

PROPS = [
dict(
    id="M08", title="The debug resource reports exactly the misuses it knows of",
    statement=(
        "The debug memory resource reports, by std::logic_error, a block from "
        "below that overlaps one that is still outstanding, and the release "
        "of a pointer that is not outstanding or with another size or "
        "alignment than it was allocated with; then nothing is released and "
        "its records stay as they were. Everything else is served: the block "
        "is handed out and recorded once with its address, size and "
        "alignment, and a correct release passes it on and forgets it."),
    over=["inputs", "histories"],
    quant="every set of outstanding blocks and every request or release, "
          "however the new block lies relative to them",
    why="The tests try one overlap and a few wrong releases. A check that is "
        "off by one, looks at the wrong member, or stops at the first "
        "recorded block misses overlaps that only some layouts and histories "
        "show.",
    anchors=dict(files=impl("debug"), mechanism=[
        dict(name="record of outstanding blocks", where=DET + "debug_memory_resource_impl.cpp (m_allocations)")],
        observe_at=["calls on the upstream resource", "std::logic_error"]),
    fn="watch.misuse", min=11, technique=TECH,
    explanation="All paths of do_allocate and do_deallocate are enumerated. "
        "What an insertion records is read off the path. Then the conditions "
        "of the paths are evaluated for scenarios: 0 to 4 recorded blocks, "
        "one of them in each of 18 relative positions (touching, nested, "
        "overlapping by one byte, ..) at each place of the iteration; "
        "respectively a record that is right, wrong in size, alignment, both, "
        "or missing. The only paths left must end as the statement says, "
        "with exactly the effects it says.",
    note="The code compares addresses; the relative positions tried represent "
         "every order of the four end points. Iteration over longer records "
         "repeats the same loop body." + TRUST),
dict(
    id="M09", title="The instrumenting resource calls all hooks and logs all events",
    statement=(
        "For every non-empty request, the instrumenting memory resource calls "
        "every hook registered for before it, in order, with the request's "
        "arguments; then makes the request; appends exactly one event with "
        "its kind, size, alignment, resulting pointer and duration to the "
        "list that get_events() shows; and calls every hook registered for "
        "after it with the result, null if it failed. A failed request is "
        "logged in the same way, and then reported by std::bad_alloc."),
    over=["inputs", "histories", "configurations"],
    quant="every number of hooks of every kind, every request, successful or "
          "not",
    why="The tests register one hook of each kind and look at one or two "
        "events; they do not cover several hooks, their order, failing "
        "requests with hooks, or the contents of every event.",
    anchors=dict(files=impl("instrumenting") + [
        MR + "instrumenting_memory_resource.cpp", INS], mechanism=[
        dict(name="hook lists and event log", where=DET + "instrumenting_memory_resource_impl.cpp")],
        observe_at=["hooks", "get_events()"]),
    fn="watch.events", min=25, technique=TECH,
    explanation="The list that each add_*_hook() appends to and the list "
        "get_events() returns are read off the code. All paths of allocate "
        "and deallocate, with and without a failing upstream request, are "
        "enumerated and evaluated for 0 to 3 hooks of each kind and several sizes and alignments; the loops "
        "over the hooks are unrolled by evaluating their recurrences. The "
        "sequence of hook calls (which, arguments, before or after the "
        "upstream request), the appended event field by field, the two clock "
        "readings and the ending must be exactly those of the statement.",
    note="Hooks that throw, or that change the resource they are called by, "
         "are outside." + TRUST),
dict(
    id="M10", title="The memory monitor's figures follow every history",
    statement=(
        "After any history of successful and failed allocations and releases "
        "through the resource it was attached to, the memory monitor's total "
        "is the sum of all successful allocations, outstanding the sum of "
        "those not released, maximal the largest value outstanding ever had, "
        "and average the rounded mean size, zero as long as there was none."),
    over=["inputs", "histories"],
    quant="every history of allocations and releases",
    why="The test follows one history of a few allocations, without failures, "
        "without a peak in the middle, and never asks before the first one.",
    anchors=dict(files=["core/src/utils/memory_monitor.cpp",
                        "core/include/vecmem/utils/memory_monitor.hpp"] +
                 impl("instrumenting"), mechanism=[
        dict(name="hooks of the monitor", where="core/src/utils/memory_monitor.cpp (post_allocate, pre_deallocate)")],
        observe_at=["the four figures"]),
    fn="watch.monitor", min=5, technique=(
        "static analysis: symbolic effects of the registered hooks from the "
        "compiler IR of /repo, composed over histories and evaluated"),
    explanation="The functions the constructor registers, and the hook lists "
        "they go to, are read off the IR. Their effects on the object's "
        "memory are terms over the previous contents; starting from what the "
        "constructor leaves there, the terms are composed along histories of "
        "up to 12 steps (60 in quick, 400 in thorough runs) and evaluated; "
        "the terms of the four getters must give the figures.",
    note="Effects and getters are terms without loops, so that agreement on "
         "histories with mixed sizes, failures and releases settles them; "
         "figures that exceed 2^53 lose precision in the average." + TRUST),
dict(
    id="M11", title="A failed request loses no memory",
    statement=(
        "When a memory resource that sits on top of others cannot serve a "
        "request after it has already obtained memory for it (its own "
        "bookkeeping fails, or a hook throws), the exception reaches the "
        "caller and the memory has been given back, to the resource it came "
        "from, with the same size and alignment."),
    over=["inputs", "faults"],
    quant="every forwarding resource, and every call within a request that "
          "can throw",
    why="No test makes the bookkeeping of a resource fail, and memory that is "
        "lost on such a path is not observable in one that does not count.",
    anchors=dict(files=impl("choice", "coalescing", "conditional", "debug",
                            "instrumenting") +
                 [MR + "identity_memory_resource.cpp",
                  MR + "synchronized_memory_resource.cpp"], mechanism=[
        dict(name="give-back on failure", where="catch blocks of allocate() of the *_memory_resource_impl classes")],
        observe_at=["calls on the upstream resource"]),
    fn="watch.rollback", min=7, technique=TECH,
    explanation="All paths of do_allocate of the seven forwarding resources "
        "are enumerated with every exceptional edge. On each path on which an "
        "upstream request succeeds and that ends in an exception, a release "
        "of that very block with the requested size and alignment must "
        "follow. Exempt is the debug resource's report that a block from "
        "below overlaps another one: that block is not its to release.",
    note="Pool, arena, binary page and contiguous resources keep memory in any "
         "case and are not covered (see the list of what was seen but not "
         "repaired)." + TRUST),
]
