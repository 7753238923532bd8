MR = "core/src/memory/"
DET = MR + "details/"


def impl(*n):
    return [DET + x + "_memory_resource_impl.cpp" for x in n]


IRTECH = ("static analysis: path and value-provenance rules over the "
          "canonicalised compiler IR of /repo")
TRUST = (" Trusts clang 18's lowering and optimisation passes, the extractor, "
         "and the documented behaviour of the C++ standard library.")

PROPS = [
dict(
    id="M01", title="Forwarding resources route every block to and from one place",
    statement=(
        "A memory resource that sits on top of others obtains exactly one "
        "block, with exactly the requested size and alignment, for each "
        "request it accepts, and hands out that very block. When the block is "
        "given back it is released exactly once, with the same pointer, size "
        "and alignment, to the very resource that provided it, and nothing "
        "about it is remembered afterwards."),
    over=["inputs", "histories", "configurations"],
    quant="every size, alignment, pointer and every sequence of allocations "
          "and deallocations, for every wrapper and every composition",
    why="The tests allocate a few blocks through each wrapper; they cannot "
        "cover every history, exceptional path and composition, and a block "
        "released with a changed size, through another upstream resource, or "
        "not at all, is not observable in them.",
    anchors=dict(files=impl("choice", "coalescing", "conditional", "debug",
                            "instrumenting") +
                 [MR + "identity_memory_resource.cpp",
                  MR + "synchronized_memory_resource.cpp",
                  MR + "allocator.cpp"],
                 mechanism=[
        dict(name="record of the serving resource", where=DET + "choice_memory_resource_impl.cpp, " + DET + "coalescing_memory_resource_impl.cpp (m_allocations)"),
        dict(name="forwarding wrappers", where="allocate()/deallocate() of the *_memory_resource_impl classes")],
        observe_at=["calls on the upstream resource"]),
    fn="memory.routing", min=80, technique=IRTECH,
    explanation="For the 7 forwarding resources and the allocator class: every "
        "upstream request and release site is enumerated in the flattened "
        "do_allocate/do_deallocate; arguments, receiver and returned value are "
        "traced to their origins; must-pass and at-most-once path queries are "
        "run on the flow graph including exceptional edges; the record "
        "insert/lookup/erase sites of choice and coalescing are matched by key.",
    note="Decides the property for every input and path of the analysed "
         "functions, per call; histories enter through the record map, whose "
         "std:: semantics are trusted." + TRUST),
dict(
    id="M02", title="Zero-size requests give null; releasing null does nothing",
    statement=(
        "Asking any memory resource for zero bytes returns a null pointer "
        "without taking memory from anywhere and without failing. Giving a "
        "null pointer back is accepted and has no effect at all."),
    over=["inputs", "configurations"],
    quant="every memory resource, every alignment and every state it can be in",
    why="The tests try it on freshly made resources with one alignment; the "
        "property is about every state and every resource.",
    anchors=dict(files=impl("arena", "binary_page", "choice", "coalescing",
                            "conditional", "contiguous", "debug",
                            "instrumenting", "pool") +
                 [MR + "host_memory_resource.cpp",
                  MR + "identity_memory_resource.cpp",
                  DET + "memory_resource_impl.hpp"],
                 mechanism=[dict(name="size == 0 / pointer == null early exits", where="every do_allocate/do_deallocate")],
                 observe_at=["returned pointer", "calls on the upstream resource"]),
    fn="memory.zero_null", min=40, technique=IRTECH,
    explanation="The flow graph of each resource's do_allocate is restricted "
        "to the edges feasible with size = 0 (do_deallocate: pointer = null); "
        "on the restricted graph the returned value must be null and no "
        "upstream request, container update, throw or C library call may be "
        "reachable.",
    note="Complete for the listed resources (all but the terminal and the "
         "purely locking one, which forward or fail)." + TRUST),
dict(
    id="M03", title="Failed requests end in bad_alloc, never in a usable result",
    statement=(
        "A request for a non-zero size either returns a non-null block or "
        "ends in the standard out-of-memory exception: no failure of an "
        "underlying resource is swallowed. Selecting resources obey their "
        "selection exactly: a rejected request always fails without touching "
        "the resource underneath, an accepted one always goes to the chosen "
        "resource, and a list of resources is tried in the given order, each "
        "once, moving on only after an out-of-memory failure."),
    over=["inputs", "fault_sequences", "configurations"],
    quant="every request and every pattern of success and failure of the "
          "underlying resources",
    why="Upstream failure patterns are a fault sequence the tests sample only "
        "with terminal resources at fixed places.",
    anchors=dict(files=impl("arena", "binary_page", "choice", "coalescing",
                            "conditional", "contiguous", "debug",
                            "instrumenting", "pool") +
                 [MR + "host_memory_resource.cpp",
                  MR + "terminal_memory_resource.cpp"],
                 mechanism=[
        dict(name="throw std::bad_alloc", where="allocate() of each resource"),
        dict(name="catch of bad_alloc in the list walk", where=DET + "coalescing_memory_resource_impl.cpp"),
        dict(name="predicate test", where=DET + "conditional_memory_resource_impl.cpp")],
                 observe_at=["returned pointer", "exceptions", "calls on the upstream resource"]),
    fn="memory.failure", min=30, technique=IRTECH,
    explanation="Sources of the returned value under size != 0 (refined by "
        "the guards of every phi edge) must not contain null; every throw "
        "site's type is classified; the predicate/decision calls must "
        "dominate and decide the upstream request; exceptional edges of every "
        "upstream request are followed by caught type; the list walk's "
        "induction variable must start at the first element with step one.",
    note="Complete over the paths of the allocation functions; the pool's "
         "internal free-list blocks are assumed non-null." + TRUST),
dict(
    id="M06", title="The synchronised resource never lets two threads in at once",
    statement=(
        "Whatever the number of threads using it, a synchronised memory "
        "resource lets at most one of them at a time use the resource it "
        "protects, for allocations and deallocations alike. The lock is "
        "given up on every way out, including failures of the protected "
        "resource."),
    over=["schedules", "fault_sequences"],
    quant="every interleaving of any number of threads and every failure of "
          "the protected resource",
    why="A race or a lock left behind shows only in particular "
        "interleavings; the test runs a few threads for a moment.",
    anchors=dict(files=[MR + "synchronized_memory_resource.cpp",
                        "core/include/vecmem/memory/synchronized_memory_resource.hpp"],
                 mechanism=[dict(name="mutex held around the upstream call", where=MR + "synchronized_memory_resource.cpp")],
                 observe_at=["calls on the upstream resource"]),
    fn="memory.synchronised", min=12, technique="static analysis: lock-order/typestate rules on the IR flow graph",
    explanation="Lock, unlock and upstream call sites are enumerated; path "
        "queries over normal and exceptional edges show that each upstream "
        "call is dominated by a lock of the object's own mutex, not preceded "
        "by an unlock, that every exit releases it and that both operations "
        "use the same mutex.",
    note="Sound for all schedules given std::mutex semantics; covers direct "
         "uses made through the resource itself." + TRUST),
dict(
    id="M04", title="Memory-keeping resources return all upstream memory, unchanged",
    statement=(
        "A resource that obtains large pieces of memory from another resource "
        "and hands out parts of them gives every piece back to that resource "
        "exactly once, at the latest when it is destroyed, with the pointer, "
        "size and alignment it was obtained with. Until then no piece is "
        "forgotten or returned while it may still be in use."),
    over=["histories", "configurations"],
    quant="every history of allocations and deallocations after which the "
          "users have returned their blocks, every configuration",
    why="What goes back upstream at destruction, and with which size, is not "
        "observed by the tests beyond a few histories, and depends on the "
        "whole history.",
    anchors=dict(files=impl("arena", "binary_page", "contiguous", "pool"),
                 mechanism=[
        dict(name="lists of chunks / superblocks / superpages", where="m_allocated, m_oversized, m_cached_oversized, superblocks_, m_superpages, m_begin"),
        dict(name="destructors", where="~*_memory_resource_impl()")],
                 observe_at=["calls on the upstream resource"]),
    fn="pools.ledger", min=20, technique=IRTECH,
    explanation="Every upstream request of the pool, arena, contiguous and "
        "binary page resources is matched with a record (container element or "
        "field) and with a release in the destructor: content of the record "
        "at the offsets the destructor reads must be the pointer, size and "
        "alignment obtained; the destructor's walk must start at the first "
        "record, leave only at the end and release on every iteration; no "
        "other operation may remove a record, except the pool's hand-over of "
        "individually obtained blocks, whose path conditions are checked.",
    note="Complete over the paths of these functions; container semantics "
         "and copies made by the standard library are trusted." + TRUST),
dict(
    id="M05", title="Pool blocks are large enough, aligned, disjoint and recycled correctly",
    statement=(
        "Whatever valid options it was made with, a pool memory resource "
        "answers every request with a block that is at least as large as "
        "requested, aligned as requested, and disjoint from every other block "
        "that is in use. A block given back becomes available again only to "
        "requests that it is large enough and sufficiently aligned for. "
        "Requests too big or too strictly aligned for the pools get memory of "
        "their own, of the right size and alignment, new or kept from an "
        "earlier such request."),
    over=["inputs", "histories", "configurations"],
    quant="every valid set of options, every size and alignment, every "
          "sequence of requests and releases",
    why="The tests use the default options and a few sizes; block size "
        "classes, chunk growth and the cache of oversized blocks have many "
        "more states.",
    anchors=dict(files=impl("pool") + [DET + "pool_memory_resource_impl.hpp",
                                       "core/src/utils/integer_math.hpp"],
                 mechanism=[
        dict(name="size classes and free lists", where="pool_memory_resource_impl::allocate/deallocate, m_pools"),
        dict(name="cache of oversized blocks", where="m_oversized, m_cached_oversized")],
        observe_at=["values returned by do_allocate"]),
    fn="blocks.pool", min=10, technique=IRTECH + "; terms compared by random "
        "interpretation",
    explanation="Paths of do_allocate and do_deallocate: the free list used, "
        "as a term over options, size and alignment, is the same when a block "
        "is taken and given back; it is one of those made; the loop that "
        "carves a chunk gives blocks inside the chunk, apart by at least the "
        "largest request of the list and aligned; at least one is carved; a "
        "reused oversized block is big enough and aligned enough by the "
        "order of the list or the branches of the path.",
    note="Arithmetic over options, sizes and alignments is decided by "
        "evaluating the extracted terms under many assignments "
        "(random interpretation), not by proof." + TRUST),
dict(
    id="M13", title="The arena never loses, duplicates or overlaps memory",
    statement=(
        "The blocks an arena memory resource has handed out and the blocks it "
        "keeps free are always disjoint and together make up exactly the "
        "memory it obtained from upstream: splitting and merging blocks loses "
        "no byte and invents none. A block handed out is at least as large as "
        "requested, and a block given back becomes free again as a whole. The "
        "arena never obtains more than its maximum size."),
    over=["inputs", "histories"],
    quant="every sequence of requests and releases, of any sizes",
    why="The tests perform a handful of requests; overlap or loss depends on "
        "the order of releases, on neighbours and on left-over pieces.",
    anchors=dict(files=impl("arena") +
                 [DET + "arena_memory_resource_impl.hpp"],
                 mechanism=[
        dict(name="splitting and coalescing of blocks", where="arena_memory_resource_impl::split, coalesce_block, allocated_blocks_, free_blocks_")],
        observe_at=["the sets of free and allocated blocks"]),
    fn="blocks.arena", min=10, technique=IRTECH,
    explanation="Every path of do_allocate and do_deallocate is enumerated "
        "with the sets of blocks as an abstract type; what is inserted on the "
        "path covers exactly the same addresses as what was erased or "
        "obtained from upstream (equality of formal sums of interval "
        "end points, modulo the equalities the path established); erased "
        "iterators refer to elements; the block returned is recorded and "
        "large enough.",
    note="std::set is trusted; the order of blocks in it is by address."
        + TRUST),
dict(
    id="M15", title="Contiguous blocks are aligned, disjoint and inside the reserved memory",
    statement=(
        "Every block handed out by a contiguous memory resource lies inside "
        "the memory it reserved when it was made, is aligned as requested and "
        "does not overlap any block handed out before. A request is refused, "
        "without side effect, only if it does not fit into what is left. "
        "Giving blocks back changes nothing."),
    over=["inputs", "histories"],
    quant="every sequence of requests, of every size and alignment, including "
          "sizes close to the largest representable one",
    why="The tests allocate a few blocks of convenient sizes; the boundary of "
        "the arena and alignment gaps are reached by few inputs.",
    anchors=dict(files=impl("contiguous"), mechanism=[
        dict(name="bump pointer", where="contiguous_memory_resource_impl::allocate, m_next")],
        observe_at=["values returned by do_allocate"]),
    fn="blocks.contiguous", min=5, technique=IRTECH + "; terms evaluated by "
        "random interpretation",
    explanation="The paths of do_allocate give the returned pointer and the "
        "new free position as terms over the old position, size and "
        "alignment; these are compared with the bounds under assignments "
        "that cover the corners (exact fit, one byte too many, gaps, huge "
        "sizes).",
    note="Arithmetic is decided by evaluating the extracted terms under many "
        "assignments, not by proof." + TRUST),
dict(
    id="M14", title="Binary pages are disjoint, large enough and tracked exactly",
    statement=(
        "binary_page_memory_resource hands out a page only while that page "
        "is vacant, marks it as occupied, and returns the address that "
        "belongs to it. A page is at least as large as the request; splitting "
        "a page makes exactly its two halves vacant; a superpage obtained for "
        "a request can hold it. Giving a block back makes exactly the page it "
        "was served from vacant again, and pages are merged only if "
        "everything below them is vacant; merged halves no longer exist."),
    over=["inputs", "histories"],
    quant="every sequence of requests and releases, of every size, and every "
          "resulting tree of pages",
    why="A wrong page state or address shows up only when certain pages are "
        "split, occupied and merged in a certain order.",
    anchors=dict(files=impl("binary_page"), mechanism=[
        dict(name="page search and split", where="binary_page_memory_resource_impl::allocate, find_free_page"),
        dict(name="page lookup and merge", where="binary_page_memory_resource_impl::deallocate, page_ref::unsplit"),
        dict(name="superpage layout", where="superpage::superpage, page_ref::get_addr")],
        observe_at=["values returned by do_allocate", "page states"]),
    fn="pages.binary_page", min=10, technique=IRTECH + "; loop variables "
        "followed by evaluating the extracted recurrences",
    explanation="Every path of do_allocate and do_deallocate gives the page "
        "states it changes and the address it returns as terms over the "
        "superpage, the request and the variables of its search loops; the "
        "terms are compared with the tree of pages under assignments that "
        "satisfy the decisions of the path (all levels, odd sizes, first and "
        "last pages). The search for pages to merge and the merge itself "
        "are checked per step (induction over the tree).",
    note="Arithmetic is decided by evaluating the extracted terms under many "
        "assignments, not by proof." + TRUST),
]
