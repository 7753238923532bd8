UP = "core/include/vecmem/memory/unique_ptr.hpp"
OD = "core/include/vecmem/memory/details/unique_obj_deleter.hpp"
AD = "core/include/vecmem/memory/details/unique_alloc_deleter.hpp"
AH = "core/include/vecmem/memory/allocator.hpp"
AI = "core/include/vecmem/memory/impl/allocator.ipp"
TECH = ("static analysis: ownership tracking over all paths, exceptional "
        "ones included, of the compiler IR of the instantiated templates")
TRUST = (" Trusts clang 18's lowering and optimisation passes, the extractor "
         "and the documented behaviour of the C++ standard library.")

PROPS = [
dict(
    id="S01", title="vecmem's unique pointers own their memory and objects exactly once",
    statement=(
        "make_unique_obj and make_unique_alloc obtain one block from the "
        "given memory resource, at least as large and as aligned as the type "
        "(over-aligned types and arrays included) requires, and give it back "
        "to the same resource exactly once, with the size and alignment it "
        "was obtained with: when the pointer is destroyed, after having been "
        "moved, when another pointer is assigned to it, or when the "
        "construction or copy fails. Objects are constructed once from the "
        "given arguments and destroyed once, before their memory goes; of an "
        "array whose construction fails exactly the elements made before are "
        "destroyed. The copying variants fill the whole block from the "
        "source."),
    over=["inputs", "faults", "histories"],
    quant="every number of elements, every point at which a construction "
        "may fail",
    why="The tests neither use over-aligned types nor constructors which "
        "throw, and host allocation ignores the size and the alignment.",
    anchors=dict(files=[UP, OD, AD], mechanism=[
        dict(name="make_unique_obj / make_unique_alloc", where=UP),
        dict(name="unique_obj_deleter::operator()", where=OD),
        dict(name="unique_alloc_deleter::operator()", where=AD)],
        observe_at=["allocate / deallocate calls of the resource",
                    "constructor and destructor calls"]),
    fn="owners.smart", min=60, technique=TECH,
    explanation="Functions which make, move, assign and drop each kind of "
        "pointer, for plain and over-aligned element types with opaque "
        "special members; on every path, also those on which a construction "
        "or the copy throws, allocations, constructions, destructions and "
        "deallocations are matched.",
    note="Index sequences of loops are evaluated for up to 3 elements. "
         "Numbers of bytes beyond 2^64 are not considered." + TRUST),
dict(
    id="S02", title="The allocator gives back what it obtained, as it obtained it",
    statement=(
        "vecmem::allocator passes sizes and alignments of bytes and objects "
        "to its memory resource such that every object fits, and each "
        "deallocation function gives back a block with the very size and "
        "alignment that the corresponding allocation function used. "
        "new_object constructs exactly one object from its arguments, and "
        "gives the memory back if that fails; delete_object destroys the "
        "object exactly once before its memory is given back."),
    over=["inputs", "faults"],
    quant="every size, alignment and number of objects",
    why="A size or alignment which differs between allocation and "
        "deallocation is ignored by the host resource used in the tests.",
    anchors=dict(files=[AH, AI, "core/src/memory/allocator.cpp"], mechanism=[
        dict(name="allocator's allocation functions", where=AI)],
        observe_at=["allocate / deallocate calls of the resource"]),
    fn="owners.allocator", min=20, technique=TECH,
    explanation="Each pair of allocation and deallocation functions is "
        "analysed together, with its implementation in allocator.cpp linked "
        "in.",
    note="Numbers of bytes beyond 2^64 are not considered." + TRUST),
]
