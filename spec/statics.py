"""static_vector."""
F = "core/include/vecmem/containers/"
PROPS = [
dict(
    id="X01", title="Static vectors hold, make and destroy exactly their elements",
    statement=(
        "After every operation a static_vector holds the elements that "
        "std::vector would hold after it, in that order, in memory aligned "
        "for them: construction, copying and assignment (also from itself), "
        "assign, insert of one, n or a range, emplace (also of an own "
        "element), push_back, erase, pop_back, clear and resize. Elements are "
        "made and destroyed exactly once, none is lost or used after its "
        "end, sources stay as they are, and the iterators returned refer to "
        "the place std::vector documents. Accessors and iterators refer to "
        "the elements of the vector."),
    over=["inputs", "histories"],
    quant="every size up to the maximum, position, number and value of the "
        "elements",
    why="The tests use element types whose construction and destruction is "
        "invisible and a few positions; lost, doubled or raw elements only "
        "show for types with resources of their own.",
    anchors=dict(files=[F + "static_vector.hpp", F + "impl/static_vector.ipp"],
        mechanism=[dict(name="static_vector::insert",
                        where=F + "impl/static_vector.ipp"),
                   dict(name="static_vector::erase",
                        where=F + "impl/static_vector.ipp"),
                   dict(name="static_vector::assign",
                        where=F + "impl/static_vector.ipp")],
        observe_at=["constructor and destructor calls of the elements, "
                    "moves of their memory"]),
    fn="statics.vector", min=50,
    technique="path-sensitive effect analysis over the compiler IR: the "
        "constructor, destructor and memmove effects of every path, with "
        "loops by their recurrences, are applied to an abstract model of "
        "the element places (typestate per place)",
    explanation="21 operations on a vector of up to 7 opaque elements with "
        "all sizes, positions and counts of a grid (the maximum included); "
        "the accessors are compared with specification functions; the "
        "alignment is a compile-time witness.",
    note="Moving elements bytewise is taken to be allowed, as the class "
        "documents it for its element types; constructors that throw and "
        "emplace() from references to own elements are outside the "
        "statement. Trusts clang 18's lowering and the extractor."),
]
