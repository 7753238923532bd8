DVH = "core/include/vecmem/containers/device_vector.hpp"
DVI = "core/include/vecmem/containers/impl/device_vector.ipp"
TECH = ("static analysis: path-sensitive term propagation over the "
        "canonicalised compiler IR of the instantiated templates")
TRUST = (" Trusts clang 18's lowering and optimisation passes, the extractor "
         "and the documented behaviour of the C++ standard library.")

PROPS = [
dict(
    id="D01", title="Concurrent appends to a device vector get distinct slots",
    statement=(
        "Every operation that appends to a resizable device_vector claims "
        "its places with a single atomic addition to the shared size, makes "
        "its elements in exactly the places claimed and nowhere else, and "
        "returns the first of them. Whatever the number of threads and their "
        "interleaving, no element is overwritten, no place is left out and "
        "the size ends up as the sum of all appends. pop_back takes exactly "
        "the last element away with one atomic subtraction."),
    over=["schedules", "inputs"],
    quant="every interleaving of any number of threads, every size",
    why="The host tests append from one thread; a lost update needs a "
        "particular interleaving of device threads.",
    anchors=dict(files=[DVH, DVI,
        "core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp"],
        mechanism=[dict(name="push_back / emplace_back / bulk_append",
                        where=DVI)],
        observe_at=["atomic operations on the size, constructor calls"]),
    fn="devvec.claims", min=20, technique=TECH,
    explanation="All paths of the appending operations of device_vector<E> "
        "(E with opaque constructors); the atomic read-modify-write on the "
        "size word, the addresses of the elements made (loops evaluated over "
        "their index sequence) and the result are compared.",
    note="Index sequences of loops are evaluated for up to 3 elements."
         + TRUST),
dict(
    id="D02", title="Device vectors make and destroy each element exactly once",
    statement=(
        "Resizing, clearing, assigning and appending to a device_vector "
        "makes exactly the elements which become part of the vector, with "
        "the value asked for, destroys exactly those which leave it, and "
        "then sets the size to the number asked for; the implicit variants "
        "touch no element at all. Temporaries are destroyed."),
    over=["inputs", "histories"],
    quant="every old and new size",
    why="The tests use trivial element types, for which a missed or double "
        "construction or destruction has no visible effect.",
    anchors=dict(files=[DVH, DVI], mechanism=[
        dict(name="resize / clear / assign / construct / destruct",
             where=DVI)],
        observe_at=["constructor and destructor calls of the elements"]),
    fn="devvec.lifetime", min=20, technique=TECH,
    explanation="Constructor and destructor calls of an element type with "
        "opaque special members are tracked on every path; the address "
        "sequences of loops are evaluated over old and new sizes.",
    note="Index sequences of loops are evaluated for sizes up to 3." + TRUST),
dict(
    id="D03", title="Device vectors give access to exactly the view's elements",
    statement=(
        "A device_vector refers to the elements, size variable and capacity "
        "of the view it is made from, and so do its copies. Its size is the "
        "size variable's value, or the capacity if there is none; indexed "
        "access, front, back, data, and forward, backward, const and "
        "non-const iterators refer to the elements of that range, in order, "
        "and change nothing."),
    over=["inputs"],
    quant="every size, capacity, index and address",
    why="Tests look at a few elements of a few vectors.",
    anchors=dict(files=[DVH, DVI,
        "core/include/vecmem/containers/impl/reverse_iterator.ipp"],
        mechanism=[dict(name="element access and iterators", where=DVI)],
        observe_at=["returned references and iterators"]),
    fn="devvec.accessors", min=40, technique=TECH,
    explanation="The returned pointer or number of every accessor, as a term "
        "over the fields of the vector, is compared with the required one on "
        "each path.",
    note="" + TRUST.strip()),
dict(
    id="D04", title="The shared size of a device vector is accessed atomically",
    statement=(
        "The size variable of a resizable device_vector, which many threads "
        "use at the same time, is only ever read and written with atomic "
        "operations."),
    over=["schedules"],
    quant="every member function",
    why="A plain access is indistinguishable in single-threaded tests.",
    anchors=dict(files=[DVI,
        "core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp"],
        mechanism=[dict(name="device_atomic_ref<size_type>", where=DVI)],
        observe_at=["loads and stores of the size variable"]),
    fn="devvec.atomic_size", min=8, technique="static analysis: effect "
        "analysis over the canonicalised compiler IR",
    explanation="Every load and store through the size pointer in the "
        "flattened member functions must carry an atomic ordering.",
    note="" + TRUST.strip()),
dict(
    id="D05", title="Debug builds stop out-of-range use of device vectors",
    statement=(
        "With assertions enabled, appending beyond the capacity, setting a "
        "size beyond the capacity, at() with an index that is not below the "
        "size, front and back of an empty vector and changing the size of a "
        "vector that is not resizable are stopped before they take effect."),
    over=["inputs", "configurations"],
    quant="every size, capacity and index",
    why="The tests are built without assertions and never leave the valid "
        "range.",
    anchors=dict(files=[DVI], mechanism=[dict(name="assert()", where=DVI)],
        observe_at=["control flow paths that go on after the assertions"]),
    fn="devvec.debug_checks", min=20, technique=TECH,
    explanation="The unit is compiled with assertions; the branch conditions "
        "of every path that returns must imply the precondition.",
    note="" + TRUST.strip()),
]
