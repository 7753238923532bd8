CP = "core/include/vecmem/utils/copy.hpp"
CPI = "core/include/vecmem/utils/impl/copy.ipp"
TECH = ("static analysis: path-sensitive term propagation over the "
        "canonicalised compiler IR of the instantiated templates")
TRUST = (" Trusts clang 18's lowering and optimisation passes, the extractor "
         "and the documented behaviour of the C++ standard library; the "
         "templates are analysed for the element types instantiated in "
         "units/copy.cpp.")

PROPS = [
dict(
    id="C01", title="Copying a vector moves exactly its elements",
    statement=(
        "Copying a one-dimensional vector view to another view, to a "
        "std::vector or to a new buffer transfers, exactly once, the elements "
        "the source holds at that moment (what its size variable says if it "
        "is resizable, its capacity otherwise) and nothing else; afterwards a "
        "resizable target says that size, also when it is zero. A target "
        "whose capacity is too small is rejected with an exception before "
        "anything of it is written. Setting up a resizable vector zeroes its "
        "size variable; memset sets every byte of the capacity."),
    over=["inputs", "histories"],
    quant="every source, target, size, capacity and copy direction",
    why="The tests copy a handful of vectors between host buffers; sizes, "
        "empty and full vectors and combinations of resizable and fixed "
        "views are unbounded.",
    anchors=dict(files=[CP, CPI], mechanism=[
        dict(name="do_copy/do_memset requests", where=CPI)],
        observe_at=["do_copy / do_memset calls of the copy object"]),
    fn="copying.vectors", min=20, technique=TECH,
    explanation="All control flow paths of copy::operator() (view and "
        "std::vector targets), to, get_size, setup and memset are enumerated "
        "on the flattened IR; the operands of every do_copy/do_memset "
        "request are terms over the fields of the views, which are compared "
        "with the required ones under the branch outcomes of the path.",
    note="Every path of the instantiated functions is decided; loops do not "
         "occur in them." + TRUST),
dict(
    id="C04", title="Jagged copies move every element to its own place",
    statement=(
        "Copying a jagged vector view to another one transfers, for every "
        "inner vector, exactly the elements it holds to the inner vector of "
        "the same index, whether this is done by one request per inner "
        "vector, by requests for runs of neighbouring inner vectors or by a "
        "single request; afterwards the resizable inner vectors of the "
        "target say the size of the source's. A source with a different "
        "number of inner vectors or with inner vectors that do not fit is "
        "rejected with an exception before anything is written."),
    over=["inputs", "histories"],
    quant="every outer size, every vector of inner sizes and capacities, "
          "every placement of the inner vectors",
    why="The tests use a few shapes whose buffers are laid out by vecmem "
        "itself; the number of shapes, of empty inner vectors and of memory "
        "layouts is unbounded.",
    anchors=dict(files=[CP, CPI], mechanism=[
        dict(name="copy_views_impl / get_sizes / set_sizes", where=CPI)],
        observe_at=["do_copy calls of the copy object"]),
    fn="copying.jagged", min=15, technique=TECH,
    explanation="Every path through the flattened copy of a jagged vector is "
        "enumerated with its loops kept symbolic; the requests of one pass "
        "of each loop are compared with the inner vectors of that index, and "
        "single-request copies are accepted only under conditions which "
        "imply that both memories are contiguous and equally laid out.",
    note="Loops are decided by one symbolic pass and the values they carry."
         + TRUST),
dict(
    id="C02", title="Waiting for the event of a copy waits for all of its work",
    statement=(
        "Every operation of a copy object that returns an event (setup, "
        "memset, copies of vectors, jagged vectors and SoA containers, "
        "set_sizes) returns a valid event which is complete only once all "
        "the work queued by the operation is: the event is created after the "
        "last request, and the dummy event, which is always complete, is "
        "returned only when nothing is pending. Operations that return no "
        "event (to, get_size, get_sizes) return only after waiting for "
        "everything they have queued."),
    over=["schedules", "histories"],
    quant="every asynchronous schedule of the queued requests and every "
          "control flow path of the operations",
    why="The tests run with the synchronous host copy, for which a missing "
        "or misplaced wait changes nothing.",
    anchors=dict(files=[CP, CPI], mechanism=[
        dict(name="create_event / wait", where=CPI)],
        observe_at=["order of do_copy/do_memset and create_event calls"]),
    fn="copying.events", min=20, technique=TECH,
    explanation="On every path of all operations the queued requests are "
        "tracked, together with the events created and waited for "
        "(typestate of the copy object); the event handed out and the "
        "requests pending at return are compared.",
    note="Nested calls of the operations on buffers are taken to fulfil the "
         "same rule, which is checked on them separately." + TRUST),
dict(
    id="C03", title="Local memory outlives the copies that use it",
    statement=(
        "Host memory owned by a copy operation itself (size variables and "
        "vectors of sizes on the stack or heap) is neither released, "
        "overwritten nor left by return or exception while a queued request "
        "may still read or write it, and results fetched into it are used "
        "only after waiting for the request that fetches them."),
    over=["schedules", "histories", "faults"],
    quant="every asynchronous schedule of the queued requests, every path "
          "including those that end in an exception",
    why="The tests run with the synchronous host copy, where requests are "
        "finished when they return.",
    anchors=dict(files=[CP, CPI], mechanism=[
        dict(name="create_event()->wait() after requests on local variables",
             where=CPI)],
        observe_at=["lifetime of local variables against event waits"]),
    fn="copying.temporaries", min=10, technique=TECH,
    explanation="For each path the requests touching stack or local heap "
        "memory are tracked as pending until an event created after them is "
        "waited for; each read, write, release and end of life of that "
        "memory must find no conflicting request pending.",
    note="Exceptions thrown by do_copy/do_memset/wait themselves are not "
         "followed." + TRUST),
dict(
    id="C05", title="The host never touches device memory while copying",
    statement=(
        "A copy operation accesses the memory a view points to (elements, "
        "size variables, device-side arrays of views, device-side layout) "
        "only through do_copy and do_memset; the host code itself reads only "
        "the view objects it is given and the host-side descriptors they "
        "point to. The same holds for memory allocated for a new jagged "
        "buffer in memory that only the device can access."),
    over=["inputs", "configurations"],
    quant="every view in device memory and every control flow path",
    why="In the host-only tests device memory is host memory, so that a "
        "direct access goes unnoticed; it is a crash with real devices.",
    anchors=dict(files=[CP, CPI,
        "core/include/vecmem/containers/impl/jagged_vector_buffer.ipp"],
        mechanism=[dict(name="copy operations", where=CPI)],
        observe_at=["loads and stores of the copy operations"]),
    fn="copying.device", min=15, technique=TECH,
    explanation="The address of every load and store of every path is "
        "expressed over the arguments; addresses based on the element, size "
        "or device-descriptor pointers of a view, or on memory allocated for "
        "the device, are violations.",
    note="An effect analysis over the flattened IR." + TRUST),
dict(
    id="C06", title="Setup, memset, sizes and conversions of jagged vectors",
    statement=(
        "setup of a jagged vector buffer zeroes all of its size variables "
        "and makes the device-side view array equal to the host-side one; "
        "memset sets every byte of the capacity of every inner vector and "
        "nothing else; get_sizes returns for every inner vector what its "
        "size variable says, or its capacity; set_sizes writes exactly the "
        "given sizes and fails if they do not fit; copying to a std::vector "
        "of vectors or to a new buffer gives the target the sizes of the "
        "source before the elements are copied."),
    over=["inputs", "histories"],
    quant="every outer size, all inner sizes and capacities and every "
          "placement of the inner vectors in memory",
    why="The tests use a few shapes of buffers laid out by vecmem itself.",
    anchors=dict(files=[CP, CPI], mechanism=[
        dict(name="setup / memset / get_sizes / set_sizes / to", where=CPI)],
        observe_at=["do_copy / do_memset calls, returned sizes"]),
    fn="copying.jagged_other", min=15, technique=TECH,
    explanation="As for C04: symbolic loop passes, with requests compared to "
        "the descriptors of the inner vector of the same index.",
    note="Loops are decided by one symbolic pass and the values they carry."
         + TRUST),
dict(
    id="C07", title="SoA containers are copied variable by variable, completely",
    statement=(
        "setup of an SoA container zeroes its size variables and fills its "
        "device-side layout; memset sets every byte of every variable; "
        "get_size gives the current size; a copy transfers every variable "
        "(scalars, vectors, jagged vectors) to the same variable of the "
        "target exactly once with the sizes of the source. Copying all "
        "variables in one request happens only if both containers have one "
        "payload of the same size and layout, including the capacities of "
        "all (inner) vectors."),
    over=["inputs", "histories"],
    quant="all capacities, sizes and shapes of the containers",
    why="The tests use one or two containers of equal shape; bytes end up in "
        "the wrong variable only for shapes which differ.",
    anchors=dict(files=[CP, CPI], mechanism=[
        dict(name="copy_payload_impl / copy_sizes_impl / memset_impl",
             where=CPI)],
        observe_at=["do_copy / do_memset calls of the copy object"]),
    fn="copying.containers", min=30, technique=TECH,
    explanation="The container operations of two schemas (scalar + vectors; "
        "vector + jagged vector) are decided path by path over the copies of "
        "the views of their variables; the view copies they call are decided "
        "separately, for each element type used.",
    note="Loops are decided by one symbolic pass and the values they carry."
         + TRUST),
dict(
    id="C08", title="Host copies move and set exactly the requested bytes",
    statement=(
        "The host implementations behind every copy, do_copy and do_memset "
        "of vecmem::copy, copy exactly the requested number of bytes from "
        "the given source to the given target, and set exactly the requested "
        "bytes to the low byte of the given value; the event they create is "
        "never null."),
    over=["inputs"],
    quant="every size, address and value",
    why="The tests copy a few buffers of similar size.",
    anchors=dict(files=["core/src/utils/copy.cpp"], mechanism=[
        dict(name="copy::do_copy, copy::do_memset",
             where="core/src/utils/copy.cpp")],
        observe_at=["memcpy / memset calls"]),
    fn="copying.base", min=3, technique=TECH,
    explanation="All paths of the three functions; operands of the memory "
        "operations compared with the arguments.",
    note="" + TRUST.strip()),
]
