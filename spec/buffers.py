VB = "core/include/vecmem/containers/data/vector_buffer.hpp"
VBI = "core/include/vecmem/containers/impl/vector_buffer.ipp"
JB = "core/include/vecmem/containers/data/jagged_vector_buffer.hpp"
JBI = "core/include/vecmem/containers/impl/jagged_vector_buffer.ipp"
AMP = "core/include/vecmem/containers/impl/aligned_multiple_placement.ipp"
EB = "core/include/vecmem/edm/impl/buffer.ipp"
EBT = "core/include/vecmem/edm/details/buffer_traits.hpp"
TECH = ("static analysis: path-sensitive term propagation over the compiler "
        "IR of the instantiated templates; addresses are evaluated over "
        "sampled sizes and block addresses, loops by their recurrences")
TRUST = (" Trusts clang 18's lowering and optimisation passes, the extractor "
         "and the documented behaviour of the C++ standard library.")
NOTE = ("Terms are evaluated for sizes up to 1000 and block addresses that "
        "are as aligned as was asked for and no more; numbers of bytes "
        "beyond 2^64 are not considered.")

PROPS = [
dict(
    id="B01", title="Vector buffers own memory for all of their elements",
    statement=(
        "A vector_buffer of a given capacity holds one block of the given "
        "resource in which all its elements and, if it is resizable, its "
        "size variable have their place: aligned for their types (whatever "
        "alignment the block happens to have), without overlap and inside "
        "the block. A fixed size buffer has no size variable. The block is "
        "given back once, as it was obtained, when the buffer (or the one it "
        "was moved into) goes or is assigned to; a default constructed "
        "buffer holds nothing."),
    over=["inputs", "histories"],
    quant="every capacity, element size and alignment, and address of the "
        "block",
    why="Misplaced parts only meet for particular sizes and block addresses "
        "and usually corrupt memory silently.",
    anchors=dict(files=[VB, VBI, AMP], mechanism=[
        dict(name="vector_buffer::vector_buffer", where=VBI),
        dict(name="aligned_multiple_placement", where=AMP)],
        observe_at=["addresses handed to the view, calls of the resource"]),
    fn="buffers.vectors", min=40, technique=TECH,
    explanation="Functions making, moving, assigning and dropping vector "
        "buffers of three element layouts (1, 12 and 128 bytes, alignment "
        "1, 4 and 128); the addresses of the parts are compared with the "
        "blocks obtained on every path.",
    note=NOTE + TRUST),
dict(
    id="B02", title="Jagged buffers give every inner vector its own memory",
    statement=(
        "A jagged_vector_buffer sets up, in host accessible memory, one view "
        "per capacity it was given, each with that capacity, room for as "
        "many elements and, in resizable buffers only, a size variable of "
        "its own. All of these lie inside blocks of the resource they belong "
        "to, aligned and without overlap; with a separate host resource "
        "there is an array of views in either memory. Every block is given "
        "back once, as it was obtained."),
    over=["inputs", "histories"],
    quant="every list of capacities (empty ones, zeros and repetitions "
        "included), with and without a host resource",
    why="The tests use a few capacities with elements of fundamental types; "
        "overlaps need particular capacities, alignments and addresses.",
    anchors=dict(files=[JB, JBI, AMP], mechanism=[
        dict(name="jagged_vector_buffer::jagged_vector_buffer", where=JBI),
        dict(name="aligned_multiple_placement", where=AMP)],
        observe_at=["views stored, calls of the resource"]),
    fn="buffers.jagged", min=30, technique=TECH,
    explanation="As for vector buffers, for plain and over-aligned elements; "
        "the views which the set-up loop stores are determined by evaluating "
        "its recurrences for nine lists of capacities.",
    note=NOTE + TRUST),
dict(
    id="E01", title="SoA buffers own memory for all of their variables",
    statement=(
        "An edm::buffer holds memory of the given resource in which every "
        "scalar, every element of its vectors and of its jagged vectors, "
        "every size variable and every layout view has its place: aligned "
        "for its type, without overlap and inside what was obtained (host "
        "layouts: inside what was obtained from the host resource, if there "
        "is one; otherwise the layouts are shared). Variables have the "
        "capacities asked for; the vectors of a resizable buffer share one "
        "size variable, or, if there are jagged vectors, only each of their "
        "inner vectors has its own one; fixed size buffers have none. The "
        "size, payload and layout areas of the container cover exactly the "
        "parts of their kind. The memory is given back once, as it was "
        "obtained, also after moves."),
    over=["inputs", "histories"],
    quant="every schema, capacity (of every inner vector), kind of buffer "
        "and address of the memory",
    why="A misplaced variable only meets another one for particular sizes "
        "and addresses, and areas that miss a variable only show when the "
        "container is copied as a whole.",
    anchors=dict(files=[EB, EBT, AMP], mechanism=[
        dict(name="buffer::setup_fixed", where=EB),
        dict(name="buffer::setup_resizable", where=EB),
        dict(name="buffer_alloc::make_view", where=EBT),
        dict(name="find_payload_view", where=EBT)],
        observe_at=["addresses in the views, calls of the resources"]),
    fn="buffers.soas", min=80, technique=TECH,
    explanation="Functions making, moving, assigning and dropping SoA "
        "buffers of four schemas (with and without jagged vectors); every "
        "part and area is compared with the blocks obtained on every path "
        "that a sample takes.",
    note=NOTE + TRUST),
]
