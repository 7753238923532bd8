"""Views, jagged device vectors and arrays."""
INC = "core/include/vecmem/containers/"
EDM = "core/include/vecmem/edm/"
TECH = ("comparison of the interprocedural path summaries of accessors with "
        "those of specification functions: outcomes evaluated over hashed "
        "valuations of everything unknown")
TRUST = (" Trusts clang 18's lowering and optimisation passes, the extractor "
         "and the documented behaviour of the C++ standard library.")
NOTE = ("Equality of the two sides is decided on 40 valuations per entry of "
        "all unknown memory and arguments, not for all values at once; "
        "loops over sizes only known at run time are in terms of their "
        "recurrences.")


def f(*names):
    return [INC + n for n in names]


PROPS = [
dict(
    id="V01", title="Views refer to exactly what they were made from",
    statement=(
        "vector_view and jagged_vector_view hold the capacity, size and "
        "pointers they were made with: size() is the value behind the size "
        "pointer, or the capacity without one; views of T convert to views "
        "of const T of the same memory, copies and assignments refer to the "
        "same; == and != compare capacity, size pointer and pointer "
        "(shallowly). get_data() of vectors, arrays and so on gives a view "
        "of all their elements, in their memory; that of jagged vectors one "
        "such view per inner vector, in memory of the resource given (or "
        "of that of the vector) which is given back once."),
    over=["inputs"],
    quant="every capacity, size and address, with and without size pointer",
    why="A field swapped, dropped or exchanged for a default only shows for "
        "views in which the fields differ.",
    anchors=dict(files=f("data/vector_view.hpp", "impl/vector_view.ipp",
                         "data/jagged_vector_view.hpp",
                         "impl/jagged_vector_view.ipp", "impl/vector.ipp",
                         "impl/array.ipp"), mechanism=[
        dict(name="vector_view", where=INC + "impl/vector_view.ipp"),
        dict(name="jagged_vector_view",
             where=INC + "impl/jagged_vector_view.ipp")],
        observe_at=["accessors of views"]),
    fn="access.views", min=70, technique=TECH,
    explanation="Functions making views in every way provided, of a 12 byte "
        "element type, and looking at all that they hold.",
    note=NOTE + TRUST),
dict(
    id="J01", title="Jagged device vectors give access to their own vectors",
    statement=(
        "at(), [], front(), back(), iterators, constant and reverse "
        "iterators of jagged_device_vector give device vectors over exactly "
        "the view which is at that place of the jagged vector; size(), "
        "empty(), max_size() and capacity() are those of the outer vector. "
        "Iterators move by what they are told to, compare as the places "
        "they refer to, and convert to constant ones; reverse iterators "
        "refer to the element before their base."),
    over=["inputs"],
    quant="every view, index, iterator and offset",
    why="Off-by-one errors and mixed up operators of one of the many "
        "iterator functions are only met by code that uses just that one.",
    anchors=dict(files=f("jagged_device_vector.hpp",
                         "impl/jagged_device_vector.ipp",
                         "details/jagged_device_vector_iterator.hpp",
                         "impl/jagged_device_vector_iterator.ipp",
                         "details/reverse_iterator.hpp",
                         "impl/reverse_iterator.ipp"), mechanism=[
        dict(name="jagged_device_vector",
             where=INC + "impl/jagged_device_vector.ipp"),
        dict(name="jagged_device_vector_iterator",
             where=INC + "impl/jagged_device_vector_iterator.ipp"),
        dict(name="reverse_iterator",
             where=INC + "impl/reverse_iterator.ipp")],
        observe_at=["what the device vectors obtained refer to"]),
    fn="access.jagged", min=30, technique=TECH,
    explanation="One function per operation, for iterators chains of all "
        "the moves; what the vectors obtained refer to is compared with "
        "pointer arithmetic on the array of views.",
    note=NOTE + TRUST),
dict(
    id="A01", title="Arrays access their own elements and check bounds",
    statement=(
        "array, device_array and static_array give access to element i of "
        "their memory with [], at(), front(), back(), data(), get<I>() and "
        "(reverse) iterators; at(), front() and back() of array and at() of "
        "static_array throw when there is no such element, before touching "
        "anything. fill() sets all elements and nothing else, == holds "
        "exactly if all elements are equal, and != if not. A device_array "
        "refers to the memory of the view it was made from, an array to "
        "memory for its elements which it made and destroys."),
    over=["inputs"],
    quant="every index, size, element value",
    why="The tests check a few elements of a few arrays; errors at the ends "
        "or for empty arrays pass them.",
    anchors=dict(files=f("array.hpp", "impl/array.ipp", "device_array.hpp",
                         "impl/device_array.ipp", "static_array.hpp",
                         "impl/static_array.ipp"), mechanism=[
        dict(name="array", where=INC + "impl/array.ipp"),
        dict(name="device_array", where=INC + "impl/device_array.ipp"),
        dict(name="static_array", where=INC + "impl/static_array.ipp")],
        observe_at=["addresses of the elements accessed, exceptions"]),
    fn="access.arrays", min=30, technique=TECH,
    explanation="One function per operation and kind of array (sizes fixed "
        "and at run time), compared with address arithmetic on its memory.",
    note=NOTE + TRUST),
dict(
    id="E02", title="SoA containers give access to exactly their own variables",
    statement=(
        "Views of SoA containers hold the capacity, variables, size, "
        "payload and (host) layout areas they were made with; views to "
        "constant variables refer to the same. get<I>() of views, device "
        "and host containers gives the I-th variable; an element (at(), "
        "[]) consists of the elements of all its vectors at that index and "
        "of its scalars, and at() of host containers throws outside of the "
        "container. size() of device containers is the value of the size "
        "variable, or the capacity without one or with jagged vectors. "
        "push_back_default() takes one index per call and sets up the "
        "elements of all vectors there, nothing else. resize(), reserve() "
        "and size() of host containers act on all their vectors. get_data() "
        "and the edm::data of a host container refer to all of its "
        "variables, where they are, with its size as capacity, and to no "
        "others; get_data() of views, buffers and data refers to the same "
        "variables as they do."),
    over=["inputs", "schedules"],
    quant="every size, index, and content of the containers, for schemas "
        "with vectors, jagged vectors, and scalars only",
    why="Variables of equal type that are mixed up, or one overload of many "
        "that differs, only show in code using just that one with contents "
        "that differ.",
    anchors=dict(files=[EDM + n for n in (
        "impl/view.ipp", "impl/device.ipp", "impl/host.ipp",
        "impl/proxy.ipp", "impl/data.ipp", "details/proxy_traits.hpp",
        "details/device_traits.hpp", "details/host_traits.hpp")],
        mechanism=[
        dict(name="view::view", where=EDM + "impl/view.ipp"),
        dict(name="device::push_back_default", where=EDM + "impl/device.ipp"),
        dict(name="host::get_data", where=EDM + "impl/host.ipp"),
        dict(name="proxy_var_type", where=EDM + "details/proxy_traits.hpp")],
        observe_at=["accessors of containers and their elements"]),
    fn="access.soas", min=85, technique=TECH,
    explanation="Functions making SoA containers of three schemas in every "
        "way provided, and looking at all that they, their elements and "
        "their views hold.",
    note=NOTE + TRUST),
]
