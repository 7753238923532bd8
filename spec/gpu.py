from .memory import TRUST

W = ("For {}: the sources are compiled against declarations of the runtime's "
     "functions, and linked with entry points that exercise them. Every path "
     "of the compiler's IR is enumerated, also with exceptions; with the "
     "documented meaning of the runtime's functions, the calls a path makes "
     "are worked out for chosen arguments, without a failure and with each "
     "call of the runtime failing. {}")
N = ("Trusted: the stated meaning of the runtime's functions. Arguments are "
     "chosen, not all; one call of the runtime fails at a time. Debug "
     "messages are off. " + TRUST)
CU = "cuda/src/"
PROPS = [
dict(
    id="K01", title="CUDA and HIP resources allocate and release on their device",
    statement=(
        "The device, managed and host memory resources of vecmem::cuda and "
        "vecmem::hip serve a request with exactly one block of exactly the "
        "size asked for, of their own kind of memory (none, and a null "
        "pointer, if nothing is asked for), and release every block exactly "
        "once with the function that belongs to its kind; a null pointer is "
        "ignored. A device resource does both on the device it was made for "
        "(the one selected at its construction by default) and leaves the "
        "device selected by the caller as it was, also if the operation "
        "fails. A failing allocation, release or selection of a device is "
        "reported, never turned into a result. Resources are equal exactly "
        "if of the same kind and, for device resources, the same device."),
    over=["inputs", "faults"],
    quant="every resource, device, size, alignment and pointer; every call of "
          "the runtime failing",
    why="There is no GPU where the tests run: this code is not even compiled "
        "by them; and with one device, or no failure, a wrong device or a "
        "device left selected would show nowhere.",
    anchors=dict(files=[CU + "memory/device_memory_resource.cpp",
                        CU + "memory/managed_memory_resource.cpp",
                        CU + "memory/host_memory_resource.cpp",
                        CU + "utils/select_device.cpp",
                        "hip/src/memory/device_memory_resource.cpp",
                        "hip/src/memory/managed_memory_resource.cpp",
                        "hip/src/memory/host_memory_resource.cpp",
                        "hip/src/utils/run_on_device.hpp"],
                 mechanism=[
        dict(name="device selection", where=CU + "utils/select_device.cpp")],
        observe_at=["calls of the CUDA or HIP runtime", "results"]),
    fn="gpu.resources", min=40,
    technique="static analysis: path enumeration over the compiler IR of the "
        "resources, with the runtime's functions as declared effects",
    explanation=W.format("both libraries", "Blocks must be of the right kind, "
        "size and device, released once with the matching function, failures "
        "reported, and the selected device restored."),
    note=N),
dict(
    id="K02", title="CUDA and HIP copies move exactly the bytes asked for",
    statement=(
        "vecmem::cuda::copy, vecmem::cuda::async_copy and vecmem::hip::copy "
        "carry out every copy of n > 0 bytes as exactly one copy of n bytes "
        "from the given source to the given destination in the direction "
        "asked for, and every memset as exactly one of n bytes with the given "
        "value at the given place; nothing happens for n = 0. The "
        "asynchronous ones do so on the stream of the copy object, and on no "
        "other. Failures of the runtime are reported."),
    over=["inputs", "faults"],
    quant="every size, source, destination, value, direction and stream; "
          "every call of the runtime failing",
    why="There is no GPU where the tests run: this code is not even compiled "
        "by them.",
    anchors=dict(files=[CU + "utils/cuda/copy.cpp",
                        CU + "utils/cuda/async_copy.cpp",
                        "hip/src/utils/hip/copy.cpp"],
                 mechanism=[
        dict(name="translation of directions",
             where=CU + "utils/cuda/copy.cpp (copy_type_translator)")],
        observe_at=["calls of the CUDA or HIP runtime"]),
    fn="gpu.copies", min=30,
    technique="static analysis: path enumeration over the compiler IR of the "
        "copies, with the runtime's functions as declared effects",
    explanation=W.format("every direction", "The calls must be exactly the "
        "one asked for (the direction may be left to the runtime), on the "
        "right stream, and a failure must end in an exception."),
    note=N),
dict(
    id="K03", title="CUDA streams and events are made, awaited and destroyed once",
    statement=(
        "The event of an asynchronous CUDA copy is recorded on the stream of "
        "the copy object after it was made; wait() synchronises with it "
        "once, ignore() does not, and an event that is dropped without "
        "either is waited for; in every case it is destroyed exactly once, "
        "also if recording fails. A stream_wrapper without a given stream "
        "makes one on the device asked for, leaves the selected device as it "
        "was, shares the stream with its copies and with copy objects made "
        "from it, and the last one to go destroys it, exactly once; a given "
        "stream is used and never destroyed. synchronize() waits for exactly "
        "that stream. Failures are reported, but for the destruction of a "
        "stream."),
    over=["inputs", "histories", "faults"],
    quant="every history of making, copying, moving, assigning, waiting, "
          "ignoring and dropping covered by the entry points; every device; "
          "every call of the runtime failing",
    why="There is no GPU where the tests run: this code is not even compiled "
        "by them; a leaked or doubly destroyed handle, or an event on the "
        "wrong stream, goes unnoticed in most runs even where there is one.",
    anchors=dict(files=[CU + "utils/cuda/async_copy.cpp",
                        CU + "utils/stream_wrapper.cpp",
                        CU + "utils/opaque_stream.cpp",
                        CU + "utils/cuda_wrappers.cpp"],
                 mechanism=[
        dict(name="event", where=CU + "utils/cuda/async_copy.cpp (cuda_event)"),
        dict(name="stream", where=CU + "utils/opaque_stream.cpp")],
        observe_at=["calls of the CUDA runtime"]),
    fn="gpu.streams", min=20,
    technique="static analysis: path enumeration and typestate of handles over "
        "the compiler IR, with the runtime's functions as declared effects",
    explanation=W.format("events and streams", "The sequence of calls with "
        "each handle must be the stated one on every path, also when "
        "exceptions unwind the stack."),
    note=N + " Reference counts are followed for one thread."),
dict(
    id="K04", title="SYCL wrappers keep their queue; resources and copies use it",
    statement=(
        "A vecmem::sycl::queue_wrapper refers to the queue it was given, "
        "which it never destroys, or to one it made; its copies, and what "
        "is assigned or moved from it, whatever they referred to before, "
        "refer to that same queue for as long as they live, and every queue "
        "made is destroyed exactly once, after its last use. The device, "
        "host and shared memory resources serve every request with exactly "
        "one block of the size, alignment and kind asked for from their "
        "queue (null, and nothing allocated, for none), report a failure as "
        "an exception, release every block once with their queue, and are "
        "equal exactly if their queue is the same. Copies and memsets are "
        "exactly the ones asked for, on the queue of the copy object; "
        "sycl::copy has waited for them when it returns, an event of "
        "sycl::async_copy waits for all operations begun since the event "
        "before it, and for no others, unless it is ignored."),
    over=["inputs", "histories", "faults"],
    quant="every history of making, copying, moving and assigning wrappers "
          "covered by the entry points; every size, alignment, pointer and "
          "value; failing allocations",
    why="There is no SYCL compiler where the tests run: this code is not even "
        "compiled by them; and a wrapper that refers to another queue of the "
        "same device works in most programs.",
    anchors=dict(files=["sycl/src/utils/sycl/queue_wrapper.sycl",
                        "sycl/src/utils/sycl/copy.sycl",
                        "sycl/src/utils/sycl/async_copy.sycl",
                        "sycl/src/memory/memory_resource_base.sycl",
                        "sycl/src/memory/device_memory_resource.sycl",
                        "sycl/src/memory/host_memory_resource.sycl",
                        "sycl/src/memory/shared_memory_resource.sycl"],
                 mechanism=[
        dict(name="queue_wrapper",
             where="sycl/src/utils/sycl/queue_wrapper.sycl")],
        observe_at=["operations on SYCL queues and events", "results"]),
    fn="gpu_sycl.sycl", min=50,
    technique="static analysis: path enumeration and typestate of queues and "
        "events over the compiler IR, with SYCL's functions as declared "
        "effects",
    explanation="The sources are compiled against declarations of SYCL's "
        "classes, and linked with entry points that exercise them. Along "
        "every path of the compiler's IR, queues are followed as handles and "
        "events as sets of operations; each use must be of the right, live "
        "queue, and what the path does must be what was asked for.",
    note="Trusted: the stated meaning of SYCL's classes (copies of a queue "
         "are the same queue). Arguments are chosen, not all; only failing "
         "allocations are followed. The fallback for implementations without "
         "a memset is not covered. Debug messages are off. " + TRUST),
]
