from .memory import TRUST

I = "core/include/vecmem/memory/impl/"
PROPS = [
dict(
    id="P01", title="Atomic references do what std::atomic_ref does",
    statement=(
        "Every implementation behind vecmem::device_atomic_ref (host: C++20 "
        "and builtin; CUDA; the one for SYCL 1.2.1; the dummy for "
        "single-threaded use) and vecmem::atomic gives, for every operation, "
        "value and operand, the documented result and leaves the documented "
        "value: fetch_* return the old value, compare_exchange_strong "
        "exchanges exactly if the value is the expected one, says so, and "
        "otherwise updates the expected one and never fails spuriously. But "
        "for the dummy (and vecmem::atomic on the host, which documents this), "
        "every operation is one indivisible access. The host implementations "
        "have at least the memory order asked for; the CUDA one surrounds "
        "plain loads and stores with fences."),
    over=["inputs", "schedules"],
    quant="every operation of every implementation, every value, operand and "
          "expected value, every memory order",
    why="Tests run the host implementations from few threads on hardware that "
        "is stronger than what is asked for, so a split access or a weaker "
        "order goes unnoticed; the implementations for devices are not even "
        "compiled.",
    anchors=dict(files=[I + "posix_device_atomic_ref.ipp",
                        I + "cuda_device_atomic_ref.ipp",
                        I + "dummy_device_atomic_ref.ipp",
                        I + "sycl_custom_device_atomic_ref.ipp",
                        I + "atomic.ipp",
                        "core/include/vecmem/memory/device_atomic_ref.hpp"],
                 mechanism=[
        dict(name="order conversion", where=I + "posix_device_atomic_ref.ipp (memorder_to_posix_builtin)")],
        observe_at=["accesses to the referenced object", "results"]),
    fn="atomics.references", min=30,
    technique="static analysis: path enumeration and abstract interpretation "
        "of the compiler IR of every operation of every implementation",
    explanation="Each operation is instantiated for 32 and 64 bit types and "
        "every memory order. The code for devices is compiled for the host "
        "against declarations that state what the device functions "
        "(atomicAdd, ..; sycl::atomic_fetch_add, ..) do. On the IR, the "
        "accesses to the referenced object must be one atomic access of the "
        "kind and order asked for; the effect of the path on (object, result, "
        "expected) is compared with the documented one for edge and seeded "
        "values.",
    note="Trusted: the stated meaning of the device functions, and the "
         "compiler's own atomics. Effects are compared on chosen operands, "
         "not proved for all; retry loops of the dummy are followed for one "
         "round. The newer SYCL implementation only wraps sycl::atomic_ref "
         "and is not covered, nor is the HIP-only copy of the CUDA one."
         + TRUST),
]
