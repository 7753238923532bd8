// What the sources of vecmem::hip need to know of the HIP runtime. Nothing
// here has a definition: the rules say what these functions do.
#pragma once
#include <cstddef>
enum hipError_t { hipSuccess = 0, hipErrorInvalidValue = 1,
                   hipErrorMemoryAllocation = 2, hipErrorNotReady = 600,
                   hipErrorCudartUnloading = 4 };
enum hipMemcpyKind { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1,
                      hipMemcpyDeviceToHost = 2,
                      hipMemcpyDeviceToDevice = 3, hipMemcpyDefault = 4 };
typedef struct ihipStream_t* hipStream_t;
typedef struct ihipEvent_t* hipEvent_t;
struct hipDeviceProp { char name[256]; int pciBusID, pciDeviceID,
                        pciDomainID; };
#define hipHostAllocDefault 0
#define hipMemAttachGlobal 1
#define hipEventDefault 0
#define hipEventDisableTiming 2
#define hipStreamNonBlocking 1
extern "C" {
hipError_t hipMalloc(void**, std::size_t);
hipError_t hipMallocHost(void**, std::size_t);
hipError_t hipHostAlloc(void**, std::size_t, unsigned);
hipError_t hipMallocManaged(void**, std::size_t,
                              unsigned = hipMemAttachGlobal);
hipError_t hipFree(void*);
hipError_t hipFreeHost(void*);
hipError_t hipHostFree(void*);
hipError_t hipHostMalloc(void**, std::size_t, unsigned = 0);
hipError_t hipMemcpy(void*, const void*, std::size_t, hipMemcpyKind);
hipError_t hipMemcpyAsync(void*, const void*, std::size_t, hipMemcpyKind,
                            hipStream_t = 0);
hipError_t hipMemset(void*, int, std::size_t);
hipError_t hipMemsetAsync(void*, int, std::size_t, hipStream_t = 0);
hipError_t hipGetDevice(int*);
hipError_t hipSetDevice(int);
hipError_t hipGetDeviceCount(int*);
hipError_t hipGetDeviceProperties(hipDeviceProp*, int);
hipError_t hipDeviceSynchronize();
hipError_t hipGetLastError();
hipError_t hipPeekAtLastError();
hipError_t hipStreamCreate(hipStream_t*);
hipError_t hipStreamCreateWithFlags(hipStream_t*, unsigned);
hipError_t hipStreamDestroy(hipStream_t);
hipError_t hipStreamSynchronize(hipStream_t);
hipError_t hipEventCreate(hipEvent_t*);
hipError_t hipEventCreateWithFlags(hipEvent_t*, unsigned);
hipError_t hipEventRecord(hipEvent_t, hipStream_t = 0);
hipError_t hipEventSynchronize(hipEvent_t);
hipError_t hipEventQuery(hipEvent_t);
hipError_t hipEventDestroy(hipEvent_t);
const char* hipGetErrorString(hipError_t);
const char* hipGetErrorName(hipError_t);
}
