// What the sources of vecmem::cuda need to know of the CUDA runtime. Nothing
// here has a definition: the rules say what these functions do.
#pragma once
#include <cstddef>
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1,
                   cudaErrorMemoryAllocation = 2, cudaErrorNotReady = 600,
                   cudaErrorCudartUnloading = 4 };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1,
                      cudaMemcpyDeviceToHost = 2,
                      cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
typedef struct CUstream_st* cudaStream_t;
typedef struct CUevent_st* cudaEvent_t;
struct cudaDeviceProp { char name[256]; int pciBusID, pciDeviceID,
                        pciDomainID; };
#define cudaHostAllocDefault 0
#define cudaMemAttachGlobal 1
#define cudaEventDefault 0
#define cudaEventDisableTiming 2
#define cudaStreamNonBlocking 1
extern "C" {
cudaError_t cudaMalloc(void**, std::size_t);
cudaError_t cudaMallocHost(void**, std::size_t);
cudaError_t cudaHostAlloc(void**, std::size_t, unsigned);
cudaError_t cudaMallocManaged(void**, std::size_t,
                              unsigned = cudaMemAttachGlobal);
cudaError_t cudaFree(void*);
cudaError_t cudaFreeHost(void*);
cudaError_t cudaMemcpy(void*, const void*, std::size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void*, const void*, std::size_t, cudaMemcpyKind,
                            cudaStream_t = 0);
cudaError_t cudaMemset(void*, int, std::size_t);
cudaError_t cudaMemsetAsync(void*, int, std::size_t, cudaStream_t = 0);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = 0);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaEventDestroy(cudaEvent_t);
const char* cudaGetErrorString(cudaError_t);
const char* cudaGetErrorName(cudaError_t);
}
