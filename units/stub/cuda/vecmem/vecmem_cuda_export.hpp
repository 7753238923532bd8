#pragma once
#define VECMEM_CUDA_EXPORT
