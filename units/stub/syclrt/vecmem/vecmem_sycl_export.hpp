#pragma once
#define VECMEM_SYCL_EXPORT
