#pragma once
#define VECMEM_HIP_EXPORT
