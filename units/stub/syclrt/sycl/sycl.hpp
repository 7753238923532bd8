// What the sources of vecmem::sycl need to know of SYCL. Nothing here has a
// definition: the rules say what these functions do.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#define SYCL_EXTERNAL
namespace sycl {
namespace info { namespace device { struct name {}; } }
namespace usm { enum class alloc { host, device, shared, unknown }; }
struct device {
    template <class T>
    std::string get_info() const;
};
struct event {
    event();
    event(const event&);
    event& operator=(const event&);
    ~event();
    void wait();
    void wait_and_throw();
    static void wait(const std::vector<event>&);
    static void wait_and_throw(const std::vector<event>&);
    void* impl;
};
struct queue {
    queue();
    queue(const queue&);
    queue(queue&&);
    queue& operator=(const queue&);
    queue& operator=(queue&&);
    ~queue();
    device get_device() const;
    event memcpy(void*, const void*, std::size_t);
    event memset(void*, int, std::size_t);
    void wait();
    void wait_and_throw();
    bool operator==(const queue&) const;
    bool operator!=(const queue&) const;
    void* impl;
};
void* malloc_device(std::size_t, const queue&);
void* malloc_host(std::size_t, const queue&);
void* malloc_shared(std::size_t, const queue&);
void* aligned_alloc_device(std::size_t, std::size_t, const queue&);
void* aligned_alloc_host(std::size_t, std::size_t, const queue&);
void* aligned_alloc_shared(std::size_t, std::size_t, const queue&);
void free(void*, const queue&);
}  // namespace sycl
