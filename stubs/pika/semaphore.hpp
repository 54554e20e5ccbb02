#pragma once
#include <cstddef>
namespace pika { template <std::ptrdiff_t M = 1> struct counting_semaphore { explicit counting_semaphore(std::ptrdiff_t) {} void acquire() {} void release(std::ptrdiff_t = 1) {} bool try_acquire() { return true; } }; }
