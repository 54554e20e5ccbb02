#pragma once
#include <cstddef>
#include <string>
namespace pika {
inline bool is_runtime_initialized() { return true; }
inline void suspend() {}
inline void resume() {}
inline void wait() {}
namespace resource {
struct vc_pool { std::size_t get_os_thread_count() const { return 4; } };
inline vc_pool& get_thread_pool(const std::string&) { static vc_pool p; return p; }
inline std::size_t get_num_threads(const std::string&) { return 4; }
}
inline std::size_t get_num_worker_threads() { return 4; }
inline std::size_t get_worker_thread_num() { return 0; }
}
