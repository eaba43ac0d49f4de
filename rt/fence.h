// gcc does not report std::atomic_thread_fence to the instrumentation; this makes it do so (forced include)
#pragma once
#include <atomic>
extern "C" void __tsan_atomic_thread_fence(int);
namespace std { inline void verif_fence(memory_order o) noexcept { atomic_thread_fence(o); __tsan_atomic_thread_fence((int)o); } }
#define atomic_thread_fence verif_fence
