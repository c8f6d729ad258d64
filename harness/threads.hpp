#pragma once
#include <thread>
#include <atomic>
#include <memory>
namespace vf {
// f(0..K-1) in K threads released together
template<class F> void in_threads(size_t K, F f) {
    std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    for (size_t k = 0; k < K; ++k) th.emplace_back([&, k] { ++ready; while (ready.load() < K) std::this_thread::yield(); f(k); });
    for (auto &t : th) t.join();
}
}
