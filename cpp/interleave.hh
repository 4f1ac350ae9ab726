// Runs the items of std::for_each(std::execution::par, ...) as coroutines of one thread, switched at chosen points:
// before and after taking a lock, and in the callbacks of domains. The schedule is a function of a seed.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <boost/container_hash/hash.hpp>
#include <boost/range/irange.hpp>
#include <iostream>
#include <limits>
#include <dlfcn.h>
#include <pthread.h>
#include <ucontext.h>
#include <unistd.h>
#include <execution>

extern "C" void __sanitizer_start_switch_fiber(void**, const void*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);

namespace interleave {

struct Fiber {
    ucontext_t context;
    std::unique_ptr<char[]> stack;
    std::function<void ()> body;
    std::exception_ptr error;
    bool done = false;
    void* fake = nullptr;
};

static const std::size_t STACK = 1 << 17;
static std::vector<Fiber*> fibers;       // of the current parallel section
static Fiber* running = nullptr;
static ucontext_t home;
static void* home_fake = nullptr;
static const void* home_stack = nullptr;
static size_t home_size = 0;
static std::mt19937 chooser;
static unsigned rarity = 2;              // a point is a switch once out of so many
static unsigned long switches = 0;

inline void leave(bool last = false) {   // from a fiber to the scheduler
    Fiber* f = running;
    __sanitizer_start_switch_fiber(last ? nullptr : &f->fake, home_stack, home_size);
    swapcontext(&f->context, &home);
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
}

inline void point() {
    if (running && fibers.size() > 1 && chooser() % rarity == 0) { switches++; leave(); }
}

inline void entry() {
    Fiber* f = running;
    __sanitizer_finish_switch_fiber(f->fake, &home_stack, &home_size);
    try { f->body(); } catch (...) { f->error = std::current_exception(); }
    f->done = true;
    leave(true);
}

inline void run(std::vector<std::function<void ()>>& bodies) {
    std::vector<std::unique_ptr<Fiber>> all;
    for (auto& b : bodies) {
        auto f = std::make_unique<Fiber>();
        f->stack.reset(new char[STACK]);
        f->body = b;
        getcontext(&f->context);
        f->context.uc_stack.ss_sp = f->stack.get();
        f->context.uc_stack.ss_size = STACK;
        f->context.uc_link = nullptr;
        makecontext(&f->context, (void (*)()) entry, 0);
        fibers.push_back(f.get());
        all.push_back(std::move(f));
    }
    while (!fibers.empty()) {
        std::size_t i = chooser() % fibers.size();
        running = fibers[i];
        __sanitizer_start_switch_fiber(&home_fake, running->stack.get(), STACK);
        swapcontext(&home, &running->context);
        __sanitizer_finish_switch_fiber(home_fake, nullptr, nullptr);
        Fiber* f = running;
        running = nullptr;
        if (f->done) fibers.erase(fibers.begin() + i);
    }
    for (auto& f : all) if (f->error) std::rethrow_exception(f->error);
}

}  // namespace interleave

// Locks of the planners: a fiber waiting for one lets the others run.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    interleave::point();
    while (pthread_mutex_trylock(m)) {
        if (!interleave::running || interleave::fibers.size() < 2) {
            static const char text[] = "VP-DEADLOCK a lock is never released\n";
            (void) !write(2, text, sizeof(text) - 1);
            _exit(96);
        }
        interleave::leave();
    }
    return 0;
}

extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!real) real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    interleave::point();
    return r;
}

namespace std {
// The atomic variables of the planners: others may run before each access and after each writing.
template <typename T>
class vp_atomic {
public:
    vp_atomic() : v() {}
    vp_atomic(T x) : v(x) {}
    vp_atomic(const vp_atomic&) = delete;
    vp_atomic& operator=(const vp_atomic&) = delete;
    T load(std::memory_order = std::memory_order_seq_cst) const { interleave::point(); return v; }
    void store(T x, std::memory_order = std::memory_order_seq_cst) { interleave::point(); v = x; interleave::point(); }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) { interleave::point(); T old = v; v = x; return old; }
    bool compare_exchange_strong(T& e, T x) { interleave::point(); if (v == e) { v = x; return true; } e = v; return false; }
    bool compare_exchange_weak(T& e, T x) { return compare_exchange_strong(e, x); }
    T fetch_add(T x, std::memory_order = std::memory_order_seq_cst) { interleave::point(); T old = v; v = v + x; return old; }
    T fetch_sub(T x, std::memory_order = std::memory_order_seq_cst) { interleave::point(); T old = v; v = v - x; return old; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T x) { return fetch_add(x) + x; }
    T operator-=(T x) { return fetch_sub(x) - x; }
private:
    T v;
};
template <typename It, typename F>
void for_each(const std::execution::sequenced_policy&, It first, It last, F f) {
    for (; first != last; ++first) f(*first);
}
template <typename It, typename F>
void for_each(const std::execution::parallel_policy&, It first, It last, F f) {
    std::vector<std::function<void ()>> bodies;
    for (; first != last; ++first) bodies.push_back([first, &f]() { f(*first); });
    interleave::run(bodies);
}
}
#define atomic vp_atomic
