// Runs the library with atomics that call a hook before every access, so that a schedule can be played out step by step.
#pragma once
#include <atomic>
#include <thread>
#include <mutex>
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <functional>
#include <memory>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <deque>
#include <array>
#include <unordered_map>
#include <unordered_set>
#include <condition_variable>
#include <chrono>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
static std::function<void(const void*, char)> hook;   // 'l'oad 's'tore 'c'as
static thread_local bool inhook = false;
static void callhook(const void* p, char k) { if (hook && !inhook) { inhook = true; hook(p, k); inhook = false; } }
namespace std {
struct hk_atomic_int {
    std::atomic<int> v;
    hk_atomic_int() {}
    hk_atomic_int(int x) : v(x) {}
    int load(std::memory_order o = std::memory_order_seq_cst) const { callhook(this, 'l'); return v.load(o); }
    void store(int x, std::memory_order o = std::memory_order_seq_cst) { callhook(this, 's'); v.store(x, o); }
    operator int() const { return load(); }
    int operator=(int x) { store(x); return x; }
    int exchange(int x, std::memory_order o = std::memory_order_seq_cst) { callhook(this, 's'); return v.exchange(x, o); }
    bool compare_exchange_strong(int& e, int d, std::memory_order o = std::memory_order_seq_cst) { callhook(this, 'c'); return v.compare_exchange_strong(e, d, o); }
    bool compare_exchange_weak(int& e, int d, std::memory_order o = std::memory_order_seq_cst) { callhook(this, 'c'); return v.compare_exchange_weak(e, d, o); }
    bool compare_exchange_strong(int& e, int d, std::memory_order a, std::memory_order b) { callhook(this, 'c'); return v.compare_exchange_strong(e, d, a, b); }
    int fetch_add(int x, std::memory_order o = std::memory_order_seq_cst) { callhook(this, 's'); return v.fetch_add(x, o); }
};
}
#define atomic_int hk_atomic_int
#include "fn_log.h"
using namespace FNLog;
