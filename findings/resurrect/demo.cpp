// A sync channel's dispatching thread could set the channel back to running after it was stopped:
// the stopped logger then still accepted records. Build: g++ -std=c++11 -O1 -I/repo/src/include demo.cpp -lpthread
#include <atomic>
#include <thread>
#include "fn_log.h"
using namespace FNLog;
int main()
{
    Logger logger;
    const char* cfg = "- channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: \"empty\"\n";
    std::atomic<bool> end(false); std::atomic<int> busy(0); std::atomic<bool> go(false);
    if (ParseAndStartLogger(logger, cfg) != 0) return 2;
    std::thread t[4];
    for (auto& x : t) x = std::thread([&]() {
        while (!end)
        {
            busy++;
            if (go) { int h = HoldChannel(logger, 0, PRIORITY_ALARM, 0, 0); if (h >= 0) { logger.shm_->ring_buffers_[0].buffer_[h].content_len_ = 0; PushChannel(logger, 0, h); } }
            busy--;
            while (!go && !end) std::this_thread::yield();
        }
    });
    int back = 0;
    for (int i = 0; i < 20000 && !back; i++)
    {
        go = true;
        for (volatile int k = 0; k < 20000; k++);
        StopLogger(logger);
        go = false;
        while (busy > 0) { bool all = true; for (int k = 0; k < 1000; k++) if (busy > 0) all = false; if (!all) std::this_thread::yield(); }
        if (logger.shm_->channels_[0].channel_state_ != CHANNEL_STATE_NULL) back++;
        for (auto& r : logger.shm_->ring_buffers_[0].buffer_) r.data_mark_ = 0;
        auto& r = logger.shm_->ring_buffers_[0]; r.read_idx_ = 0; r.proc_idx_ = 0; r.write_idx_ = 0; r.hold_idx_ = 0;
        if (StartLogger(logger) != 0) return 3;
    }
    end = true; go = true;
    for (auto& x : t) x.join();
    StopLogger(logger);
    printf("channel running after stop: %d\n", back);
    return back;
}
