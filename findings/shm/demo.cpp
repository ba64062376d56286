// A queue of a segment left by another run was checked and recovered only if that run's configuration had its channel:
// a logger with more channels used it unchecked. Build: g++ -std=c++11 -O1 -DFN_LOG_MAX_CHANNEL_SIZE=4 -I/repo/src/include demo.cpp -lpthread
#include "fn_log.h"
using namespace FNLog;
int main()
{
    int key = 0x5f0a7711 ^ (int)getpid();
    if (key < 0) key = -key;
    int idx = shmget(key, sizeof(SHMLogger), IPC_CREAT | IPC_EXCL | 0600);
    if (idx < 0) return 2;
    SHMLogger* shm = (SHMLogger*)shmat(idx, nullptr, 0);
    ResetSHMLogger(*shm);
    shm->shm_size_ = sizeof(SHMLogger); shm->shm_id_ = idx; shm->channel_size_ = 1;
    shm->ring_buffers_[1].write_idx_ = 1 << 30;     // not a valid index
    shm->ring_buffers_[1].hold_idx_ = 1 << 30;
    shmdt(shm);
    Logger logger;
    std::string cfg = "- shm_key: " + std::to_string(key) + "\n- channel: 0\n- channel: 1\n";
    int ret = InitFromYMAL(logger, cfg, "");
    int bad = ret == 0 && (logger.shm_->ring_buffers_[1].write_idx_ >= RingBuffer::BUFFER_LEN);
    printf("init %d, used with an invalid index: %d\n", ret, bad);
    shmctl(idx, IPC_RMID, nullptr);
    return bad;
}
