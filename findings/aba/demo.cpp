// C03/C04 known finding turn/*: a reservation delayed for one full turn of the ring succeeds on a full queue.
#include "hook.h"
int main(){
  std::string y = R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: empty
)";
  Logger& l = GetDefaultLogger();
  if (ParseAndStartLogger(l, y) != 0) return 5;
  RingBuffer& rb = l.shm_->ring_buffers_[0];
  bool once = false; std::set<int> held;
  hook = [&](const void* p, char k) {
    if (p != &rb.hold_idx_ || k != 'c' || once) return;
    once = true;   // the producer read index 0 and is about to reserve; others log one record and fill the queue: the index is 0 again
    { LogStream s(l, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << 1; }
    for (int i = 0; i < RingBuffer::BUFFER_LEN - 1; i++) held.insert(HoldChannel(l, 0, PRIORITY_INFO, 0, 0));
  };
  int h = HoldChannel(l, 0, PRIORITY_INFO, 0, 0);
  if (h >= 0) { held.insert(h); h = HoldChannel(l, 0, PRIORITY_INFO, 0, 0); }
  printf("held by others %d, got %d\n", (int)held.size(), h);
  return h >= 0 && held.count(h) ? 1 : 0;
}
