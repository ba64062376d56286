From c036f95bdd0fad581a518b5836149384b2fbe0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 01/42] fix: end the configuration text at its terminator (BOM
 or embedded NUL never finished)

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..934212a 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1411,7 +1411,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = first + strlen(first); //the lexer stops at the first '\0'
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From 534b8e9256c0a4679eda3aa46ff5c72ab6744549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 02/42] fix: replacing a macro by itself or by text containing
 its name never finished

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 934212a..65dcc68 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From 5dbcc6e2f519baf2e91ecd6d225bf3312cb4824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 03/42] fix: skipping blanks before a variable value tested the
 wrong character

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 65dcc68..338612e 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -893,7 +893,7 @@ namespace FNLog
             }
 
             sep++;
-            while (sep < dot &&  IsBlank(line.at(offset)))
+            while (sep < dot &&  IsBlank(line.at(sep)))
             {
                 sep++;
             }
-- 
2.43.0


From e09c23f1fccb3f03cddaacfb6f140af263d44dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 04/42] fix: a configuration without shm_key used an
 uninitialised key

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 338612e..de59e1f 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1415,6 +1415,7 @@ namespace FNLog
         ls.end_ = first + strlen(first); //the lexer stops at the first '\0'
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
+        ls.shm_key_ = 0;
         ls.hot_update_ = false;
         ls.current_ = ls.first_;
         ls.line_no_ = 1; 
-- 
2.43.0


From 704ddf95b89e20386795dc8cd2cfb45a511b8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 05/42] fix: describe the illegal variable value error

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index de59e1f..1983351 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -92,6 +92,7 @@ namespace FNLog
             return "unknown key";
 
         case PEC_ILLEGAL_VAR_NAME:
+        case PEC_ILLEGAL_VAR_VALUE:
             return "name or key invalid";
         case PEC_NOT_CLOSURE:
             return "not closure line ";
-- 
2.43.0


From a6908f0985d33e8e97dc0a871e4c878b2a99edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 06/42] fix: a restart with another shm_key released the old
 storage in the wrong way

---
 src/include/fn_load.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..bc0d043 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -215,9 +215,9 @@ namespace FNLog
         }
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
         if (logger.shm_ == NULL)
         {
+            logger.shm_key_ = ls->shm_key_; //the key of the storage: keep it as long as the storage is in use
             ret = LoadSharedMemory(logger);
             if (ret != 0 || logger.shm_ == NULL)
             {
-- 
2.43.0


From e9b032a3a4f142564b0f0f35b3fe2d4a3477687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 07/42] fix: stopping or querying a logger that was never
 initialised dereferenced NULL

---
 src/include/fn_core.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..e87b3b5 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -169,6 +169,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -263,7 +268,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -277,7 +282,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -291,7 +296,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -309,7 +314,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -327,7 +332,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -345,6 +350,10 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -354,6 +363,10 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From 38ecdce41088f74f8e5884ea7811494d3f664cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 08/42] fix: the batch setters wrote out of bounds for a field
 that does not exist

---
 src/include/fn_core.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index e87b3b5..0a80e98 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -350,7 +350,7 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
-        if (logger.shm_ == NULL)
+        if (logger.shm_ == NULL || cce >= CHANNEL_CFG_MAX_ID)
         {
             return;
         }
@@ -363,7 +363,7 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
-        if (logger.shm_ == NULL)
+        if (logger.shm_ == NULL || dce >= DEVICE_CFG_MAX_ID)
         {
             return;
         }
-- 
2.43.0


From 286ac879018894109e1e131138bdc68f619d96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 09/42] fix: a thread that cannot be created left the logger
 starting forever

---
 src/include/fn_core.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 0a80e98..0836e85 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -41,7 +41,14 @@ namespace FNLog
                 break;
             case CHANNEL_ASYNC:
             {
-                thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                try
+                {
+                    thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                }
+                catch (const std::exception&)
+                {
+                    //checked below
+                }
                 if (!thd.joinable())
                 {
                     printf("StartChannels %s", "start async log thread has error.\n");
-- 
2.43.0


From da5026781d631307f6d86cd0987363d676e3a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 10/42] fix: stopping a channel whose thread was still starting
 waited for it forever

---
 src/include/fn_core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 0836e85..6ec60d5 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -96,7 +96,7 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
-                    if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
+                    if (channel.channel_state_ != CHANNEL_STATE_FINISH)
                     {
                         channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
                     }
-- 
2.43.0


From 1503a049897888141af42d0f28d91fc9f32951b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 11/42] fix: cleaning a stopped queue left ready marks on
 reserved slots

---
 src/include/fn_core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 6ec60d5..6da3041 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -160,7 +160,7 @@ namespace FNLog
         {
             RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
 
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
+            while (ring_buffer.read_idx_ != ring_buffer.hold_idx_)
             {
                 ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
                 ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
-- 
2.43.0


From cac1cea195acd1d177c35f5a4af401cc05b14a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 12/42] fix: a hot update waiting for the state lock blocked
 the stop that joins it

---
 src/include/fn_load.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index bc0d043..1fe9d0a 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -323,8 +323,9 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
-        if (logger.logger_state_ != LOGGER_STATE_RUNNING)
+        //never wait here: StopLogger joins this thread while it has the lock. the next check tries again.
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock() || logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
         }
-- 
2.43.0


From 694f6484975fe1631d24bd8085d69d982bd97d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 13/42] fix: a device added by a hot update was visible before
 it was complete

---
 src/include/fn_load.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 1fe9d0a..30bb292 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -376,8 +376,8 @@ namespace FNLog
             {
                 return E_VERSION_MISMATCH;
             }
-            memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
-            
+            memcpy(&dst_chl.devices_[device_id], &src_dvc, sizeof(src_dvc));
+            dst_chl.device_size_ = device_id + 1;
         }
         AtomicIncChannelLog(dst_chl, CHANNEL_LOG_HOTUPDATE_CHANGE, 1);
         return 0;
-- 
2.43.0


From 39d79e4fe66dd19b103695f5e3578e7bce4dc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 14/42] fix: a shared memory queue with a bad reserve index or
 length was accepted

---
 src/include/fn_load.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 30bb292..070505b 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -98,7 +98,9 @@ namespace FNLog
             }
 
             if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].write_idx_ < 0)
+                || shm->ring_buffers_[i].write_idx_ < 0
+                || shm->ring_buffers_[i].hold_idx_ >= RingBuffer::BUFFER_LEN
+                || shm->ring_buffers_[i].hold_idx_ < 0)
             {
                 return E_SHM_VERSION_WRONG;
             }
@@ -109,7 +111,7 @@ namespace FNLog
                 log.data_mark_ = 2;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
-                log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
+                log.content_len_ = FN_MIN(FN_MAX(log.content_len_, 0), LogData::LOG_SIZE - (int)core_desc.length() - 2);
                 memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
 
                 log.content_len_ += core_desc.length();
-- 
2.43.0


From 20d6a38ba7579b0adc53ae4c991f860802d4b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 15/42] fix: a shared memory queue that is refused stayed
 attached

---
 src/include/fn_load.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 070505b..116308f 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -65,6 +65,7 @@ namespace FNLog
             if (addr == nullptr || addr == (void*)-1)
             {
                 printf("new shm. shmat error. key:<0x%llx>, idx:<%d>, errno:<%d>.\n", logger.shm_key_, idx, errno);
+                shmctl(idx, IPC_RMID, nullptr);
                 return E_SHMAT_ERROR;
             }
             shm = (SHMLogger*)addr;
@@ -88,12 +89,14 @@ namespace FNLog
             printf("shm version error. key:<0x%llx>, old id:<%d>, new id:<%d>, old size:<%d> new size:<%d>. "
                 "can use 'ipcs -m', 'ipcrm -m' to view and clear.\n",
                 logger.shm_key_, shm->shm_id_, idx, shm->shm_size_, (int)sizeof(SHMLogger));
+            shmdt(shm);
             return E_SHM_VERSION_WRONG;
         }
         for (int i = 0; i < shm->channel_size_; i++)
         {
             if (i >= SHMLogger::MAX_CHANNEL_SIZE)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
@@ -102,6 +105,7 @@ namespace FNLog
                 || shm->ring_buffers_[i].hold_idx_ >= RingBuffer::BUFFER_LEN
                 || shm->ring_buffers_[i].hold_idx_ < 0)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
@@ -125,6 +129,7 @@ namespace FNLog
             if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
                 || shm->ring_buffers_[i].read_idx_ < 0)
             {
+                shmdt(shm);
                 return -10;
             }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
-- 
2.43.0


From 64bf53a3d62608016565a76ef182c2eee3a55875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 16/42] fix: a priority outside the known ones indexed past the
 counters and the colours

---
 src/include/fn_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..eccfa21 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -276,7 +276,7 @@ namespace FNLog
         (void)logger;
         (void)prefix;
         log.channel_id_ = channel_id;
-        log.priority_ = priority;
+        log.priority_ = FN_MAX((int)PRIORITY_TRACE, FN_MIN(priority, (int)PRIORITY_FATAL));
         log.category_ = category;
         log.identify_ = identify;
         log.code_line_ = 0;
-- 
2.43.0


From be04ed53405e374b5953e63a433273b680990ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 17/42] fix: a record was read after its slot had been given up

---
 src/include/fn_channel.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index eccfa21..7b3c28a 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -122,9 +122,11 @@ namespace FNLog
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx];
                 DispatchLog(logger, channel, cur_log);
-                cur_log.data_mark_ = 0;
+                int content_len = cur_log.content_len_;
+                long long timestamp = cur_log.timestamp_;
+                cur_log.data_mark_ = 0; //from here on the slot can be held again
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
-                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
+                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, content_len);
                 flush_count ++;
                 empty_tick = false;
                 int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
@@ -143,10 +145,10 @@ namespace FNLog
                     AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE, proc_que_size);
                 }
 
-                if (cur_log.timestamp_ > 0)
+                if (timestamp > 0)
                 {
                     long long now = (long long)time(NULL);
-                    long long diff = now - 1 - cur_log.timestamp_;
+                    long long diff = now - 1 - timestamp;
                     if (diff > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S) )
                     {
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
@@ -496,8 +498,8 @@ namespace FNLog
         log.content_[log.content_len_++] = '\n';
         log.content_[log.content_len_] = '\0';
 
-        log.data_mark_ = 2;
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
+        log.data_mark_ = 2; //from here on the slot is the consumer's
 
         do
         {
-- 
2.43.0


From 5c2dcc00d045b4212484d02decd83a371ab35228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 18/42] fix: flush and udp input of a synchronous channel ran
 outside the lock of its devices

---
 src/include/fn_channel.h | 4 ++++
 src/include/fn_data.h    | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 7b3c28a..20376c9 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -175,6 +175,7 @@ namespace FNLog
                 {
                     //break;
                     flush_count = 0;
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                     for (int i = 0; i < channel.device_size_; i++)
                     {
                         if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
@@ -193,6 +194,7 @@ namespace FNLog
 
             if (flush_count != 0)
             {
+                Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                 for (int i = 0; i < channel.device_size_; i++)
                 {
                     if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
@@ -210,6 +212,8 @@ namespace FNLog
                     continue;
                 }
 
+                //the socket and the input buffer are shared by all threads of a sync channel.
+                Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                 UDPHandler& udp = logger.udp_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i];
                 if (!device.config_fields_[DEVICE_CFG_ABLE])
                 {
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..d1a3093 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -393,8 +393,8 @@ namespace FNLog
         static const int HOTUPDATE_INTERVEL = FN_LOG_HOTUPDATE_INTERVEL;
         static const int MAX_LOGGER_DESC_LEN = 50;
         static const int MAX_LOGGER_NAME_LEN = 250;
-        using ReadLocks = std::array<std::mutex, MAX_CHANNEL_SIZE>;
-        using ReadGuard = AutoGuard<std::mutex>;
+        using ReadLocks = std::array<std::recursive_mutex, MAX_CHANNEL_SIZE>;
+        using ReadGuard = AutoGuard<std::recursive_mutex>;
 
         using AsyncThreads = std::array<std::thread, MAX_CHANNEL_SIZE>;
         using FileHandles = std::array<FileHandler, MAX_CHANNEL_SIZE* Channel::MAX_DEVICE_SIZE>;
-- 
2.43.0


From ccc5c6aace72a3e83ba1613de3acae0d3989d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 19/42] fix: a udp datagram was shown together with the rest of
 an earlier one

---
 src/include/fn_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 20376c9..8123269 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -245,12 +245,12 @@ namespace FNLog
                 for (int i = 0; i < 1000; i++)
                 {
                     InitLogData(logger, ring_buffer.udp_buffer_, channel.channel_id_, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL);
-                    ring_buffer.udp_buffer_.content_len_ = udp.read(ring_buffer.udp_buffer_.content_, LogData::LOG_SIZE);
-                    if (ring_buffer.udp_buffer_.content_len_ == LogData::LOG_SIZE)
+                    ring_buffer.udp_buffer_.content_len_ = udp.read(ring_buffer.udp_buffer_.content_, LogData::LOG_SIZE - 1);
+                    if (ring_buffer.udp_buffer_.content_len_ == LogData::LOG_SIZE - 1)
                     {
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\n';
                     }
+                    ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
                         break;
-- 
2.43.0


From ee384eb2709894e6cb9d18d6fbe92f61339e8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 20/42] fix: a record that no file could be opened for was not
 counted as lost

---
 src/include/fn_out_file_device.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..c242f68 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -324,11 +324,13 @@ namespace FNLog
 
         if (!writer.is_open() && AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP) + 5 > log.timestamp_)
         {
+            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
             return;
         }
         OpenFileDevice(logger, channel, device, writer, log);
         if (!writer.is_open())
         {
+            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
             return;
         }
         writer.write(log.content_, log.content_len_);
-- 
2.43.0


From 6cfc84afc2ba7a7d78e2fac67ebf81233a1d6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 21/42] fix: expanding a process name that contains a variable
 never finished

---
 src/include/fn_out_file_device.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index c242f68..84298f9 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -88,7 +88,9 @@ namespace FNLog
             case 'P':
                 if (name.substr(pos + 2, 4) == "NAME")
                 {
-                    name.replace(pos, 6, FileHandler::process_name());
+                    std::string pname = FileHandler::process_name();
+                    name.replace(pos, 6, pname);
+                    pos += pname.length();
                     break;
                 }
                 if (name.substr(pos + 2, 2) == "ID")
-- 
2.43.0


From b90968e1f47f432992ddda43d44149697b08955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 22/42] fix: writing zero as hex or binary counted the leading
 zeros of zero

---
 src/include/fn_fmt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..d71bd1f 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -160,7 +160,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1);
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -225,7 +225,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1);
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
-- 
2.43.0


From bdce65159a582837bccf92fa1dd0a129ca4da037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 23/42] fix: a timestamp the calendar cannot represent was
 written longer than its room

---
 src/include/fn_fmt.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index d71bd1f..2e34bb4 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -331,6 +331,10 @@ namespace FNLog
             daytm.tm_sec = 0;
             cache_timestamp = mktime(&daytm);
             day_second = timestamp - cache_timestamp;
+            if (day_second < 0 || day_second > 24*60*60)
+            {
+                return 0;
+            }
         }
         int write_bytes = 0;
 
-- 
2.43.0


From a7aafc78e4ac3c3d201c3a896bb696660c6ef6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 24/42] fix: long file and function names in the prefix ran
 over the record

---
 src/include/fn_stream.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index d361d99..82b78c1 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -146,30 +146,30 @@ namespace FNLog
                 if (file_name && file_name_len > 0)
                 {
                     int jump_bytes = short_path(file_name, file_name_len);
-                    write_buffer_unsafe(file_name + jump_bytes, file_name_len - jump_bytes);
+                    write_buffer(file_name + jump_bytes, file_name_len - jump_bytes);
                 }
                 else
                 {
-                    write_buffer_unsafe("nofile", 6);
+                    write_buffer("nofile", 6);
                 }
-                write_char_unsafe(':');
+                write_buffer(":", 1);
                 *this << (unsigned long long)line;
-                write_char_unsafe(']');
+                write_buffer("]", 1);
             }
             if (prefix & LOG_PREFIX_FUNCTION)
             {
-                write_char_unsafe('(');
+                write_buffer("(", 1);
                 if (func_name && func_name_len > 0)
                 {
-                    write_buffer_unsafe(func_name, func_name_len);
+                    write_buffer(func_name, func_name_len);
                 }
                 else
                 {
-                    write_buffer_unsafe("null", 4);
+                    write_buffer("null", 4);
                 }
-                write_char_unsafe(')');
+                write_buffer(")", 1);
             }
-            write_char_unsafe(' ');
+            write_buffer(" ", 1);
             log_data_->prefix_len_ = log_data_->content_len_;
         }
         
-- 
2.43.0


From a73145efe91fb7dfa6397173b3691883aa5558f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 25/42] fix: a channel without a virtual device called the hook
 for its first device

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 1983351..c3a77c7 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1496,6 +1496,7 @@ namespace FNLog
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
                     channel.channel_id_ = channel_id;
+                    channel.virtual_device_id_ = -1;
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From 2f04e25a9edb114636865dd79aff8d3950346783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 26/42] fix: a disabled virtual device still received records

---
 src/include/fn_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index 82b78c1..c7d621b 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -183,7 +183,7 @@ namespace FNLog
                     if (channel.virtual_device_id_ >= 0)
                     {
                         Device& device = channel.devices_[channel.virtual_device_id_];
-                        if (log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
+                        if (device.config_fields_[DEVICE_CFG_ABLE] && log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
                         {
                             //more block check in the proc 
                             EnterProcOutVirtualDevice(*logger_, log_data_->channel_id_, channel.virtual_device_id_, *log_data_);
-- 
2.43.0


From 43368771f3fa841cd755d0611b3600f44cf18d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 27/42] fix: a list of bits with a huge range never finished

---
 src/include/fn_parse.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index c3a77c7..143fd37 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -725,7 +725,10 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                if (bit_offset_first < 64)
+                {
+                    bitmap |= (1ULL << bit_offset_first);
+                }
                 continue;
             }
 
@@ -736,12 +739,15 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                if (bit_offset_first < 64)
+                {
+                    bitmap |= (1ULL << bit_offset_first);
+                }
                 continue;
             }
 
             int bit_offset_last = atoi(offset);
-            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
+            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last) && i < 64; i++)
             {
                 bitmap |= (1ULL << i);
             }
-- 
2.43.0


From e57c8b2e08052ef1ba1ee5c4db543907ba500950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 28/42] fix: a socket that could not be made non-blocking was
 used all the same

---
 src/include/fn_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..9a0db24 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -478,6 +478,7 @@ public:
         int ret = fcntl(handler_, F_SETFL, newf);
         if (ret == -1)
         {
+            close();
             return -2;
         }
 #endif
-- 
2.43.0


From d432cf40263baf31acb1ed3304a9f891f0b11712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 29/42] fix: a hot update by an empty or shortened
 configuration reset the channel

---
 src/include/fn_load.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 116308f..e4571e8 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -328,7 +328,10 @@ namespace FNLog
         {
             return ret;
         }
-
+        if (channel_id >= ls->channel_size_)
+        {
+            return E_VERSION_MISMATCH;
+        }
 
         //never wait here: StopLogger joins this thread while it has the lock. the next check tries again.
         std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
-- 
2.43.0


From c42471d8a8385fd1fc2137feea2e62553e2e9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 30/42] fix: two threads marking neighbouring slots could both
 miss the other's mark

The re-check after a mark needs the single total order: with an acquire load
the mark store and the re-read may be reordered (RCpc acquire, e.g. ldapr), so
that both threads leave and their records stay unpublished. The loads of the
re-check are sequentially consistent now (no cost on x86).
---
 src/include/fn_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 8123269..773aa77 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -157,13 +157,13 @@ namespace FNLog
                 do
                 {
                     //set read index to proc index  
-                    old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
+                    old_idx = ring_buffer.read_idx_.load(std::memory_order_seq_cst);
                     next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
                     if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
                     {
                         break;
                     }
-                    if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
+                    if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_seq_cst) != MARK_INVALID)
                     {
                         break;
                     }
@@ -507,13 +507,13 @@ namespace FNLog
 
         do
         {
-            int old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
+            int old_idx = ring_buffer.write_idx_.load(std::memory_order_seq_cst);
             int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
             if (old_idx == ring_buffer.hold_idx_.load(std::memory_order_acquire))
             {
                 break;
             }
-            if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != 2)
+            if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_seq_cst) != 2)
             {
                 break;
             }
-- 
2.43.0


From b372d43685670e6e61daa9a4082e0102c799b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:04 +0000
Subject: [PATCH 31/42] fix: close device handles under the channel's lock when
 stopping

---
 src/include/fn_core.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 6da3041..c8068b9 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -202,18 +202,22 @@ namespace FNLog
         StopChannels(logger);
         CleanChannels(logger);
         
-        for (auto& writer : logger.file_handles_)
+        for (int channel_id = 0; channel_id < Logger::MAX_CHANNEL_SIZE; channel_id++)
         {
-            if (writer.is_open())
+            //other threads of a sync channel may still be dispatching.
+            Logger::ReadGuard rg(logger.read_locks_[channel_id]);
+            for (int i = 0; i < Channel::MAX_DEVICE_SIZE; i++)
             {
-                writer.close();
-            }
-        }
-        for (auto& writer : logger.udp_handles_)
-        {
-            if (writer.is_open())
-            {
-                writer.close();
+                FileHandler& file = logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i];
+                if (file.is_open())
+                {
+                    file.close();
+                }
+                UDPHandler& udp = logger.udp_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i];
+                if (udp.is_open())
+                {
+                    udp.close();
+                }
             }
         }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
-- 
2.43.0


From 94324bf5e5b30abe74e1ccaeffb34746bb8d9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 32/42] fix: queries and setters accepted negative field
 numbers

---
 src/include/fn_core.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index c8068b9..d73ad50 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -284,7 +284,7 @@ namespace FNLog
             return 0;
         }
         Channel& channel = logger.shm_->channels_[channel_id];
-        if (field >= CHANNEL_LOG_MAX_ID)
+        if ((unsigned int)field >= CHANNEL_LOG_MAX_ID)
         {
             return 0;
         }
@@ -298,7 +298,7 @@ namespace FNLog
             return;
         }
         Channel& channel = logger.shm_->channels_[channel_id];
-        if (field >= CHANNEL_CFG_MAX_ID)
+        if ((unsigned int)field >= CHANNEL_CFG_MAX_ID)
         {
             return;
         }
@@ -312,7 +312,7 @@ namespace FNLog
             return 0;
         }
         Channel& channel = logger.shm_->channels_[channel_id];
-        if (field >= DEVICE_LOG_MAX_ID)
+        if ((unsigned int)field >= DEVICE_LOG_MAX_ID)
         {
             return 0;
         }
@@ -329,7 +329,7 @@ namespace FNLog
         {
             return;
         }
-        if (field >= DEVICE_CFG_MAX_ID)
+        if ((unsigned int)field >= DEVICE_CFG_MAX_ID)
         {
             return;
         }
@@ -347,7 +347,7 @@ namespace FNLog
         {
             return 0;
         }
-        if (field >= DEVICE_CFG_MAX_ID)
+        if ((unsigned int)field >= DEVICE_CFG_MAX_ID)
         {
             return 0;
         }
@@ -361,7 +361,7 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
-        if (logger.shm_ == NULL || cce >= CHANNEL_CFG_MAX_ID)
+        if (logger.shm_ == NULL || (unsigned int)cce >= CHANNEL_CFG_MAX_ID)
         {
             return;
         }
@@ -374,7 +374,7 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
-        if (logger.shm_ == NULL || dce >= DEVICE_CFG_MAX_ID)
+        if (logger.shm_ == NULL || (unsigned int)dce >= DEVICE_CFG_MAX_ID)
         {
             return;
         }
-- 
2.43.0


From c17ec6666904c5af2dd5121e20bb76277f220bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 33/42] fix: a line whose write failed was counted as written

---
 src/include/fn_out_file_device.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 84298f9..3269f3a 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -336,6 +336,11 @@ namespace FNLog
             return;
         }
         writer.write(log.content_, log.content_len_);
+        if (!writer.is_open()) //write failed
+        {
+            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
+            return;
+        }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_CUR_FILE_SIZE, log.content_len_);
-- 
2.43.0


From fb2f60b041fd88a39865dd56a790fdae31760460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:14 +0000
Subject: [PATCH 34/42] fix: network input written to a file was not flushed
 until the next logged record

---
 src/include/fn_channel.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 773aa77..b8f4bb7 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -192,18 +192,6 @@ namespace FNLog
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
             }
 
-            if (flush_count != 0)
-            {
-                Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
-                for (int i = 0; i < channel.device_size_; i++)
-                {
-                    if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
-                    {
-                        logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
-                    }
-                }
-            }
-
             for (int i = 0; i < channel.device_size_; i++)
             {
                 Device& device = channel.devices_[i];
@@ -256,10 +244,23 @@ namespace FNLog
                         break;
                     }
                     empty_tick = false; 
+                    flush_count++;
                     EnterProcDevice(logger, channel.channel_id_, device.device_id_, ring_buffer.udp_buffer_);
                 }
             }
 
+            if (flush_count != 0)
+            {
+                Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
+                for (int i = 0; i < channel.device_size_; i++)
+                {
+                    if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
+                    {
+                        logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
+                    }
+                }
+            }
+
             HotUpdateLogger(logger, channel.channel_id_);
             if (channel.channel_type_ == CHANNEL_ASYNC && empty_tick)
             {
-- 
2.43.0


From 78d1c1211c5a837b20957ded71e9a6075299e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:54 +0000
Subject: [PATCH 35/42] fix: a dispatching thread could set a stopped channel
 back to running

The change from NULL to RUNNING was a read followed by a write: a stop in
between was lost. A stopped synchronous channel then went on accepting
records, an asynchronous thread that had been asked to end never did.
---
 src/include/fn_channel.h | 6 ++++--
 src/include/fn_data.h    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index b8f4bb7..2d00572 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -187,9 +187,11 @@ namespace FNLog
             } while (true);  
 
 
-            if (channel.channel_state_ == CHANNEL_STATE_NULL)
+            if (channel.channel_type_ == CHANNEL_ASYNC)
             {
-                channel.channel_state_ = CHANNEL_STATE_RUNNING;
+                //a stop may have been requested meanwhile: never take it back.
+                unsigned int init_state = CHANNEL_STATE_NULL;
+                channel.channel_state_.compare_exchange_strong(init_state, CHANNEL_STATE_RUNNING);
             }
 
             for (int i = 0; i < channel.device_size_; i++)
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index d1a3093..4ec1d97 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -316,7 +316,7 @@ namespace FNLog
         int  channel_type_;
         int virtual_device_id_;
         int device_size_;
-        unsigned int channel_state_;
+        std::atomic_uint channel_state_;
         ConfigFields config_fields_;
         Device devices_[MAX_DEVICE_SIZE];
 
-- 
2.43.0


From 409c9901ea849b6b16dfb6f0fab827ea3e29b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 36/42] fix: queues of channels the last run did not have were
 used unchecked

A shared memory segment was validated and recovered only up to the channel
count stored in it; a configuration with more channels used the others as
they were. A negative count was accepted, too.
---
 src/include/fn_load.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index e4571e8..cb5992a 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -92,14 +92,14 @@ namespace FNLog
             shmdt(shm);
             return E_SHM_VERSION_WRONG;
         }
-        for (int i = 0; i < shm->channel_size_; i++)
+        if (shm->channel_size_ < 0 || shm->channel_size_ > SHMLogger::MAX_CHANNEL_SIZE)
+        {
+            shmdt(shm);
+            return E_SHM_VERSION_WRONG;
+        }
+        //the configuration may use more channels than the last run: no queue is left unchecked.
+        for (int i = 0; i < SHMLogger::MAX_CHANNEL_SIZE; i++)
         {
-            if (i >= SHMLogger::MAX_CHANNEL_SIZE)
-            {
-                shmdt(shm);
-                return E_SHM_VERSION_WRONG;
-            }
-
             if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
                 || shm->ring_buffers_[i].write_idx_ < 0
                 || shm->ring_buffers_[i].hold_idx_ >= RingBuffer::BUFFER_LEN
-- 
2.43.0


From cd3a19ffcf0edd6138a2908d402813b0458bf2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 37/42] fix: an invalid read index in shared memory was
 reported with an undescribed code

---
 src/include/fn_load.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index cb5992a..a76553b 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -130,7 +130,7 @@ namespace FNLog
                 || shm->ring_buffers_[i].read_idx_ < 0)
             {
                 shmdt(shm);
-                return -10;
+                return E_SHM_VERSION_WRONG;
             }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
             if (shm->ring_buffers_[i].read_idx_ != 0 || shm->ring_buffers_[i].write_idx_ != 0)
-- 
2.43.0


From 3b328c7315be5dbc2cc201984b25725fc9c637e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 38/42] fix: accept the upper case spelling of the sync channel
 type

ParseChannelType reads 'Sync' and 'SYNC' as an unknown type although the
first letter of every other keyword is compared without regard to case.
---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 143fd37..49e8836 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -541,7 +541,7 @@ namespace FNLog
     }
     inline ChannelType ParseChannelType(const char* begin, const char* end)
     {
-        if (end <= begin || *begin != 's')
+        if (end <= begin || (*begin != 's' && *begin != 'S'))
         {
             return CHANNEL_ASYNC;
         }
-- 
2.43.0


From 0f4634311e601b2a376259aa2ec9b1e005cd4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 39/42] fix: read channel category and identify ranges as 64
 bit numbers

---
 src/include/fn_parse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 49e8836..3db022b 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1332,10 +1332,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_PRIORITY] = ParsePriority(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoll(ls.line_.val_begin_);
                 break;            
             case RK_CATEGORY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_CATEGORY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
@@ -1350,10 +1350,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From af00f5a9d210ec6ded9f4682a645c8378bce4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 40/42] fix: read category and identify masks as unsigned 64
 bit numbers

atoll saturates at LLONG_MAX: a mask with bit 63 set was read as
0x7fffffffffffffff and an inverted one as 0x8000000000000000.
---
 src/include/fn_parse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 3db022b..9fbc26c 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1205,10 +1205,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 device.config_fields_[DEVICE_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1223,10 +1223,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_LIMIT_SIZE:
                 device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
@@ -1344,10 +1344,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1362,10 +1362,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
 
             case RK_DEVICE:
-- 
2.43.0


From fa30615abd2497efede48697605fdbe2ae08a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:18 +0000
Subject: [PATCH 41/42] fix: clamp bit positions before they are narrowed to
 int

---
 src/include/fn_parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 9fbc26c..30bcda8 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -717,7 +717,7 @@ namespace FNLog
                 break;
             }
 
-            int bit_offset_first = atoi(offset);
+            int bit_offset_first = (int)(std::min)(strtoul(offset, NULL, 10), 64UL);
             while (offset < end && (IsNumber(*offset) || IsBlank(*offset)))
             {
                 offset++;
@@ -746,7 +746,7 @@ namespace FNLog
                 continue;
             }
 
-            int bit_offset_last = atoi(offset);
+            int bit_offset_last = (int)(std::min)(strtoul(offset, NULL, 10), 64UL);
             for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last) && i < 64; i++)
             {
                 bitmap |= (1ULL << i);
-- 
2.43.0


From ccb4f70cd9dfb8e45a4746a617227a3ba63798b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:11 +0000
Subject: [PATCH 42/42] fix: opening a udp socket that is open already lost the
 open one

---
 src/include/fn_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 9a0db24..052a89a 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -458,6 +458,7 @@ public:
         }
         open_ts_ = time(NULL);
 
+        close();
         handler_ = socket(AF_INET, SOCK_DGRAM, 0);
         if (handler_ == FNLOG_INVALID_SOCKET)
         {
-- 
2.43.0

