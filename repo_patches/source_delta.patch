From 880e45c04b6cec0dd5ecf3d7cca55e6efb33f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 01/33] fix: normalise the semaphore deadline and retry waits
 interrupted by a signal

---
 src/semaphore.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..eee6dcb 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -8,6 +8,7 @@
 #include "semaphore.h"
 #include "log.h"
 #include <assert.h>
+#include <errno.h>
 #include <limits>
 
 namespace veigar {
@@ -87,7 +88,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -112,11 +114,23 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
-
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        if (ts.tv_nsec >= 1000000000) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+        }
+
+        int ret = 0;
+        do {
+            ret = sem_timedwait(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    int ret = 0;
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From c7e7edbb7047cbb2f797a37eb611b6e26e593e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 02/33] fix: Semaphore::IsExist must not create the semaphore
 it probes for

---
 src/semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index eee6dcb..ae314b2 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -21,12 +21,12 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
-- 
2.43.0


From cfdc07de3c9a79b0a7e4c09f6d8f4795d320796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 03/33] fix: use memmove for the overlapping moves inside the
 queue segment

---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..79309e6 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From 68fc57baee6fe8b3570ec972583b38f02fe4e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 04/33] fix: compute queue sizes and call timeouts in 64 bits

---
 src/message_queue.cpp | 8 ++++----
 src/veigar.cpp        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 79309e6..def22ed 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -27,7 +27,7 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..8b8467b 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From 2f109adadbff1924626f358cb27e892423159a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 05/33] fix: a failed init must not dereference dispatchers
 that were never created

---
 src/veigar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 8b8467b..22936ec 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -79,11 +79,11 @@ class Veigar::Impl {
                 veigar_->callDisp_->uninit();
             }
 
-            if (respDispatcher_->isInit()) {
+            if (respDispatcher_ && respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
 
-            if (sender_->isInit()) {
+            if (sender_) {
                 sender_->uninit();
             }
 
-- 
2.43.0


From 20a8f1b7bc3f1f0f387ac3293b683cc324b3318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 06/33] fix: call ids of different calls must never be equal

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 22936ec..1b9c045 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + std::to_string((unsigned long)idx) + "-" + funcName;
     return callId;
 }
 
-- 
2.43.0


From 5b0a52a64fafa3cb34b30704241042f85efa833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 07/33] fix: the instance id must differ between processes

---
 src/uuid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..4399c3d 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,14 +16,16 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
-    return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
-           (rand() & 0x7fff);
+    // rand() without a seed yields the same ids in every process.
+    std::random_device rd;
+    return (uint32_t)rd();
 }
 
 std::string UUID::GenUuid4() {
-- 
2.43.0


From 033aa5061839fa7ee0b61a7e2b3878c25f2e91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 08/33] fix: a closed segment is no longer owned, a later open
 must not unlink it

---
 src/shared_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..1aa29db 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -240,6 +240,7 @@ void SharedMemory::close() {
             if (!path_.empty()) {
                 shm_unlink(path_.c_str());
             }
+            shmCreator_ = false;
         }
     }
 }
-- 
2.43.0


From c3d9061931e7ff3fc492f3b5a69e36bed5b6d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 09/33] fix: an infinite Event::wait must not overflow its
 deadline

---
 src/event.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/event.cpp b/src/event.cpp
index d9c9601..03d6043 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -58,8 +58,12 @@ bool Event::isCancelled() {
 
 bool Event::wait(int64_t millseconds) {
     std::unique_lock<std::mutex> ul(m_);
-    int64_t m = (millseconds >= 0 ? millseconds : std::chrono::duration_values<int64_t>::max());
-    settedCondVar_.wait_for(ul, std::chrono::milliseconds(m), [this] { return (isSet_ || isCancelled_); });
+    if (millseconds < 0) {
+        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
+    }
+    else {
+        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });
+    }
     return (isSet_ || isCancelled_);
 }
 }  // namespace veigar
-- 
2.43.0


From e3075745b29b52cb47656c5b30bed8b5176ae1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 10/33] fix: Response::setError/setResult must own the object
 they capture

---
 src/response.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/response.cpp b/src/response.cpp
index 68b026b..f7482ec 100644
--- a/src/response.cpp
+++ b/src/response.cpp
@@ -46,17 +46,11 @@ bool Response::isEmpty() const {
 }
 
 void Response::setResult(veigar_msgpack::object_handle& r) {
-    if (!result_) {
-        result_ = std::make_shared<veigar_msgpack::object_handle>();
-    }
-    result_->set(std::move(r).get());
+    result_ = std::make_shared<veigar_msgpack::object_handle>(std::move(r));
 }
 
 void Response::setError(veigar_msgpack::object_handle& e) {
-    if (!error_) {
-        error_ = std::shared_ptr<veigar_msgpack::object_handle>();
-    }
-    error_->set(std::move(e).get());
+    error_ = std::make_shared<veigar_msgpack::object_handle>(std::move(e));
 }
 
 }  // namespace detail
-- 
2.43.0


From 1130889a6e0d54052825b877fcc196985226dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 11/33] fix: release the queued responses on uninit

---
 src/sender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..d9b3ab6 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -91,7 +91,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
-- 
2.43.0


From 7a9ca026f79c14cabff72a9a6d4608707fe35b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 12/33] fix: a read signal must not be lost when the rw-lock
 times out

---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..e406ef3 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still queued, restore its read signal
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..e011865 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still queued, restore its read signal
             continue;
         }
 
-- 
2.43.0


From cc663df273bc1a70636c79118c56fcd7dfb4a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 13/33] fix: a duplicate response must not complete a call
 twice

---
 src/resp_dispatcher.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index e011865..3e0907e 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -181,8 +181,11 @@ void RespDispatcher::dispatchRespThreadProc() {
                 }
 
                 ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
+                auto itCall = ongoingCalls_.find(callId);
+                if (itCall != ongoingCalls_.end()) {
+                    // claim the call, so that a duplicate response can not complete it again
+                    retMeta = std::move(itCall->second);
+                    ongoingCalls_.erase(itCall);
                 }
                 else {
                     veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
@@ -223,8 +226,6 @@ void RespDispatcher::dispatchRespThreadProc() {
                 if (retMeta.cb) {
                     retMeta.cb(callRet);
                 }
-
-                releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
     }
-- 
2.43.0


From 9e2cfada1c211f9de2aeeb37dc1fbb34b154daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 14/33] fix: an exception thrown by a result callback must not
 terminate the process

---
 src/resp_dispatcher.cpp | 32 ++++++++++++++++++++------------
 src/resp_dispatcher.h   |  4 ++++
 src/sender.cpp          | 11 +----------
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 3e0907e..0c7d9c8 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -215,18 +215,7 @@ void RespDispatcher::dispatchRespThreadProc() {
                 callRet.errorMessage = "An exception occurred during parsing response message.";
             }
 
-            if (retMeta.metaType == 0) {
-                assert(retMeta.p);
-                if (retMeta.p) {
-                    retMeta.p->set_value(std::move(callRet));
-                }
-            }
-            else if (retMeta.metaType == 1) {
-                assert(retMeta.cb);
-                if (retMeta.cb) {
-                    retMeta.cb(callRet);
-                }
-            }
+            completeCall(retMeta, std::move(callRet));
         } while (true);  // msgpack unpack while
     }
 }
@@ -237,6 +226,25 @@ void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta&
     ongoingCallsMutex_.unlock();
 }
 
+void RespDispatcher::completeCall(const ResultMeta& retMeta, CallResult&& callRet) noexcept {
+    try {
+        if (retMeta.metaType == 0) {
+            if (retMeta.p) {
+                retMeta.p->set_value(std::move(callRet));
+            }
+        }
+        else if (retMeta.metaType == 1) {
+            if (retMeta.cb) {
+                retMeta.cb(callRet);
+            }
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: An exception occurred during delivering call result: %s.\n", e.what());
+    } catch (...) {
+        veigar::log("Veigar: Error: An exception occurred during delivering call result.\n");
+    }
+}
+
 void RespDispatcher::releaseCall(const std::string& callId) {
     std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
     auto it = ongoingCalls_.find(callId);
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..9686007 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -40,6 +40,10 @@ class RespDispatcher {
     void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
     void releaseCall(const std::string& callId);
 
+    // Deliver the result to the promise or callback of the call.
+    // An exception thrown by the user's callback does not leave this function.
+    static void completeCall(const ResultMeta& retMeta, CallResult&& callRet) noexcept;
+
    private:
     void dispatchRespThreadProc();
 
diff --git a/src/sender.cpp b/src/sender.cpp
index d9b3ab6..4dea461 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -251,16 +251,7 @@ void Sender::sendCallThreadProc() {
                 failedRet.errCode = ec;
                 failedRet.errorMessage = errMsg;
 
-                if (cm.resultMeta.metaType == 0) {
-                    if (cm.resultMeta.p) {
-                        cm.resultMeta.p->set_value(std::move(failedRet));
-                    }
-                }
-                else if (cm.resultMeta.metaType == 1) {
-                    if (cm.resultMeta.cb) {
-                        cm.resultMeta.cb(failedRet);
-                    }
-                }
+                RespDispatcher::completeCall(cm.resultMeta, std::move(failedRet));
             }
 
             if (cm.data) {
-- 
2.43.0


From 0118cace5234ac057eac28d5a71098a4c36769f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 15/33] fix: do not release the inter-process lock when it is
 not held

---
 src/sender.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 4dea461..240ac96 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -194,6 +194,7 @@ void Sender::sendCallThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -205,7 +206,8 @@ void Sender::sendCallThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
                         if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
@@ -219,6 +221,7 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
+                        locked = false;
                         mq->processRWUnlock();
                     }
                     else {
@@ -231,14 +234,14 @@ void Sender::sendCallThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
                 errMsg = "An exception occurred during pushing message to call queue.";
@@ -288,6 +291,7 @@ void Sender::sendRespThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -299,7 +303,8 @@ void Sender::sendRespThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
                         if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
@@ -313,6 +318,7 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
+                        locked = false;
                         mq->processRWUnlock();
                     }
                     else {
@@ -325,13 +331,13 @@ void Sender::sendRespThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = "An exception occurred during parsing pushing message to response queue.";
             }
-- 
2.43.0


From 24594fb9e44016600d87489325cc891ad5734695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 16/33] fix: do not hold the inter-process lock while waiting
 for queue space

---
 src/sender.cpp | 28 +++++++++++++++++++++-------
 src/sender.h   |  4 +++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 240ac96..ef0b38e 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -208,7 +208,7 @@ void Sender::sendCallThreadProc() {
                 if (mq) {
                     locked = mq->processRWLock(veigar_->timeoutOfRWLock());
                     if (locked) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
+                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -221,8 +221,10 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
-                        locked = false;
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -305,7 +307,7 @@ void Sender::sendRespThreadProc() {
                 if (mq) {
                     locked = mq->processRWLock(veigar_->timeoutOfRWLock());
                     if (locked) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
+                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -318,8 +320,10 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
-                        locked = false;
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -356,7 +360,8 @@ void Sender::sendRespThreadProc() {
 bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                                int64_t needSize,
                                int64_t startCallTimePoint,
-                               int64_t timeout) {
+                               int64_t timeout,
+                               bool& locked) {
     bool result = false;
     do {
         bool waitable = false;
@@ -383,9 +388,18 @@ bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
             waitMS = ms;
         }
 
+        // The target can only free space while the lock is available to it.
+        locked = false;
+        mq->processRWUnlock();
+
         if (stopEvent_.wait(waitMS)) {
             break;  // user call uninit, exit now!
         }
+
+        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+        if (!locked) {
+            break;
+        }
     } while (true);
 
     return result;
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..f67530a 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -59,10 +59,12 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
+    // The rw-lock of the queue must be held by the caller, 'locked' tells whether it is still held on return.
     bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                            int64_t needSize,
                            int64_t startCallTimePoint,
-                           int64_t timeout);
+                           int64_t timeout,
+                           bool& locked);
 
    private:
     bool isInit_ = false;
-- 
2.43.0


From 2186f886405c2df63a62c6d58d6580273994e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 17/33] fix: uninit must complete the calls that are still
 pending

---
 src/resp_dispatcher.cpp | 11 ++++++++++-
 src/sender.cpp          | 29 +++++++++++++++++++++++------
 src/sender.h            |  5 +++--
 src/veigar.cpp          | 12 ++++++++++--
 4 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 0c7d9c8..7f69088 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -65,10 +65,19 @@ void RespDispatcher::uninit() {
         respMsgQueue_.reset();
     }
 
+    // nobody will answer the pending calls any more
+    std::unordered_map<std::string, ResultMeta> pendingCalls;
     ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
+    pendingCalls.swap(ongoingCalls_);
     ongoingCallsMutex_.unlock();
 
+    for (auto& it : pendingCalls) {
+        CallResult failedRet;
+        failedRet.errCode = ErrorCode::FAILED;
+        failedRet.errorMessage = "Veigar has been uninitialized.";
+        completeCall(it.second, std::move(failedRet));
+    }
+
     init_ = false;
 }
 
diff --git a/src/sender.cpp b/src/sender.cpp
index ef0b38e..9dfa85e 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -79,15 +79,22 @@ void Sender::uninit() {
     targetRespMQsMutex_.unlock();
 
     // release all calls memory
+    std::queue<CallMeta> unsentCalls;
     callListMutex_.lock();
-    while (!callList_.empty()) {
-        CallMeta cm = callList_.front();
+    unsentCalls.swap(callList_);
+    callListMutex_.unlock();
+    while (!unsentCalls.empty()) {
+        CallMeta cm = unsentCalls.front();
         if (cm.data) {
             free(cm.data);
         }
-        callList_.pop();
+        unsentCalls.pop();
+
+        CallResult failedRet;
+        failedRet.errCode = ErrorCode::FAILED;
+        failedRet.errorMessage = "Veigar has been uninitialized.";
+        RespDispatcher::completeCall(cm.resultMeta, std::move(failedRet));
     }
-    callListMutex_.unlock();
 
     // release all responses memory
     respListMutex_.lock();
@@ -111,20 +118,30 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
+bool Sender::addCall(const Sender::CallMeta& cm) {
     callListMutex_.lock();
+    if (stopEvent_.isSet()) {
+        callListMutex_.unlock();
+        return false;
+    }
     callList_.emplace(cm);
     callListMutex_.unlock();
 
     callListSetEvent_.set();
+    return true;
 }
 
-void Sender::addResp(const Sender::RespMeta& rm) {
+bool Sender::addResp(const Sender::RespMeta& rm) {
     respListMutex_.lock();
+    if (stopEvent_.isSet()) {
+        respListMutex_.unlock();
+        return false;
+    }
     respList_.emplace(rm);
     respListMutex_.unlock();
 
     respListSetEvent_.set();
+    return true;
 }
 
 std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::string& channelName) {
diff --git a/src/sender.h b/src/sender.h
index f67530a..ad5a84e 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -49,8 +49,9 @@ class Sender {
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
-    void addResp(const Sender::RespMeta& rm);
+    // Return false if the sender has been stopped, the ownership of the data remains with the caller.
+    bool addCall(const Sender::CallMeta& cm);
+    bool addResp(const Sender::RespMeta& rm);
 
    private:
     std::shared_ptr<MessageQueue> getTargetCallMessageQueue(const std::string& channelName);
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 1b9c045..26e92c7 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -273,7 +273,11 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addCall(cm);
+    if (!impl_->sender_->addCall(cm)) {
+        free(cm.data);
+        exceptionMsg = "Veigar has been uninitialized.";
+        return false;
+    }
 
     return true;
 }
@@ -300,7 +304,11 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addResp(rm);
+    if (!impl_->sender_->addResp(rm)) {
+        free(rm.data);
+        errMsg = "Veigar has been uninitialized.";
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 535e44bb285a10d355cc47f6334b250b54148726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 18/33] fix: uninit must not destroy the sender while dispatch
 threads still use it

---
 src/veigar.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 26e92c7..35ae541 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -110,12 +110,6 @@ class Veigar::Impl {
             if (sender_->isInit()) {
                 sender_->uninit();
             }
-            sender_.reset();
-        }
-
-        assert(veigar_ && veigar_->callDisp_);
-        if (veigar_->callDisp_->isInit()) {
-            veigar_->callDisp_->uninit();
         }
 
         assert(respDispatcher_);
@@ -123,9 +117,17 @@ class Veigar::Impl {
             if (respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
-            respDispatcher_.reset();
         }
 
+        assert(veigar_ && veigar_->callDisp_);
+        if (veigar_->callDisp_->isInit()) {
+            veigar_->callDisp_->uninit();
+        }
+
+        // The threads that use these objects have all been joined now.
+        sender_.reset();
+        respDispatcher_.reset();
+
         isInit_ = false;
     }
 
-- 
2.43.0


From 01b6f4b432cae1cfb2f25beba91d43cbfc5cc913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 19/33] fix: guard the function registry against concurrent
 bind, unbind and dispatch

---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl | 25 ++++++++++++-------------
 src/call_dispatcher.cpp            | 22 ++++++++++++++++++----
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..e947ca5 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -77,6 +78,7 @@ class VEIGAR_API CallDispatcher {
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
         std::vector<std::string> names;
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
         return names;
@@ -98,6 +100,7 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
+    mutable std::mutex funcsMutex_;
     std::unordered_map<std::string, AdaptorType> funcs_;
 
     class Impl;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..9025080 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -26,14 +26,14 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(
         std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
             assert(args_count == args.via.array.size);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
-        }));
-    return true;
+        })).second;
 }
 
 template <typename F>
@@ -45,7 +45,8 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
@@ -57,8 +58,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
                            detail::call(func, args_real);
 
                            return detail::make_unique<veigar_msgpack::object_handle>();
-                       }));
-    return true;
+                       })).second;
 }
 
 template <typename F>
@@ -70,7 +70,8 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
@@ -80,8 +81,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                            auto result = veigar_msgpack::object(func(), *z);
 
                            return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                       }));
-    return true;
+                       })).second;
 }
 
 template <typename F>
@@ -93,7 +93,8 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(std::make_pair(name,
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(std::make_pair(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
                                      assert(args_count == args.via.array.size);
@@ -106,9 +107,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                                      auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
 
                                      return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                                 }));
-
-    return true;
+                                 })).second;
 }
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e406ef3..99c46fa 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -87,7 +87,10 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
-    funcs_.clear();
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        funcs_.clear();
+    }
 
     init_ = false;
 }
@@ -97,6 +100,7 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
         funcs_.erase(it);
@@ -138,15 +142,24 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    // The functor is copied, so that it can be unbound while it is being called.
+    AdaptorType func;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
+        if (itFunc != funcs_.cend()) {
+            func = itFunc->second;
+        }
+    }
+
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = func(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
@@ -274,6 +287,7 @@ void CallDispatcher::dispatchThreadProc() {
 }
 
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
         return true;
-- 
2.43.0


From 4474206c9d5b214f7922fe5c5c796cbe16dff065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 20/33] fix: answer calls with wrong arguments or flag with an
 error instead of asserting

---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl |  8 ++++----
 src/call_dispatcher.cpp            | 10 ++++++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index e947ca5..8d8b81c 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -91,6 +91,9 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Throws when the arguments received from the caller do not match the functor.
+    static void checkArgsCount(veigar_msgpack::object const& args, int expected);
+
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 9025080..7d342f0 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -30,7 +30,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     return funcs_.insert(
         std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
+            checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
         })).second;
@@ -50,7 +50,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            args_type args_real;
                            // note: dispatcher will catch this type_error exception.
@@ -75,7 +75,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            auto z = detail::make_unique<veigar_msgpack::zone>();
                            auto result = veigar_msgpack::object(func(), *z);
@@ -97,7 +97,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     return funcs_.insert(std::make_pair(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+                                     checkArgsCount(args, args_count);
 
                                      args_type args_real;
                                      // note: dispatcher will catch this type_error exception.
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 99c46fa..385fc90 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -13,6 +13,7 @@
 #include "time_util.h"
 #include <atomic>
 #include <queue>
+#include <stdexcept>
 #include "message_queue.h"
 #include "run_time_recorder.h"
 
@@ -130,15 +131,14 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 
     // proper validation of protocol (and responding to it)
     auto&& type = std::get<0>(the_call);
-    assert(type == 0);
 
     auto&& callId = std::get<1>(the_call);
+    callerChannelName = std::get<2>(the_call);
 
     if (type != 0) {
         return Response::MakeResponseWithError(callId, std::string("Invalid message flag."));
     }
 
-    callerChannelName = std::get<2>(the_call);
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
@@ -286,6 +286,12 @@ void CallDispatcher::dispatchThreadProc() {
     }
 }
 
+void CallDispatcher::checkArgsCount(veigar_msgpack::object const& args, int expected) {
+    if (args.type != veigar_msgpack::type::ARRAY || args.via.array.size != (uint32_t)expected) {
+        throw std::invalid_argument("The number of arguments does not match");
+    }
+}
+
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
     std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
-- 
2.43.0


From 71d41dddd876dd741224ccd2813953985d94e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 21/33] fix: a malformed message must not corrupt the messages
 that follow it

---
 src/call_dispatcher.cpp | 5 +++++
 src/resp_dispatcher.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 385fc90..1cd1932 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -283,6 +283,11 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
         } while (true);
+
+        // Each message of the queue is self-contained, what is left of it must not prefix the next one.
+        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());
+        callPac.reset();
+        callPac.reset_zone();
     }
 }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 7f69088..a8543db 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -226,6 +226,11 @@ void RespDispatcher::dispatchRespThreadProc() {
 
             completeCall(retMeta, std::move(callRet));
         } while (true);  // msgpack unpack while
+
+        // Each message of the queue is self-contained, what is left of it must not prefix the next one.
+        respPac.skip_nonparsed_buffer(respPac.nonparsed_size());
+        respPac.reset();
+        respPac.reset_zone();
     }
 }
 
-- 
2.43.0


From 1b66d70ce412815dbf585c6c69a756ebeff2f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 22/33] fix: asyncCall must return a valid future when packing
 the call fails

---
 include/veigar/veigar.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..091001d 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -73,10 +73,9 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
     acr->first = callId;
     auto p = std::make_shared<std::promise<CallResult>>();
+    acr->second = p->get_future();
 
     try {
-        auto ft = p->get_future();
-
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
@@ -99,8 +98,6 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
             p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
-- 
2.43.0


From a1f12ed92c42927fe998d87c54220bda081a0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 23/33] fix: a throwing callback must not be invoked a second
 time

---
 include/veigar/veigar.inl | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 091001d..de76811 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -126,6 +126,7 @@ void Veigar::doAsyncCallWithCallback(
         return;
     }
 
+    bool sent = false;
     try {
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -139,25 +140,21 @@ void Veigar::doAsyncCallWithCallback(
         retMeta.cb = cb;
 
         std::string errMsg;
-        if (!sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
+        sent = sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg);
+        if (!sent) {
             if (errMsg.empty()) {
                 failedRet.errorMessage = "Send failed: Unknown.";
             }
             else {
                 failedRet.errorMessage = "Send failed: " + errMsg;
             }
-
-            if (cb) {
-                cb(failedRet);
-            }
-            return;
         }
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
-        if (cb) {
-            cb(failedRet);
-        }
-        return;
+    }
+
+    if (!sent && cb) {
+        cb(failedRet);
     }
 }
 }  // namespace veigar
\ No newline at end of file
-- 
2.43.0


From 73c87966ec0a2571e0d449653bc97390f05f7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 24/33] fix: do not open a queue whose segment does not have
 the expected layout

---
 src/message_queue.cpp | 7 +++++++
 src/shared_memory.cpp | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index def22ed..64687b5 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -112,6 +112,13 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
+        // The layout of the segment depends on the parameters of the queue, the creator and the opener must agree.
+        const int64_t* pDataSize = (const int64_t*)shm_->data();
+        if (*pDataSize != shmSize) {
+            veigar::log("Veigar: Error: The parameters of the message queue(%s) differ from those of its creator.\n", path.c_str());
+            break;
+        }
+
         result = true;
     } while (false);
 
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 1aa29db..1bb8bfc 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -190,6 +190,15 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // Accessing a mapping beyond the end of the object raises SIGBUS.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || st.st_size < size_) {
+        veigar::log("Veigar: Error: shared memory is smaller than expected, expected: %" PRId64 ".\n", size_);
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From 105571a8febff9762b055c43b3302df5a6dd1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 25/33] fix: calls must reach a target that has been restarted

---
 src/message_queue.cpp |  8 ++++++++
 src/message_queue.h   |  5 ++++-
 src/sender.cpp        | 12 ++++++++++--
 src/shared_memory.cpp | 13 +++++++++++++
 src/shared_memory.h   |  3 +++
 5 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 64687b5..73c85b1 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -16,6 +16,14 @@ MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noe
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+MessageQueue::~MessageQueue() noexcept {
+    close();
+}
+
+bool MessageQueue::isAlive() const {
+    return (shm_ && shm_->linked());
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..7ca26b6 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -18,12 +18,15 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept;
 
     bool create(const std::string& path);
     bool open(const std::string& path);
     void close();
 
+    // False if the creator has closed the queue.
+    bool isAlive() const;
+
     // Read/Write locker for multi processes.
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
diff --git a/src/sender.cpp b/src/sender.cpp
index 9dfa85e..f439f3a 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -149,7 +149,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (it->second->isAlive()) {
+            return it->second;
+        }
+        // The target has been restarted, its new queue must be opened.
+        targetCallMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -168,7 +172,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (it->second->isAlive()) {
+            return it->second;
+        }
+        // The target has been restarted, its new queue must be opened.
+        targetRespMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 1bb8bfc..8efc746 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -79,6 +79,10 @@ void SharedMemory::close() {
     }
 }
 
+bool SharedMemory::linked() const {
+    return valid();
+}
+
 bool SharedMemory::create() {
     assert(!valid());
     close();
@@ -232,6 +236,15 @@ bool SharedMemory::valid() const {
     return fd_ != -1;
 }
 
+bool SharedMemory::linked() const {
+#ifdef VEIGAR_OS_LINUX
+    struct stat st;
+    return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink > 0);
+#else
+    return valid();
+#endif
+}
+
 void SharedMemory::close() {
     if (fd_ != -1) {
         //veigar::log("Veigar: Close fd: %d.\n", fd_);
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..772e90b 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -31,6 +31,9 @@ class SharedMemory {
     bool valid() const;
     void close();
 
+    // False if the object has been unlinked, a later create will not refer to this mapping.
+    bool linked() const;
+
     inline int64_t size() const {
         return size_;
     }
-- 
2.43.0


From ee24e8ca2f0579343a41cdc547da2ac1ff6b5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 26/33] fix: creating a queue must recover from a predecessor
 that crashed

---
 src/message_queue.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 73c85b1..24524fb 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -55,11 +55,19 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
+        // A process that crashed may have left the segment and the lock behind.
+        // Peers of it may still use the segment, and nobody else will release a lock that it held.
+        if (!rwLock_->wait(1000)) {
+            veigar::log("Veigar: Warning: Take over the rw-lock of message queue(%s).\n", path.c_str());
+        }
+
         uint8_t* data = shm_->data();
         memset(data, 0, (size_t)shmSize);
         int64_t* pDataSize = (int64_t*)data;
         *pDataSize = shmSize;
 
+        rwLock_->release();
+
         result = true;
     } while (false);
 
-- 
2.43.0


From baafa8f5ba70d92bb928c27ff4d41b5a7bf09b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 27/33] fix: forget the joined worker threads, so that a later
 uninit does not signal them

---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 1cd1932..34c1133 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -82,6 +82,7 @@ void CallDispatcher::uninit() {
             worker.join();
         }
     }
+    impl_->workers_.clear();
 
     if (impl_->callMsgQueue_) {
         impl_->callMsgQueue_->close();
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index a8543db..0c4df68 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -59,6 +59,7 @@ void RespDispatcher::uninit() {
             worker.join();
         }
     }
+    workers_.clear();
 
     if (respMsgQueue_) {
         respMsgQueue_->close();
-- 
2.43.0


From e14725b212131868acc43a2e0bdc721d358d9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 28/33] fix: log format specifiers must match the size of their
 arguments

---
 src/call_dispatcher.cpp | 2 +-
 src/resp_dispatcher.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 34c1133..914548d 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -223,7 +223,7 @@ void CallDispatcher::dispatchThreadProc() {
             try {
                 callPac.reserve_buffer((size_t)written);
             } catch (std::bad_alloc& e) {
-                veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", written, e.what());
+                veigar::log("Veigar: Error: Pre-alloc call memory(%" PRId64 " bytes) failed: %s.\n", written, e.what());
                 impl_->callMsgQueue_->processRWUnlock();
                 continue;
             }
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 0c4df68..934d7bd 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -135,7 +135,7 @@ void RespDispatcher::dispatchRespThreadProc() {
             try {
                 respPac.reserve_buffer((size_t)written);
             } catch (std::bad_alloc& e) {
-                veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", written, e.what());
+                veigar::log("Veigar: Error: Pre-alloc response memory(%" PRId64 " bytes) failed: %s.\n", written, e.what());
                 respMsgQueue_->processRWUnlock();
                 continue;
             }
@@ -198,7 +198,7 @@ void RespDispatcher::dispatchRespThreadProc() {
                     ongoingCalls_.erase(itCall);
                 }
                 else {
-                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
+                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %zu.\n", callId.c_str(), ongoingCalls_.size());
                     ongoingCallsMutex_.unlock();
                     continue;
                 }
-- 
2.43.0


From efbed478325cb8b2ffc9d96b19bf6c08bf434184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 29/33] fix: a synchronous call must not wait longer than its
 timeout

---
 include/veigar/veigar.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index de76811..22ea1fe 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -49,6 +49,15 @@ CallResult Veigar::syncCall(const std::string& targetChannel,
         return cr;
     }
 
+    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {
+        releaseCall(acr->first);
+
+        CallResult cr;
+        cr.errCode = ErrorCode::TIMEOUT;
+        cr.errorMessage = "Waiting for the call result timeout.";
+        return cr;
+    }
+
     CallResult callRet = acr->second.get();
 
     releaseCall(acr->first);
-- 
2.43.0


From 9b3c14143c4c4ec01df860c0295f72c1a35162d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 30/33] fix: refuse an expected message size that does not fit
 the queue's type

---
 src/message_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 24524fb..b9a5018 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -31,7 +31,7 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ < 0) {
             break;
         }
 
-- 
2.43.0


From f636ebc00ad4f77b053ed4d06eb6a71de3f1cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 31/33] fix: the call index must not wrap around and repeat ids

---
 src/veigar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 35ae541..2a85fe9 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -138,7 +138,7 @@ class Veigar::Impl {
 
     std::atomic<uint32_t> processRWTimeout_ = { 30 };  // ms
 
-    std::atomic<uint32_t> callIndex_ = { 0 };
+    std::atomic<uint64_t> callIndex_ = { 0 };
     std::string channelName_;
     std::string uuid_;
 
@@ -238,8 +238,8 @@ uint32_t Veigar::timeoutOfRWLock() const {
 
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
-    uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + std::to_string((unsigned long)idx) + "-" + funcName;
+    uint64_t idx = impl_->callIndex_.fetch_add(1);
+    std::string callId = impl_->uuid_ + std::to_string((unsigned long long)idx) + "-" + funcName;
     return callId;
 }
 
-- 
2.43.0


From 87fd176886e1f4b0428fd8d3ff35b45c5cde8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 32/33] fix: a cached mapping of a segment that was resized is
 not usable any more

---
 src/shared_memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 8efc746..2decf1c 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -238,8 +238,9 @@ bool SharedMemory::valid() const {
 
 bool SharedMemory::linked() const {
 #ifdef VEIGAR_OS_LINUX
+    // The creator resizes the object when it was restarted with other parameters.
     struct stat st;
-    return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink > 0);
+    return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink > 0 && st.st_size == size_);
 #else
     return valid();
 #endif
-- 
2.43.0


From 67474e29827ed68b7c65bb24bab202819e671f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 33/33] fix: moving an instance must take its functions along
 and release what the target owned

---
 include/veigar/call_dispatcher.h |  1 +
 src/veigar.cpp                   | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 8d8b81c..f935ac8 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -108,6 +108,7 @@ class VEIGAR_API CallDispatcher {
 
     class Impl;
     Impl* impl_ = nullptr;
+    friend class ::veigar::Veigar;
 };
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 2a85fe9..f0f4f00 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -161,14 +161,28 @@ Veigar::Veigar(Veigar&& other) noexcept {
 
 Veigar& Veigar::operator=(Veigar&& other) noexcept {
     if (this != &other) {
-        impl_ = std::move(other.impl_);
+        if (impl_) {
+            impl_->uninit();
+            delete impl_;
+        }
+
+        impl_ = other.impl_;
         other.impl_ = nullptr;
+        callDisp_ = std::move(other.callDisp_);
+
+        if (impl_) {
+            impl_->veigar_ = this;
+        }
+
+        if (callDisp_) {
+            callDisp_->veigar_ = this;
+        }
     }
     return *this;
 }
 
 Veigar::~Veigar() noexcept {
-    assert(!isInit());
+    assert(!impl_ || !isInit());
 
     if (callDisp_) {
         assert(!callDisp_->isInit());
-- 
2.43.0

