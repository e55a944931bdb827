S, V, Q, M_, H = "src/sender.cpp", "src/veigar.cpp", "src/message_queue.cpp", "src/semaphore.cpp", "src/sender.h"
I, T_, D, R, SM = "include/veigar/veigar.inl", "src/time_util.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/shared_memory.cpp"
K = ["C22"]
SZ = "int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;"
WAIT = "        int64_t waitMS = 0;\n        int64_t ms = (timeout - used) / 1000;\n"
M = [
 ("w-size-mul32", "bug", K, [(Q, (SZ, 1), "int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;")]),
 ("w-size-add32", "bug", K, [(Q, (SZ, 2), "int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;")]),
 ("w-size-int", "bug", K, [(Q, (SZ, 1), "int shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;")]),
 ("w-push-limit", "bug", K, [(Q, ("    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {", 1), "    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {")]),
 ("w-space-limit", "bug", K, [(Q, ("    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {", 2), "    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {")]),
 ("w-push-total", "bug", K, [(Q, ("        int64_t msgDataTotalSize = 0L;", 1), "        int32_t msgDataTotalSize = 0;")]),
 ("w-pop-total-front", "bug", K, [(Q, ("        int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);", 2), "        int32_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);")]),
 ("w-space-header", "bug", K, [(Q, ("        int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);", 3), "        int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * (int)sizeof(int64_t);")]),
 ("w-space-total", "bug", K, [(Q, ("        int64_t totalFree = *pShmSize", 2), "        int totalFree = *pShmSize")]),
 ("w-push-len", "bug", K, [(Q, "        memcpy(pCopyBegin, data, (size_t)dataSize);", "        memcpy(pCopyBegin, data, (uint32_t)dataSize);")]),
 ("w-timeout-mul32", "bug", K, [(V, "cm.timeout = (int64_t)timeoutMS * 1000;", "cm.timeout = timeoutMS * 1000;")]),
 ("w-timeout-signed", "bug", K, [(V, "cm.timeout = (int64_t)timeoutMS * 1000;", "cm.timeout = (int64_t)(int)timeoutMS * 1000;")]),
 ("w-call-size", "bug", K, [(V, "    cm.dataSize = buffer ? buffer->size() : 0;", "    uint32_t n = buffer ? buffer->size() : 0;\n    cm.dataSize = n;")]),
 ("w-resp-size", "bug", K, [(V, "    rm.dataSize = bufSize;", "    rm.dataSize = (int)bufSize;")]),
 ("w-meta-size", "bug", K, [(H, ("size_t dataSize", 1), "uint32_t dataSize")]),
 ("w-meta-timeout", "bug", K, [(H, ("int64_t timeout", 1), "int32_t timeout")]),
 ("w-clock32", "bug", K, [(T_, "    int64_t lNowMicroMS = tv.tv_sec * 1000000 + tv.tv_usec;", "    int lNowMicroMS = tv.tv_sec * 1000000 + tv.tv_usec;")]),
 ("w-clock-ms32", "bug", K, [(T_, "tv.tv_sec * 1000000 + tv.tv_usec;", "(uint32_t)tv.tv_sec * 1000000 + tv.tv_usec;")]),
 ("w-used-int", "bug", K, [(S, "        int64_t used = TimeUtil", "        int used = TimeUtil")]),
 ("w-ms-int", "bug", K, [(S, "        int64_t ms = (timeout - used) / 1000;", "        int ms = (timeout - used) / 1000;")]),
 ("w-csw-param", "bug", K, [(S, "                               int64_t needSize,", "                               int32_t needSize,"), (H, "int64_t needSize", "int32_t needSize")]),
 ("w-csw-timeout", "bug", K, [(S, "                               int64_t timeout,", "                               int timeout,"), (H, "                           int64_t timeout,", "                           int timeout,")]),
 ("w-sem-ms32", "bug", K, [(M_, "        ts.tv_sec += (ms / 1000);", "        ts.tv_sec += ((int)ms / 1000);")]),
 ("w-sem-ns", "bug", K, [(M_, "        ts.tv_nsec += ((ms % 1000) * 1000000);", "        ts.tv_nsec += (((int)(ms % 1000)) * 10000000);")]),
 ("w-lock-int", "bug", K, [(Q, "bool MessageQueue::processRWLock(uint32_t timeoutMS) {", "bool MessageQueue::processRWLock(int timeoutMS) {"), ("src/message_queue.h", "processRWLock(uint32_t", "processRWLock(int")]),
 ("w-sync-int", "bug", K, [(I, "std::chrono::milliseconds(timeoutMS)", "std::chrono::milliseconds((int)timeoutMS)")]),
 ("w-create-neg", "bug", K, [(Q, "        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ < 0) {\n            break;\n        }\n", "")]),
 ("w-ftrunc32", "bug", K, [(SM, "ftruncate(fd_, size_)", "ftruncate(fd_, (uint32_t)size_)")]),
 ("w-shm-size32", "bug", K, [("src/shared_memory.h", "    int64_t size_", "    int32_t size_")]),
 ("w-field16", "bug", K, [(V, "    uint32_t msgQueueCapacity_ = 0;", "    uint16_t msgQueueCapacity_ = 0;")]),
 ("w-rwt16", "bug", K, [(V, "    std::atomic<uint32_t> processRWTimeout_", "    std::atomic<uint16_t> processRWTimeout_")]),
 ("w-pop-buf", "bug", K, [(Q, "bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {\n", "bool MessageQueue::popFront(void* buf, int64_t bufSize64, int64_t& written) {\n    const int bufSize = (int)bufSize64;\n")]),
 ("w-event-int", "bug", K, [("src/event.cpp", "std::chrono::milliseconds(millseconds)", "std::chrono::milliseconds((int)millseconds)")]),
 ("w-same-event-param", "same", K, [("src/event.cpp", "bool Event::wait(int64_t mill", "bool Event::wait(int mill"), ("src/event.h", "wait(int64_t ", "wait(int ")]),
 # same
 ("w-same-size", "same", K, [(Q, (SZ, 1), "const int64_t headers = (3LL + msgMaxNumber_) * (int64_t)sizeof(int64_t);\n        const int64_t payload = static_cast<int64_t>(msgMaxNumber_) * static_cast<int64_t>(msgExpectedMaxSize_);\n        int64_t shmSize = headers + payload;")]),
 ("w-same-size_t", "same", K, [(Q, (SZ, 1), "size_t sz = ((size_t)msgMaxNumber_ + 3) * sizeof(int64_t) + (size_t)msgMaxNumber_ * (size_t)msgExpectedMaxSize_;\n        int64_t shmSize = (int64_t)sz;")]),
 ("w-same-wait", "same", K, [(S, WAIT + "        if (ms > 5) {\n            waitMS = 5;\n        }\n        else {\n            waitMS = ms;\n        }\n", "        const int64_t ms = (timeout - used) / 1000;\n        const int waitMS = ms > 5 ? 5 : (int)ms;\n")]),
 ("w-same-wait2", "same", K, [(S, WAIT + "        if (ms > 5) {\n            waitMS = 5;\n        }\n        else {\n            waitMS = ms;\n        }\n", "        const int64_t waitMS = std::min<int64_t>((timeout - used) / 1000, 5);\n"), (S, '#include "sender.h"\n', '#include "sender.h"\n#include <algorithm>\n')]),
 ("w-same-left", "same", K, [(S, "        if (used >= timeout) {\n            break;\n        }\n", "        const int64_t left = timeout - used;\n        if (left <= 0) {\n            break;\n        }\n"), (S, WAIT, "        int64_t waitMS = 0;\n        int64_t ms = left / 1000;\n")]),
 ("w-same-left-int", "same", K, [(S, "        if (used >= timeout) {\n            break;\n        }\n", "        const int64_t left = timeout - used;\n        if (left <= 0) {\n            break;\n        }\n"), (S, WAIT + "        if (ms > 5) {\n            waitMS = 5;\n        }\n        else {\n            waitMS = ms;\n        }\n", "        const int waitMS = left / 1000 > 5 ? 5 : static_cast<int>(left / 1000);\n")]),
 ("w-same-timeout", "same", K, [(V, "cm.timeout = (int64_t)timeoutMS * 1000;", "cm.timeout = timeoutMS * 1000LL;")]),
 ("w-same-loop-int", "same", K, [(Q, ("            for (int64_t i = 0; i < *pCurMsgNumber; i++) {", 1), "            for (int i = 0; i < *pCurMsgNumber; i++) {")]),
 ("w-same-loop-u", "same", K, [(Q, ("            for (int64_t i = 0; i < *pCurMsgNumber; i++) {", 2), "            for (size_t i = 0; i < (size_t)*pCurMsgNumber; ++i) {")]),
 ("w-same-sem", "same", K, [(M_, "        ts.tv_nsec += ((ms % 1000) * 1000000);", "        const int rest = (int)(ms % 1000);\n        ts.tv_nsec += rest * 1000000;")]),
 ("w-same-attempts", "same", K, [(S, "        if (stopEvent_.wait(waitMS)) {", "        ++attempts;\n        if (stopEvent_.wait(waitMS)) {"), (S, "    bool result = false;\n    do {\n        bool waitable", "    bool result = false;\n    int attempts = 0;\n    do {\n        bool waitable")]),
 ("w-same-sync", "same", K, [(I, "std::chrono::milliseconds(timeoutMS)", "std::chrono::milliseconds(static_cast<int64_t>(timeoutMS))")]),
 ("w-same-clock", "same", K, [(T_, "    int64_t lNowMicroMS = tv.tv_sec * 1000000 + tv.tv_usec;", "    int64_t lNowMicroMS = static_cast<int64_t>(tv.tv_sec) * 1000 * 1000;\n    lNowMicroMS += tv.tv_usec;")]),
]
