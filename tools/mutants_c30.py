# C30 / C31: waiting for space, bytes of queued messages
S, V, SH = "src/sender.cpp", "src/veigar.cpp", "src/sender.h"
M = []
def bug(n, c, *e): M.append(("c30-" + n, "bug", [c], list(e)))
def same(n, *e): M.append(("c30-" + n, "same", ["C30", "C31", "C01", "C02", "C12", "C22"], list(e)))
W = open("/repo/src/sender.cpp").read()
B = W[W.index("    bool result = false;\n    do {\n        bool waitable"):W.rindex("    return result;\n}")] + "    return result;\n"
def body(t): return (S, B, t)
same("deadline", body("""    const int64_t deadline = startCallTimePoint + timeout;
    for (;;) {
        bool waitable = false;
        if (mq->checkSpaceSufficient(needSize, waitable)) {
            return true;
        }
        if (!waitable) {
            return false;
        }
        const int64_t now = TimeUtil::GetCurrentTimestamp();
        if (now >= deadline) {
            return false;
        }
        int64_t ms = (deadline - now) / 1000;
        if (ms > 5) {
            ms = 5;
        }
        locked = false;
        mq->processRWUnlock();
        if (stopEvent_.wait(ms)) {
            return false;
        }
        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
        if (!locked) {
            return false;
        }
    }
"""))
same("left", body("""    bool waitable = false;
    while (!mq->checkSpaceSufficient(needSize, waitable)) {
        const int64_t left = timeout - (TimeUtil::GetCurrentTimestamp() - startCallTimePoint);
        if (!waitable || left <= 0) {
            return false;
        }
        locked = false;
        mq->processRWUnlock();
        if (stopEvent_.wait(std::min<int64_t>(5, left / 1000))) {
            return false;
        }
        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
        if (!locked) {
            return false;
        }
    }
    return true;
"""), (S, '#include "log.h"\n', '#include "log.h"\n#include <algorithm>\n'))
same("sleep", body("""    while (true) {
        bool waitable = false;
        if (mq->checkSpaceSufficient(needSize, waitable)) return true;
        if (!waitable) return false;
        if (TimeUtil::GetCurrentTimestamp() - startCallTimePoint >= timeout) return false;
        locked = false;
        mq->processRWUnlock();
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        if (stopEvent_.isSet()) return false;
        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
        if (!locked) return false;
    }
    return false;
"""))
same("expired-helper", (S, "        if (used >= timeout) {\n            break;\n        }\n", "        const bool expired = !(used < timeout);\n        if (expired)\n            break;\n"))
same("slice-us", (S, """        int64_t ms = (timeout - used) / 1000;
        if (ms > 5) {
            waitMS = 5;
        }
        else {
            waitMS = ms;
        }
""", """        const int64_t restUs = timeout - used;
        waitMS = restUs > 5000 ? 5 : restUs / 1000;
"""))
same("greater", (S, "if (used >= timeout) {", "if (used > timeout) {"))
same("copy-std", (V, "    memcpy(rm.data, buf, bufSize);", "    std::copy(buf, buf + bufSize, rm.data);"), (V, '#include "log.h"\n', '#include "log.h"\n#include <algorithm>\n'))
same("size-local", (V, "    cm.dataSize = buffer ? buffer->size() : 0;\n    cm.data = (uint8_t*)malloc(cm.dataSize);", "    const size_t n = buffer ? buffer->size() : 0;\n    cm.data = (uint8_t*)malloc(n);"), (V, "memcpy(cm.data, buffer->data(), cm.dataSize);\n", "memcpy(cm.data, buffer->data(), n);\n        cm.dataSize = n;\n"))
same("malloc-one", (V, "cm.data = (uint8_t*)malloc(cm.dataSize);", "cm.data = (uint8_t*)malloc(cm.dataSize > 0 ? cm.dataSize : 1);"))
same("calloc", (V, "cm.data = (uint8_t*)malloc(cm.dataSize);", "cm.data = (uint8_t*)calloc(1, cm.dataSize);"))
same("limit-local", (V, "    cm.timeout = (int64_t)timeoutMS * 1000;\n    cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();", "    const int64_t issued = TimeUtil::GetCurrentTimestamp();\n    const int64_t usPerMs = 1000;\n    cm.startCallTimePoint = issued;\n    cm.timeout = usPerMs * timeoutMS;"))
same("resp-limit", (V, "    rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;\n", "    const int64_t limit = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT;\n    rm.timeout = limit * 1000;\n"))
bug("first-full", "C30", (S, "        if (!waitable) {\n            break;\n        }\n\n        int64_t used", "        if (!waitable || needSize > 4096) {\n            break;\n        }\n\n        int64_t used"))
bug("last-slice", "C30", (S, "        if (used >= timeout) {", "        if (used >= timeout - 500000) {"))
bug("only-once", "C30", (S, "        locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n        if (!locked) {\n            break;\n        }\n    } while (true);", "        locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n        if (!locked) {\n            break;\n        }\n    } while (result);"))
bug("fresh-start", "C30", (S, "checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)", "checkSpaceAndWait(mq, cm.dataSize, TimeUtil::GetCurrentTimestamp(), cm.timeout, locked)"))
bug("rw-timeout", "C30", (S, "checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)", "checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, (int64_t)veigar_->timeoutOfRWLock() * 1000, locked)"))
bug("start-unset", "C30", (V, "    cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();\n", ""))
bug("resp-start-unset", "C30", (V, "    rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();\n", ""))
bug("seconds", "C30", (V, "cm.timeout = (int64_t)timeoutMS * 1000;", "cm.timeout = (int64_t)timeoutMS * 100;"))
bug("one-short", "C31", (V, "memcpy(cm.data, buffer->data(), cm.dataSize);", "memcpy(cm.data, buffer->data(), cm.dataSize - 1);"))
bug("size-plus", "C31", (V, "    rm.dataSize = bufSize;\n", "    rm.dataSize = bufSize + 1;\n"))
bug("size-max", "C31", (V, "    rm.dataSize = bufSize;\n", "    rm.dataSize = std::max<size_t>(bufSize, 64);\n"), (V, '#include "log.h"\n', '#include "log.h"\n#include <algorithm>\n'))
bug("expected-buffer", "C31", (V, "    rm.data = (uint8_t*)malloc(bufSize);", "    rm.data = (uint8_t*)malloc(expectedMsgMaxSize());"))
