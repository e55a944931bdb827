"""More behaviour-preserving edits, against all checks: the operating-system layer and the small classes."""
S, R, C, V, MQ, SHM, SEM, EV = "src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/veigar.cpp", "src/message_queue.cpp", "src/shared_memory.cpp", "src/semaphore.cpp", "src/event.cpp"
SHMH, MQH, UU, TU, RS = "src/shared_memory.h", "src/message_queue.h", "src/uuid.cpp", "src/time_util.cpp", "src/response.cpp"
A = ["C%02d" % i for i in range(1, 28)] + ["C30", "C31", "C32"]
M = []
def same(n, *e): M.append(("rg-" + n, "same", A, list(e)))

MAP = """    void* memory = mmap(nullptr,                 // addr
                        size_,                   // length
                        PROT_READ | PROT_WRITE,  // prot
                        MAP_SHARED,              // flags
                        fd_,                     // fd
                        0                        // offset
    );
"""
# mapping in a file-local helper
same("shm-map", (SHM, "bool SharedMemory::create() {\n    if (path_.empty()) {\n        return false;\n    }\n\n    fd_ = shm_open(", "static void* mapShared(int fd, int64_t size) {\n    return mmap(nullptr, (size_t)size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);\n}\n\nbool SharedMemory::create() {\n    if (path_.empty()) {\n        return false;\n    }\n\n    fd_ = shm_open("),
 (SHM, (MAP, "all"), "    void* memory = mapShared(fd_, size_);\n"))
# descriptor local until everything worked (create)
same("shm-cleanup", (SHM, "    data_ = static_cast<uint8_t*>(memory);\n\n    if (!data_) {\n        ::close(fd_);\n        fd_ = -1;\n        shm_unlink(path_.c_str());\n        return false;\n    }\n\n    shmCreator_ = true;\n", "    data_ = static_cast<uint8_t*>(memory);\n    const bool mapped = (data_ != nullptr);\n    shmCreator_ = mapped;\n    if (!mapped) {\n        ::close(fd_);\n        fd_ = -1;\n        shm_unlink(path_.c_str());\n    }\n    if (!mapped) {\n        return false;\n    }\n"))
same("shm-close-early", (SHM, "    if (fd_ != -1) {\n        //veigar::log(\"Veigar: Close fd: %d.\\n\", fd_);\n        if (data_) {\n            munmap(data_, size_);\n            data_ = nullptr;\n        }\n", "    if (fd_ == -1)\n        return;\n    {\n        uint8_t* const mapped = data_;\n        data_ = nullptr;\n        if (mapped != nullptr) {\n            munmap(mapped, size_);\n        }\n"))
# queue: the three names through one helper
same("q-names", (MQ, "bool MessageQueue::create(const std::string& path) {", "static std::string nameOf(const std::string& path, const char* what) {\n    return path + \"_\" + what;\n}\n\nbool MessageQueue::create(const std::string& path) {"),
 (MQ, ("path + \"_shm\"", "all"), "nameOf(path, \"shm\")"), (MQ, ("path + \"_rwlock\"", "all"), "nameOf(path, \"rwlock\")"), (MQ, ("path + \"_readsmp\"", "all"), "nameOf(path, \"readsmp\")"))
# queue: size of the segment through a helper
SZ = "int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;"
same("q-bytes", (MQ, "bool MessageQueue::create(const std::string& path) {", "namespace {\nconstexpr int64_t kHeaderFields = 3;\nint64_t segmentBytes(int64_t number, int64_t expected) {\n    return (int64_t)sizeof(int64_t) * (kHeaderFields + number) + number * expected;\n}\n}  // namespace\n\nbool MessageQueue::create(const std::string& path) {"),
 (MQ, (SZ, "all"), "const int64_t shmSize = segmentBytes(msgMaxNumber_, msgExpectedMaxSize_);"))
# failed create/open through close()
CL = """        if (shm_) {
            if (shm_->valid())
                shm_->close();
            shm_.reset();
        }

        if (rwLock_) {
            if (rwLock_->valid())
                rwLock_->close();
            rwLock_.reset();
        }

        if (readSmp_) {
            if (readSmp_->valid())
                readSmp_->close();
            readSmp_.reset();
        }
"""
same("q-fail-close", (MQ, (CL, "all"), "        close();\n"))
# early returns instead of do/break in open
same("sem-open", (SEM, "    close();\n\n    sh_ = new SemaphoreHandle();\n", "    if (valid()) {\n        close();\n    }\n    sh_ = new SemaphoreHandle();\n"))
same("sem-local", (SEM, "    sem_t* sem = ::sem_open(name.c_str(), 0);\n    if (sem == SEM_FAILED) {\n        return false;\n    }\n    ::sem_close(sem);\n    return true;\n", "    bool exist = false;\n    sem_t* const sem = ::sem_open(name.c_str(), 0);\n    if (sem != SEM_FAILED) {\n        ::sem_close(sem);\n        exist = true;\n    }\n    return exist;\n"))
same("sem-deadline", (SEM, "        timespec ts;\n\n        timespec ts_now;\n        clock_gettime(CLOCK_REALTIME, &ts_now);\n\n        ts.tv_sec = ts_now.tv_sec;\n        ts.tv_nsec = ts_now.tv_nsec;\n\n        ts.tv_sec += (ms / 1000);\n        ts.tv_nsec += ((ms % 1000) * 1000000);\n", "        timespec ts;\n        clock_gettime(CLOCK_REALTIME, &ts);\n        const int64_t seconds = ms / 1000;\n        ts.tv_sec += seconds;\n        ts.tv_nsec += (ms - seconds * 1000) * 1000000;\n"))
same("ev-guard", (EV, ("std::unique_lock<std::mutex> ul(m_);\n    isSet_ = true;\n    settedCondVar_.notify_all();", "all"), "{\n        std::lock_guard<std::mutex> lg(m_);\n        isSet_ = true;\n    }\n    settedCondVar_.notify_all();"))
same("ev-ready", (EV, "bool Event::wait(int64_t millseconds) {\n    std::unique_lock<std::mutex> ul(m_);\n", "bool Event::wait(int64_t millseconds) {\n    std::unique_lock<std::mutex> ul(m_);\n    if (isSet_ || isCancelled_) {\n        return true;\n    }\n"))
same("ev-retwait", (EV, "        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });\n    }\n    return (isSet_ || isCancelled_);", "        return settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });\n    }\n    return (isSet_ || isCancelled_);"))
same("time-chrono", (TU, "    struct timeval tv;\n    gettimeofday(&tv, 0);\n    int64_t lNowMicroMS = tv.tv_sec * 1000000 + tv.tv_usec;\n    return lNowMicroMS;", "    struct timeval now;\n    gettimeofday(&now, nullptr);\n    const int64_t seconds = now.tv_sec;\n    const int64_t micros = now.tv_usec;\n    return seconds * 1000000 + micros;"))
same("resp-getdata", (RS, "    veigar_msgpack::sbuffer data;\n    ResponseMsg r(1,\n                  callId_,\n                  error_ ? error_->get() : veigar_msgpack::object(),\n                  result_ ? result_->get() : veigar_msgpack::object());\n    veigar_msgpack::pack(data, r);\n    return data;", "    veigar_msgpack::object err, res;\n    if (error_) {\n        err = error_->get();\n    }\n    if (result_) {\n        res = result_->get();\n    }\n    ResponseMsg r(1, callId_, err, res);\n    veigar_msgpack::sbuffer data;\n    veigar_msgpack::pack(data, r);\n    return data;"))
# space: whole microseconds
same("s-slice", (S, "        int64_t waitMS = 0;\n        int64_t ms = (timeout - used) / 1000;\n        if (ms > 5) {\n            waitMS = 5;\n        }\n        else {\n            waitMS = ms;\n        }\n", "        const int64_t waitMS = std::min<int64_t>(5, (timeout - used) / 1000);\n"), (S, "#include \"sender.h\"\n", "#include \"sender.h\"\n#include <algorithm>\n"))
same("s-space-for", (S, "    bool result = false;\n    do {\n        bool waitable = false;\n        if (mq->checkSpaceSufficient(needSize, waitable)) {\n            result = true;\n            break;\n        }\n", "    for (;;) {\n        bool waitable = false;\n        if (mq->checkSpaceSufficient(needSize, waitable)) {\n            return true;\n        }\n"),
 (S, "        locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n        if (!locked) {\n            break;\n        }\n    } while (true);\n\n    return result;", "        locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n        if (!locked) {\n            break;\n        }\n    }\n\n    return false;"))
# one lookup function for both caches
CACHE = lambda k, K: """    std::lock_guard<std::mutex> lg(target%sMQsMutex_);
    std::shared_ptr<MessageQueue> queue = nullptr;
    auto it = target%sMsgQueues_.find(channelName);
    if (it != target%sMsgQueues_.cend()) {
        if (it->second->isAlive()) {
            return it->second;
        }
""" % (k, k, k)
same("s-cached", (S, CACHE("Call", 0), """    std::lock_guard<std::mutex> lg(targetCallMQsMutex_);
    std::shared_ptr<MessageQueue> queue;
    const auto it = targetCallMsgQueues_.find(channelName);
    const bool known = (it != targetCallMsgQueues_.end());
    if (known && it->second->isAlive()) {
        return it->second;
    }
    if (known) {
"""))
# uninit: the two target maps closed by a lambda
TM = lambda k: """    target%sMQsMutex_.lock();
    for (auto it : target%sMsgQueues_) {
        if (it.second) {
            it.second->close();
        }
    }
    target%sMsgQueues_.clear();
    target%sMQsMutex_.unlock();
""" % (k, k, k, k)
same("s-closeall", (S, TM("Call"), "    auto closeAll = [](std::mutex& m, std::unordered_map<std::string, std::shared_ptr<MessageQueue>>& queues) {\n        std::lock_guard<std::mutex> lg(m);\n        for (auto& it : queues) {\n            if (it.second) {\n                it.second->close();\n            }\n        }\n        queues.clear();\n    };\n    closeAll(targetCallMQsMutex_, targetCallMsgQueues_);\n"), (S, TM("Resp"), "    closeAll(targetRespMQsMutex_, targetRespMsgQueues_);\n"))
same("s-waitworkers", (S, "    for (std::thread& w : callWorkers_) {\n        if (w.joinable()) {\n            w.join();\n        }\n    }\n\n    for (std::thread& w : respWorkers_) {\n        if (w.joinable()) {\n            w.join();\n        }\n    }\n", "    for (std::vector<std::thread>* workers : {&callWorkers_, &respWorkers_}) {\n        for (std::thread& w : *workers) {\n            if (w.joinable()) {\n                w.join();\n            }\n        }\n    }\n"))
same("v-allocate", (V, "bool Veigar::sendCall(", "static uint8_t* duplicateBytes(const void* data, size_t size) {\n    uint8_t* const copy = (uint8_t*)malloc(size);\n    if (copy != nullptr && data != nullptr) {\n        memcpy(copy, data, size);\n    }\n    return copy;\n}\n\nbool Veigar::sendCall("),
 (V, "    cm.data = (uint8_t*)malloc(cm.dataSize);\n", "    cm.data = duplicateBytes(buffer ? buffer->data() : nullptr, (size_t)cm.dataSize);\n"),
 (V, "    if (buffer) {\n        memcpy(cm.data, buffer->data(), cm.dataSize);\n    }\n\n", ""),
 (V, "    rm.data = (uint8_t*)malloc(bufSize);\n", "    rm.data = duplicateBytes(buf, bufSize);\n"), (V, "    memcpy(rm.data, buf, bufSize);\n", ""))
same("v-now", (V, "    Sender::CallMeta cm;\n", "    const int64_t now = TimeUtil::GetCurrentTimestamp();\n\n    Sender::CallMeta cm;\n    cm.startCallTimePoint = now;\n    cm.timeout = int64_t(timeoutMS) * 1000;\n"), (V, "    cm.timeout = (int64_t)timeoutMS * 1000;\n    cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();\n\n", ""))
same("v-callid", (V, "    uint64_t idx = impl_->callIndex_.fetch_add(1);\n    std::string callId = impl_->uuid_ + std::to_string((unsigned long long)idx) + \"-\" + funcName;\n    return callId;", "    std::string callId(impl_->uuid_);\n    callId.append(std::to_string(impl_->callIndex_++));\n    callId.push_back('-');\n    callId += funcName;\n    return callId;"))
same("r-fail-text", (R, "                callRet.errorMessage = StringHelper::StringPrintf(\"An exception occurred during parsing response message: %s.\", e.what());\n", "                callRet.errorMessage = std::string(\"An exception occurred during parsing response message: \") + e.what() + \".\";\n"))
same("c-local-queue", (C, "    int64_t written = 0L;\n    while (!impl_->stop_.load()) {", "    MessageQueue& queue = *impl_->callMsgQueue_;\n    int64_t written = 0L;\n    while (!impl_->stop_.load()) {"), (C, ("impl_->callMsgQueue_->processRWUnlock()", "all"), "queue.processRWUnlock()"), (C, ("impl_->callMsgQueue_->popFront", "all"), "queue.popFront"))
