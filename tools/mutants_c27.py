S, MQ, SHM = "src/sender.cpp", "src/message_queue.cpp", "src/shared_memory.cpp"
K = ["C27"]
AL = "        if (it->second->isAlive()) {\n            return it->second;\n        }\n        // The target has been restarted, its new queue must be opened.\n        %s.erase(it);\n"
CALL, RESP = AL % "targetCallMsgQueues_", AL % "targetRespMsgQueues_"
LK = "return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink > 0 && st.st_size == size_);"
M = [
 ("rs-nocheck-call", "bug", K, [(S, CALL, "        return it->second;\n")]),
 ("rs-nocheck-resp", "bug", K, [(S, RESP, "        return it->second;\n")]),
 ("rs-alive-inv", "bug", K, [(S, ("it->second->isAlive()", 1), "!it->second->isAlive()")]),
 ("rs-dead-giveup", "bug", K, [(S, "        targetRespMsgQueues_.erase(it);\n", "        targetRespMsgQueues_.erase(it);\n        return nullptr;\n")]),
 ("rs-alive-shm", "bug", K, [(MQ, "return (shm_ && shm_->linked());", "return (shm_ && shm_->valid());")]),
 ("rs-alive-true", "bug", K, [(SHM, LK, "return fd_ >= 0;")]),
 ("rs-nolink", "bug", K, [(SHM, LK, "return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_size == size_);")]),
 ("rs-nosize", "bug", K, [(SHM, LK, "return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink > 0);")]),
 ("rs-link0", "bug", K, [(SHM, LK, "return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink >= 0 && st.st_size == size_);")]),
 ("rs-sizege", "bug", K, [(SHM, LK, "return (fd_ >= 0 && fstat(fd_, &st) == 0 && st.st_nlink > 0 && st.st_size >= size_);")]),
 ("rs-fstat-fail", "bug", K, [(SHM, LK, "return (fd_ >= 0 && (fstat(fd_, &st) != 0 || (st.st_nlink > 0 && st.st_size == size_)));")]),
 ("rs-key", "bug", K, [(S, "targetCallMsgQueues_[channelName] = queue;", "targetCallMsgQueues_[channelName + VEIGAR_CALL_QUEUE_NAME_SUFFIX] = queue;")]),
 ("rs-mixed", "bug", ["C16", "C09"], [(S, "queue->open(channelName + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX)", "queue->open(channelName + VEIGAR_CALL_QUEUE_NAME_SUFFIX)"), (S, "targetRespMsgQueues_[channelName] = queue;", "targetCallMsgQueues_[channelName] = queue;")]),
 ("rs-open-size", "bug", K, [(SHM, "fstat(fd_, &st) != 0 || st.st_size < size_", "fstat(fd_, &st) != 0")]),
 ("rs-open-size2", "bug", K, [(SHM, "st.st_size < size_", "st.st_size <= 0")]),
 ("rs-open-size3", "bug", K, [(SHM, "fstat(fd_, &st) != 0 || st.st_size < size_", "fstat(fd_, &st) == 0 && st.st_size < size_")]),
 ("rs-open-hdr", "bug", K, [(MQ, "*pDataSize != shmSize", "*pDataSize <= 0")]),
 ("rs-open-hdr2", "bug", K, [(MQ, "*pDataSize != shmSize", "*pDataSize < shmSize")]),
 ("rs-open-hdr3", "bug", K, [(MQ, "*pDataSize != shmSize", "pDataSize[1] == shmSize")]),
 ("rs-wait-inf", "bug", K, [(MQ, "rwLock_->wait(1000)", "rwLock_->wait(-1)")]),
 ("rs-wait-none", "bug", K, [(MQ, "        if (!rwLock_->wait(1000)) {\n", "        if (rwLock_->valid()) {\n")]),
 ("rs-no-release", "bug", K, [(MQ, "        rwLock_->release();\n\n        result = true;", "        result = true;")]),
 ("rs-none", "bug", K, [(MQ, "        if (!rwLock_->wait(1000)) {\n", "        if (rwLock_->valid()) {\n"), (MQ, "        rwLock_->release();\n\n        result = true;", "        result = true;")]),
 ("rs-release-ok", "bug", K, [(MQ, "        if (!rwLock_->wait(1000)) {\n", "        const bool got = rwLock_->wait(1000);\n        if (!got) {\n"), (MQ, "        rwLock_->release();\n\n        result = true;", "        if (got)\n            rwLock_->release();\n\n        result = true;")]),
 ("rs-release-twice", "bug", K, [(MQ, "        if (!rwLock_->wait(1000)) {\n", "        if (!rwLock_->wait(1000)) {\n            rwLock_->release();\n")]),
 ("rs-clear-early", "bug", K, [(MQ, "        memset(data, 0, (size_t)shmSize);\n", ""), (MQ, '        std::string rwLockName = path + "_rwlock";\n        rwLock_ = std::make_shared<Semaphore>();\n        if (!rwLock_->open(rwLockName.c_str(), 1, 1)', '        memset(shm_->data(), 0, (size_t)shmSize);\n        std::string rwLockName = path + "_rwlock";\n        rwLock_ = std::make_shared<Semaphore>();\n        if (!rwLock_->open(rwLockName.c_str(), 1, 1)')]),
 ("rs-clear-late", "bug", K, [(MQ, "        *pDataSize = shmSize;\n\n        rwLock_->release();\n", "        rwLock_->release();\n        *pDataSize = shmSize;\n")]),
 # same
 ("rs-same-alive", "same", K, [(S, CALL, "        std::shared_ptr<MessageQueue> cached = it->second;\n        if (!cached->isAlive()) {\n            targetCallMsgQueues_.erase(channelName);\n        }\n        else {\n            return cached;\n        }\n")]),
 ("rs-same-linked", "same", K, [(SHM, LK, "if (fd_ < 0) return false;\n    if (fstat(fd_, &st) != 0) return false;\n    const bool gone = st.st_nlink == 0;\n    return !gone && size_ == st.st_size;")]),
 ("rs-same-helper", "same", K, [(SHM, "    struct stat st;\n    if (fstat(fd_, &st) != 0 || st.st_size < size_) {", "    if (!largeEnough(fd_, size_)) {"), (SHM, "bool SharedMemory::open() {\n    if (path_.empty()) {\n        return false;\n    }\n\n    fd_ = shm_open", "static bool largeEnough(int fd, int64_t size) {\n    struct stat st;\n    return fstat(fd, &st) == 0 && st.st_size >= size;\n}\n\nbool SharedMemory::open() {\n    if (path_.empty()) {\n        return false;\n    }\n\n    fd_ = shm_open")]),
 ("rs-same-hdr", "same", K, [(MQ, "        const int64_t* pDataSize = (const int64_t*)shm_->data();\n        if (*pDataSize != shmSize) {", "        int64_t recorded = 0;\n        memcpy(&recorded, shm_->data(), sizeof(recorded));\n        if (!(recorded == shmSize)) {")]),
 ("rs-same-hdr2", "same", K, [(MQ, "        const int64_t* pDataSize = (const int64_t*)shm_->data();\n        if (*pDataSize != shmSize) {", "        const int64_t recorded = ((const int64_t*)shm_->data())[0];\n        if (recorded < shmSize || recorded > shmSize) {")]),
 ("rs-same-wait", "same", K, [(MQ, "        if (!rwLock_->wait(1000)) {\n", "        const bool got = rwLock_->wait(500);\n        if (!got) {\n")]),
 ("rs-same-count", "same", K, [(S, RESP, "        const bool alive = it->second->isAlive();\n        if (!alive)\n            targetRespMsgQueues_.erase(it);\n        if (alive)\n            return targetRespMsgQueues_.at(channelName);\n")]),
 ("rs-same-emplace", "same", K, [(S, "targetCallMsgQueues_[channelName] = queue;", "targetCallMsgQueues_.emplace(channelName, queue);")]),
]
