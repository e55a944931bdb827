Q = "src/message_queue.cpp"
H = "src/shared_memory.cpp"
P = "src/semaphore.cpp"
M = [
    ("c13-fd-leak-ftruncate", "bug", ["C13"], [(H, '", err: %d.\\n", size_, err);\n        ::close(fd_);\n        fd_ = -1;\n        shm_unlink', '", err: %d.\\n", size_, err);\n        fd_ = -1;\n        shm_unlink')]),
    ("c13-fd-stays-set", "bug", ["C13"], [(H, '", err: %d.\\n", size_, err);\n\n        ::close(fd_);\n        fd_ = -1;\n        return false;', '", err: %d.\\n", size_, err);\n\n        ::close(fd_);\n        return false;')]),
    ("c13-no-munmap", "bug", ["C13"], [(H, "            munmap(data_, size_);\n", "")]),
    ("c13-open-unlinks", "bug", ["C13"], [(H, ("        ::close(fd_);\n        fd_ = -1;\n        return false;\n", 2), "        ::close(fd_);\n        fd_ = -1;\n        shm_unlink(path_.c_str());\n        return false;\n")]),
    ("c13-always-unlink", "bug", ["C13"], [(H, "        if (shmCreator_) {\n", "        {\n")]),
    ("c13-never-unlink", "bug", ["C13"], [(H, "    shmCreator_ = true;\n", "")]),
    ("c13-isexist-leak", "bug", ["C13"], [(P, "    ::sem_close(sem);\n    return true;", "    return true;")]),
    ("c13-sem-not-closed", "bug", ["C13"], [(P, "        ::sem_close(sh_->named_);\n", "")]),
    ("c13-handle-not-deleted", "bug", ["C13"], [(P, "        ::sem_close(sh_->named_);\n        sh_->named_ = SEM_FAILED;\n#endif\n\n        delete sh_;", "        ::sem_close(sh_->named_);\n        sh_->named_ = SEM_FAILED;\n#endif\n")]),
    ("c13-fail-open-reset-only", "bug", ["C13"], [(Q, ("        if (rwLock_) {\n            if (rwLock_->valid())\n                rwLock_->close();\n", 2), "        if (rwLock_) {\n")]),
    ("c13-dtor-no-close", "bug", ["C13"], [(Q, "MessageQueue::~MessageQueue() noexcept {\n    close();", "MessageQueue::~MessageQueue() noexcept {\n")]),
    ("c13-same-helper", "same", ["C13"], [(H, "void SharedMemory::close() {\n    if (fd_ != -1) {\n        //", "static void dropName(const std::string& p, bool& creator) {\n    if (creator && !p.empty()) shm_unlink(p.c_str());\n    creator = false;\n}\n\nvoid SharedMemory::close() {\n    if (fd_ == -1) return;\n    {\n        //"), (H, "        if (shmCreator_) {\n            if (!path_.empty()) {\n                shm_unlink(path_.c_str());\n            }\n            shmCreator_ = false;\n        }\n", "        dropName(path_, shmCreator_);\n")]),
    ("c13-same-order", "same", ["C13"], [(Q, "    if (shm_) {\n        if (shm_->valid())\n            shm_->close();\n        shm_.reset();\n    }\n\n    if (rwLock_) {\n        if (rwLock_->valid())\n            rwLock_->close();\n        rwLock_.reset();\n    }\n", "    if (rwLock_) {\n        rwLock_->close();\n        rwLock_ = nullptr;\n    }\n    if (shm_ && shm_->valid()) {\n        shm_->close();\n    }\n    shm_ = nullptr;\n")]),
    ("c13-same-local-fd", "same", ["C13"], [(H, "    fd_ = shm_open(path_.c_str(), O_CREAT | O_RDWR, 0666);\n    if (fd_ < 0) {", "    const int handle = shm_open(path_.c_str(), O_RDWR | O_CREAT, 0666);\n    fd_ = handle;\n    if (handle == -1) {")]),
]
