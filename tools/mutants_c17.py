Q = "src/semaphore.cpp"
EV = "src/event.cpp"
MQ = "src/message_queue.cpp"
M = [
    ("c17-no-normalise", "bug", ["C17"], [(Q, "        if (ts.tv_nsec >= 1000000000) {\n            ts.tv_sec += 1;\n            ts.tv_nsec -= 1000000000;\n        }\n", "")]),
    ("c17-boundary", "bug", ["C17"], [(Q, "ts.tv_nsec >= 1000000000", "ts.tv_nsec > 1000000000")]),
    ("c17-unit", "bug", ["C17"], [(Q, "(ms % 1000) * 1000000", "(ms % 1000) * 1000")]),
    ("c17-no-sec", "bug", ["C17"], [(Q, "        ts.tv_sec += (ms / 1000);\n", "")]),
    ("c17-mod", "bug", ["C17"], [(Q, "(ms % 1000) * 1000000", "(ms % 100) * 1000000")]),
    ("c17-mono", "bug", ["C17"], [(Q, "CLOCK_REALTIME", "CLOCK_MONOTONIC")]),
    ("c17-eintr", "bug", ["C17"], [(Q, "        } while (ret != 0 && errno == EINTR);\n        return (ret == 0);\n    }\n", "        } while (false);\n        return (ret == 0);\n    }\n")]),
    ("c17-eintr2", "bug", ["C17"], [(Q, "        ret = sem_wait(sh_->named_);\n    } while (ret != 0 && errno == EINTR);", "        ret = sem_wait(sh_->named_);\n    } while (ret != 0 && errno == EAGAIN);")]),
    ("c17-retry-any", "same", ["C17"], [(Q, "        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {", "        while (sem_wait(sh_->named_) == -1 && EINTR == errno) {")]),
    ("c17-zero", "bug", ["C17"], [(Q, "    if (ms >= 0) {\n        timespec", "    if (ms > 0) {\n        timespec")]),
    ("c17-moved", "bug", ["C17"], [(Q, "        int ret = 0;\n        do {\n            ret = sem_timedwait", "        int ret = 0;\n        do {\n            clock_gettime(CLOCK_REALTIME, &ts);\n            ts.tv_sec += ms / 1000; ts.tv_nsec += (ms % 1000) * 1000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }\n            ret = sem_timedwait")]),
    ("c17-ret", "bug", ["C17"], [(Q, "        return (ret == 0);\n    }\n", "        return (ret == 0 || errno == ETIMEDOUT);\n    }\n")]),
    ("c17-lock-arg", "bug", ["C17"], [(MQ, "return rwLock_->wait(timeoutMS);", "return rwLock_->wait(timeoutMS * 1000);")]),
    ("c17-wait-arg", "bug", ["C17"], [(MQ, "return readSmp_->wait(ms);", "return readSmp_->wait(ms / 10);")]),
    ("c17-helper", "same", ["C17"], [(Q, "void Semaphore::wait() {", "static timespec deadline(int64_t ms) {\n    timespec t;\n    clock_gettime(CLOCK_REALTIME, &t);\n    int64_t ns = t.tv_nsec + (ms % 1000) * 1000000;\n    t.tv_sec += ms / 1000 + ns / 1000000000;\n    t.tv_nsec = ns % 1000000000;\n    return t;\n}\n\nvoid Semaphore::wait() {"),
        (Q, """        timespec ts;

        timespec ts_now;
        clock_gettime(CLOCK_REALTIME, &ts_now);

        ts.tv_sec = ts_now.tv_sec;
        ts.tv_nsec = ts_now.tv_nsec;

        ts.tv_sec += (ms / 1000);
        ts.tv_nsec += ((ms % 1000) * 1000000);
        if (ts.tv_nsec >= 1000000000) {
            ts.tv_sec += 1;
            ts.tv_nsec -= 1000000000;
        }
""", "        timespec ts = deadline(ms);\n")]),
    ("c17-total", "same", ["C17"], [(Q, """        ts.tv_sec += (ms / 1000);
        ts.tv_nsec += ((ms % 1000) * 1000000);
        if (ts.tv_nsec >= 1000000000) {
            ts.tv_sec += 1;
            ts.tv_nsec -= 1000000000;
        }
""", """        const int64_t rest = ms - (ms / 1000) * 1000;
        ts.tv_nsec += rest * 1000000;
        ts.tv_sec += ms / 1000;
        while (ts.tv_nsec >= 1000000000) {
            ts.tv_sec += 1;
            ts.tv_nsec -= 1000000000;
        }
""")]),
    ("c17-try", "same", ["C17"], [(Q, "        int ret = 0;\n        do {\n            ret = sem_timedwait", "        if (sem_trywait(sh_->named_) == 0)\n            return true;\n        int ret = 0;\n        do {\n            ret = sem_timedwait")]),
    ("c17-switch", "same", ["C17"], [(Q, "        int ret = 0;\n        do {\n            ret = sem_timedwait(sh_->named_, &ts);\n        } while (ret != 0 && errno == EINTR);\n        return (ret == 0);\n", "        for (;;) {\n            if (sem_timedwait(sh_->named_, &ts) == 0) return true;\n            if (errno != EINTR) return false;\n        }\n")]),
    ("c17-ev-unit", "bug", ["C17"], [(EV, "std::chrono::milliseconds(millseconds)", "std::chrono::microseconds(millseconds)")]),
    ("c17-ev-nopred", "bug", ["C17"], [(EV, "settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });", "settedCondVar_.wait(ul);")]),
    ("c17-ev-neg", "bug", ["C17"], [(EV, "millseconds < 0", "millseconds <= 0")]),
    ("c17-ev-true", "bug", ["C17"], [(EV, "    return (isSet_ || isCancelled_);\n}\n}", "    return true;\n}\n}")]),
    ("c17-ev-while", "same", ["C17"], [(EV, "settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });", "while (!isSet_ && !isCancelled_)\n            settedCondVar_.wait(ul);")]),
    ("c17-ev-seconds", "same", ["C17"], [(EV, "std::chrono::milliseconds(millseconds)", "std::chrono::microseconds(millseconds * 1000)")]),
]
