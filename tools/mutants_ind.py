# bugs written from the statements of the properties alone
S, R, C, V, Q = "src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/veigar.cpp", "src/message_queue.cpp"
VI, CI, CH, SH, EV = "include/veigar/veigar.inl", "include/veigar/call_dispatcher.inl", "include/veigar/call_dispatcher.h", "src/string_helper.cpp", "src/event.cpp"
M = []
def bug(n, c, *e): M.append(("ind-" + n, "bug", c if isinstance(c, list) else [c], list(e)))
def same(n, c, *e): M.append(("ind-" + n, "same", c if isinstance(c, list) else [c], list(e)))

SU = """        assert(sender_);
        if (sender_) {
            if (sender_->isInit()) {
                sender_->uninit();
            }
        }

"""
RU = """        assert(respDispatcher_);
        if (respDispatcher_) {
            if (respDispatcher_->isInit()) {
                respDispatcher_->uninit();
            }
        }

"""
bug("01-uninit-order", ["C01", "C03", "C14"], (V, SU + RU, RU + SU))
bug("01-no-release-on-failure", "C01", (S, "                respDisp_->releaseCall(cm.callId);\n\n                CallResult", "                CallResult"))
bug("01-cancel-after-pop", "C01", (S, "            callList_.pop();\n            callListMutex_.unlock();\n\n            respDisp_", "            callList_.pop();\n            callListMutex_.unlock();\n\n            if (callListSetEvent_.isCancelled()) {\n                free(cm.data);\n                break;\n            }\n\n            respDisp_"))
bug("01-no-claim", "C01", (R, "                    retMeta = std::move(itCall->second);\n                    ongoingCalls_.erase(itCall);", "                    retMeta = itCall->second;"))
bug("01-parse-error-dropped", "C01", (R, """StringHelper::StringPrintf("An exception occurred during parsing response message: %s.", e.what());
            }""", """StringHelper::StringPrintf("An exception occurred during parsing response message: %s.", e.what());
                continue;
            }"""))
# init and uninit do not run concurrently with calls
same("01-stop-check-outside", "C01", (S, """    callListMutex_.lock();
    if (stopEvent_.isSet()) {
        callListMutex_.unlock();
        return false;
    }
    callList_.emplace""", """    if (stopEvent_.isSet()) {
        return false;
    }
    callListMutex_.lock();
    callList_.emplace"""))
bug("01-cb-only-success", "C01", (R, "if (retMeta.cb) {", "if (retMeta.cb && callRet.errCode == ErrorCode::SUCCESS) {"))
bug("01-uninit-promises-only", "C01", (R, "        completeCall(it.second, std::move(failedRet));", "        if (it.second.metaType == 0) {\n            completeCall(it.second, std::move(failedRet));\n        }"))
# the registry is destroyed by the same uninit
same("01-uninit-not-swap", "C01", (R, "    pendingCalls.swap(ongoingCalls_);", "    pendingCalls = ongoingCalls_;"))
bug("01-send-fail-silent", "C01", (VI, """            if (errMsg.empty()) {
                failedRet.errorMessage = "Send failed: Unknown.";
            }
            else {
                failedRet.errorMessage = "Send failed: " + errMsg;
            }

            p->set_value(std::move(failedRet));""", """            if (!errMsg.empty()) {
                failedRet.errorMessage = "Send failed: " + errMsg;
                p->set_value(std::move(failedRet));
            }"""))
bug("01-addcall-true", "C01", (S, """        callListMutex_.unlock();
        return false;
    }
    callList_""", """        callListMutex_.unlock();
        return true;
    }
    callList_"""))
bug("01-one-unsent", "C01", (S, "    while (!unsentCalls.empty()) {", "    if (!unsentCalls.empty()) {"))
bug("01-no-mq-continue", "C01", (S, """                else {
                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
                }

            } catch (std::exception& e) {
                if (mq && locked) {
                    mq->processRWUnlock();
                }
                veigar::log(""", """                else {
                    free(cm.data);
                    respDisp_->releaseCall(cm.callId);
                    continue;
                }

            } catch (std::exception& e) {
                if (mq && locked) {
                    mq->processRWUnlock();
                }
                veigar::log("""))
bug("01-double-on-push-failure", "C01", (S, """                                errMsg = "Unable to push message to queue.";""", """                                errMsg = "Unable to push message to queue.";
                                CallResult r;
                                r.errorMessage = errMsg;
                                RespDispatcher::completeCall(cm.resultMeta, std::move(r));"""))

same("02-pop-retry-unlocked", "C02", (C, """            try {
                callPac.reserve_buffer((size_t)written);
            }""", """            impl_->callMsgQueue_->processRWUnlock();
            try {
                callPac.reserve_buffer((size_t)written);
            }"""), (C, """Pre-alloc call memory(%" PRId64 " bytes) failed: %s.\\n", written, e.what());
                impl_->callMsgQueue_->processRWUnlock();
                continue;
            }
""", """Pre-alloc call memory(%" PRId64 " bytes) failed: %s.\\n", written, e.what());
                continue;
            }
            if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
                continue;
            }
"""))
bug("02-num-before-lock", "C02", (R, """        if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {""", """        if (respMsgQueue_->msgNumber() == 0) {
            continue;
        }

        if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {"""))
bug("02-create-release-early", "C27", (Q, "        uint8_t* data = shm_->data();\n        memset", "        rwLock_->release();\n\n        uint8_t* data = shm_->data();\n        memset"), (Q, "        *pDataSize = shmSize;\n\n        rwLock_->release();\n", "        *pDataSize = shmSize;\n"))
bug("02-self-no-lock", "C02", (S, "                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n                    if (locked) {\n                        if (checkSpaceAndWait(mq, rm", "                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n                    if (locked || mq == selfRespMQ_) {\n                        if (checkSpaceAndWait(mq, rm"))
bug("02-space-before-lock", "C02", (S, "                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n                    if (locked) {\n                        if (checkSpaceAndWait(mq, cm", "                    bool w = false;\n                    if (!mq->checkSpaceSufficient(cm.dataSize, w)) {\n                        stopEvent_.wait(1);\n                    }\n                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());\n                    if (locked) {\n                        if (checkSpaceAndWait(mq, cm"))
bug("02-relock-unchecked", "C02", (S, """        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
        if (!locked) {
            break;
        }
    } while""", """        mq->processRWLock(veigar_->timeoutOfRWLock());
        locked = true;
    } while"""))
bug("02-unlock-on-fail-twice", "C02", (S, """                        if (locked) {
                            locked = false;
                            mq->processRWUnlock();
                        }
                    }
                    else {
                        ec = ErrorCode::TIMEOUT;
                        errMsg = "Get rw-lock timeout when push call.";
                    }""", """                        locked = false;
                        mq->processRWUnlock();
                    }
                    else {
                        ec = ErrorCode::TIMEOUT;
                        errMsg = "Get rw-lock timeout when push call.";
                    }"""))
bug("02-unlock-between", "C02", (R, "        respPac.buffer_consumed((size_t)written);\n\n        respMsgQueue_->processRWUnlock();", "        respPac.buffer_consumed((size_t)written);\n\n        respMsgQueue_->processRWUnlock();\n        if (respMsgQueue_->msgNumber() > 0) {\n            respMsgQueue_->notifyRead();\n        }"))
bug("02-lock-sem-2", "C02", (Q, "if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {", "if (!rwLock_->open(rwLockName.c_str(), (int)msgMaxNumber_, 1)) {"))

bug("03-names-nolock", "C03", (CH, "        std::lock_guard<std::mutex> lg(funcsMutex_);\n        for", "        for"))
bug("03-exist-nolock", "C03", (C, "    std::lock_guard<std::mutex> lg(funcsMutex_);\n    auto pos", "    auto pos"))
bug("03-bind-nolock", "C03", (CI, "    std::lock_guard<std::mutex> lg(funcsMutex_);\n    return funcs_.insert(\n        std::make_pair(name, [func", "    return funcs_.insert(\n        std::make_pair(name, [func"))
bug("03-claim-unlocked", "C03", (R, "                    retMeta = std::move(itCall->second);\n                    ongoingCalls_.erase(itCall);", "                    ongoingCallsMutex_.unlock();\n                    retMeta = std::move(itCall->second);\n                    ongoingCallsMutex_.lock();\n                    ongoingCalls_.erase(itCall);"))
bug("03-static-buf", "C03", (C, "    int64_t written = 0L;", "    static int64_t written = 0L;"))
bug("03-stop-plain", "C03", (C, "std::atomic_bool stop_ = {false};", "bool stop_ = false;"), (C, "impl_->stop_.store(false);", "impl_->stop_ = false;"), (C, "impl_->stop_.store(true);", "impl_->stop_ = true;"), (C, "impl_->stop_.load()", "impl_->stop_") if False else (C, ("impl_->stop_.load()", "all"), "impl_->stop_"))
bug("03-event-isset", "C03", (EV, "    std::unique_lock<std::mutex> ul(m_);\n    return isSet_;", "    return isSet_;"))
bug("03-event-cancelled", "C03", (EV, "    std::unique_lock<std::mutex> ul(m_);\n    return isCancelled_;", "    return isCancelled_;"))
bug("03-timeout-plain", "C03", (V, "std::atomic<uint32_t> processRWTimeout_ = { 30 };", "uint32_t processRWTimeout_ = 30;"), (V, "impl_->processRWTimeout_.store(ms);", "impl_->processRWTimeout_ = ms;"), (V, "impl_->processRWTimeout_.load()", "impl_->processRWTimeout_"))
bug("03-empty-check", "C03", (S, "            CallMeta cm;\n            callListMutex_.lock();\n            if (callList_.empty()) {\n                callListMutex_.unlock();\n                break;\n            }", "            CallMeta cm;\n            if (callList_.empty()) {\n                break;\n            }\n            callListMutex_.lock();\n            if (callList_.empty()) {\n                callListMutex_.unlock();\n                break;\n            }"))
bug("03-ongoing-size", "C03", (R, "                else {\n                    veigar::log(\"Veigar: Warning: Unable to find call: %s, Going-Call number: %zu.\\n\", callId.c_str(), ongoingCalls_.size());\n                    ongoingCallsMutex_.unlock();", "                else {\n                    ongoingCallsMutex_.unlock();\n                    veigar::log(\"Veigar: Warning: Unable to find call: %s, Going-Call number: %zu.\\n\", callId.c_str(), ongoingCalls_.size());"))
bug("03-addresp", "C03", (S, "    respList_.emplace(rm);\n    respListMutex_.unlock();", "    respListMutex_.unlock();\n    respList_.emplace(rm);"))
same("03-wrong-mutex", "C03", (S, "    std::lock_guard<std::mutex> lg(targetRespMQsMutex_);", "    std::lock_guard<std::mutex> lg(targetCallMQsMutex_);"))
bug("03-fmt-static", "C03", (SH, "    char* msgBuf = nullptr;\n", "    static char* msgBuf = nullptr;\n"))
bug("03-find-iter", "C03", (C, """    AdaptorType func;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
        if (itFunc != funcs_.cend()) {
            func = itFunc->second;
        }
    }
""", """    AdaptorType func;
    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        itFunc = funcs_.find(funcName);
    }
    if (itFunc != funcs_.cend()) {
        func = itFunc->second;
    }
"""))
bug("03-target-clear", "C03", (S, "    targetRespMQsMutex_.lock();\n    for", "    for"), (S, "    targetRespMsgQueues_.clear();\n    targetRespMQsMutex_.unlock();", "    targetRespMsgQueues_.clear();")) if False else None

bug("04-complete-locked", "C04", (R, "    pendingCalls.swap(ongoingCalls_);\n    ongoingCallsMutex_.unlock();\n", "    pendingCalls.swap(ongoingCalls_);\n"), (R, "        completeCall(it.second, std::move(failedRet));\n    }\n", "        completeCall(it.second, std::move(failedRet));\n    }\n    ongoingCallsMutex_.unlock();\n"))
bug("04-func-locked", "C04", (C, """    AdaptorType func;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        std""", """    AdaptorType func;
    std::lock_guard<std::mutex> lg(funcsMutex_);
    {
        std"""))
bug("04-unsent-locked", "C04", (S, "    unsentCalls.swap(callList_);\n    callListMutex_.unlock();\n", "    unsentCalls.swap(callList_);\n"), (S, "        RespDispatcher::completeCall(cm.resultMeta, std::move(failedRet));\n    }\n\n    // release all resp", "        RespDispatcher::completeCall(cm.resultMeta, std::move(failedRet));\n    }\n    callListMutex_.unlock();\n\n    // release all resp"))
bug("04-bind-exist-locked", "C04", (CI, """    if (name.empty() || isFuncNameExist(name)) {
        return false;
    }

    std::lock_guard<std::mutex> lg(funcsMutex_);
    return funcs_.insert(
        std::make_pair(name, [func""", """    std::lock_guard<std::mutex> lg(funcsMutex_);
    if (name.empty() || isFuncNameExist(name)) {
        return false;
    }

    return funcs_.insert(
        std::make_pair(name, [func"""))
bug("04-join-locked", "C04", (S, "    callListSetEvent_.cancel();\n    respListSetEvent_.cancel();\n", "    callListSetEvent_.cancel();\n    respListSetEvent_.cancel();\n    std::lock_guard<std::mutex> lgCalls(callListMutex_);\n"), (S, "    callListMutex_.lock();\n    unsentCalls.swap(callList_);\n    callListMutex_.unlock();", "    unsentCalls.swap(callList_);"))
bug("04-complete-in-claim", "C04", (R, "                ongoingCallsMutex_.unlock();\n\n                if (retMeta.metaType", "                if (retMeta.metaType == 1 && retMeta.cb && std::get<2>(r).is_nil()) {\n                    callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));\n                    callRet.errCode = ErrorCode::SUCCESS;\n                    completeCall(retMeta, std::move(callRet));\n                    ongoingCallsMutex_.unlock();\n                    continue;\n                }\n                ongoingCallsMutex_.unlock();\n\n                if (retMeta.metaType"))
bug("04-order", "C04", (S, "    callListMutex_.lock();\n    if (stopEvent_", "    callListMutex_.lock();\n    respListMutex_.lock();\n    respListMutex_.unlock();\n    if (stopEvent_"), (S, "    respListMutex_.lock();\n    if (stopEvent_", "    respListMutex_.lock();\n    callListMutex_.lock();\n    callListMutex_.unlock();\n    if (stopEvent_"))
same("04-sem-held-cb", "C04", (S, """                    else {
                        ec = ErrorCode::TIMEOUT;
                        errMsg = "Get rw-lock timeout when push call.";
                    }""", """                    else {
                        ec = ErrorCode::TIMEOUT;
                        errMsg = "Get rw-lock timeout when push call.";
                    }"""), (S, """                            ec = ErrorCode::TIMEOUT;
                            errMsg = "Waiting for call queue availability timeout.";""", """                            ec = ErrorCode::TIMEOUT;
                            errMsg = "Waiting for call queue availability timeout.";
                            CallResult timeoutRet;
                            timeoutRet.errCode = ec;
                            timeoutRet.errorMessage = errMsg;
                            respDisp_->releaseCall(cm.callId);
                            RespDispatcher::completeCall(cm.resultMeta, std::move(timeoutRet));
                            cm.resultMeta = ResultMeta();"""))

same("05-after-push", "C05", (S, "            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);\n\n", ""), (S, "                                mq->notifyRead();\n                                ec = ErrorCode::SUCCESS;\n                            }\n                            else {\n                                errMsg = \"Unable to push message to queue.\";", "                                mq->notifyRead();\n                                respDisp_->addOngoingCall(cm.callId, cm.resultMeta);\n                                ec = ErrorCode::SUCCESS;\n                            }\n                            else {\n                                errMsg = \"Unable to push message to queue.\";"))
bug("05-remote-only", ["C05", "C01"], (S, "            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);\n\n            Err", "            if (cm.channel != veigar_->channelName()) {\n                respDisp_->addOngoingCall(cm.callId, cm.resultMeta);\n            }\n\n            Err"))
bug("05-other-id", ["C05", "C09"], (S, "respDisp_->addOngoingCall(cm.callId,", "respDisp_->addOngoingCall(cm.channel,"))
bug("05-after-dispatch-thread", ["C09", "C15"], (R, "    ongoingCalls_[callId] = retMeta;", "    ongoingCalls_.emplace(callId.substr(0, 40), retMeta);"))

bug("06-notify-if-first", "C06", (S, "                            if (mq->pushBack(cm.data, cm.dataSize)) {\n                                mq->notifyRead();", "                            const bool first = mq->msgNumber() == 0;\n                            if (mq->pushBack(cm.data, cm.dataSize)) {\n                                if (first) {\n                                    mq->notifyRead();\n                                }"))
bug("06-set-if-first", "C06", (S, "    callList_.emplace(cm);\n    callListMutex_.unlock();\n\n    callListSetEvent_.set();", "    callList_.emplace(cm);\n    const bool first = callList_.size() == 1;\n    callListMutex_.unlock();\n\n    if (!first) {\n        return true;\n    }\n    callListSetEvent_.set();"))
bug("06-unset-in-empty", "C06", (S, "            if (respList_.empty()) {\n                respListMutex_.unlock();", "            if (respList_.empty()) {\n                respListMutex_.unlock();\n                respListSetEvent_.unset();"))
bug("06-drain-extra", "C06", (C, "        if (impl_->stop_.load())\n            break;\n\n        if (!impl", "        if (impl_->stop_.load())\n            break;\n\n        impl_->callMsgQueue_->waitForRead(0);\n\n        if (!impl"))
bug("06-pop-fail-no-renotify", "C06", (R, "                respMsgQueue_->notifyRead();  // the message is still queued, restore its read signal\n", "") if False else (R, "            respMsgQueue_->notifyRead();  // the message is still queued, restore its read signal\n", "            if (respMsgQueue_->msgNumber() > 1) {\n                respMsgQueue_->notifyRead();\n            }\n"))
bug("06-event-once", "C06", (EV, "    isSet_ = true;\n    settedCondVar_.notify_all();", "    if (!isSet_) {\n        isSet_ = true;\n        settedCondVar_.notify_one();\n    }"))
bug("06-wait-eats", "C06", (EV, "    return (isSet_ || isCancelled_);\n}\n}", "    const bool ret = (isSet_ || isCancelled_);\n    if (!isCancelled_) {\n        isSet_ = false;\n    }\n    return ret;\n}\n}") if False else (EV, "        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });", "        if (settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds)) == std::cv_status::timeout) {\n            return false;\n        }"))

bug("12-front-copy", "C12", (S, "            if (cm.data) {\n                free(cm.data);\n            }\n        }\n    }\n}", "            if (cm.data && ec == ErrorCode::SUCCESS) {\n                free(cm.data);\n            }\n        }\n    }\n}"))
bug("12-send-exc", "C12", (V, "    if (!impl_->sender_->addResp(rm)) {\n        free(rm.data);", "    if (!impl_->sender_->addResp(rm)) {"))
bug("12-buffer-ptr", "C31", (V, "    rm.data = (uint8_t*)malloc(bufSize);\n    if (!rm.data) {\n        errMsg = \"Unable to allocate memory.\";\n        return false;\n    }\n    memcpy(rm.data, buf, bufSize);", "    rm.data = (uint8_t*)buf;"))
bug("12-calloc-size", "C31", (V, "    cm.data = (uint8_t*)malloc(cm.dataSize);", "    cm.data = (uint8_t*)malloc(cm.dataSize - 1);"))
bug("12-cap-copy", "C31", (V, "memcpy(rm.data, buf, bufSize);", "memcpy(rm.data, buf, bufSize < 65536 ? bufSize : 65536);"))

bug("21-callret-default", "C21", ("include/veigar/call_result.h", "ErrorCode errCode = ErrorCode::FAILED;", "ErrorCode errCode = ErrorCode::SUCCESS;"))
same("21-exc-success", "C21", (R, "                callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));\n\n                // Last set success.\n                callRet.errCode = ErrorCode::SUCCESS;", "                callRet.errCode = ErrorCode::SUCCESS;\n                callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));"))
bug("21-move-noerr", "C21", ("include/veigar/call_result.h", "            errCode = std::move(other.errCode);\n", ""))
bug("21-move-nomsg", "C21", ("include/veigar/call_result.h", "            errorMessage = std::move(other.errorMessage);\n", ""))
bug("21-convert-true", "C21", ("include/veigar/call_result.h", "            result = false;", "            result = obj.get().is_nil() ? true : false;"))
bug("21-setresult", ["C21", "C24", "C09"], ("src/response.cpp", "                  error_ ? error_->get() : veigar_msgpack::object(),\n                  result_ ? result_->get() : veigar_msgpack::object());", "                  result_ ? result_->get() : veigar_msgpack::object(),\n                  error_ ? error_->get() : veigar_msgpack::object());"))
bug("21-both", "C10", ("src/response.cpp", "                  error_ ? error_->get() : veigar_msgpack::object(),", "                  error_ && !result_ && error_->get().via.str.size < 64 ? error_->get() : veigar_msgpack::object(),"))
bug("21-zone", "C32", ("include/veigar/detail/response.h", "    inst.error_ = std::make_shared<veigar_msgpack::object_handle>(o, std::move(z));", "    inst.error_ = std::make_shared<veigar_msgpack::object_handle>(o, veigar::detail::make_unique<veigar_msgpack::zone>());"))
bug("21-timeout-failed", "C21", (VI, "        cr.errCode = ErrorCode::TIMEOUT;\n        cr.errorMessage = \"Waiting for the call result timeout.\";", "        cr.errCode = ErrorCode::TIMEOUT;\n        cr.errCode = ErrorCode::SUCCESS;"))
bug("21-send-ec", "C01", (S, "                        ec = ErrorCode::TIMEOUT;\n                        errMsg = \"Get rw-lock timeout when push call.\";", "                        ec = ErrorCode::SUCCESS;\n                        errMsg = \"Get rw-lock timeout when push call.\";"))

bug("22-timeout-unit", "C30", (V, "cm.timeout = (int64_t)timeoutMS * 1000;", "cm.timeout = (int64_t)timeoutMS;"))
bug("22-clock-unit", "C30", ("src/time_util.cpp", "tv.tv_sec * 1000000 + tv.tv_usec;", "tv.tv_sec * 1000 + tv.tv_usec / 1000;"))
same("26-wait-unit", ["C26", "C17"], (S, "int64_t ms = (timeout - used) / 1000;", "int64_t ms = (timeout - used);"))
bug("26-used-inverse", "C30", (S, "if (used >= timeout) {", "if (used < 0) {"))
bug("26-space-nolimit", "C30", (S, "        if (used >= timeout) {\n            break;\n        }\n", ""))
bug("26-start-now", "C30", (S, "int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;", "startCallTimePoint = TimeUtil::GetCurrentTimestamp();\n        int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;"))
bug("26-resp-timeout", "C30", (V, "rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;", "rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT;"))
bug("26-uninit-hang", "C30", (S, "        if (stopEvent_.wait(waitMS)) {\n            break;  // user call uninit, exit now!\n        }", "        stopEvent_.wait(waitMS);"))

same("25-join-not-cleared", "C25", (R, "    workers_.clear();\n\n    if (respMsgQueue_) {", "    if (respMsgQueue_) {"), (V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_ = false;", "        isInit_ = false;"))
bug("25-sender-flag", "C25", (S, "    selfRespMQ_.reset();\n\n    isInit_ = false;", "    selfRespMQ_.reset();"), (V, "            sender_ = std::make_shared<Sender>(veigar_);", "            if (!sender_) {\n                sender_ = std::make_shared<Sender>(veigar_);\n            }"), (V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_ = false;", "        respDispatcher_.reset();\n\n        isInit_ = false;"))
bug("25-uninit-keeps-flag", "C25", (V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_ = false;", "        sender_.reset();\n        respDispatcher_.reset();"))
same("25-queue-not-reset", "C25", (C, "        impl_->callMsgQueue_->close();\n        impl_->callMsgQueue_.reset();", "        impl_->callMsgQueue_.reset();"))
M = [m for m in M if m]
