"""Behaviour-preserving edits as another developer might make them, against all checks."""
S, R, C, V, MQ, SHM, SEM, EV = "src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/veigar.cpp", "src/message_queue.cpp", "src/shared_memory.cpp", "src/semaphore.cpp", "src/event.cpp"
RH, SH, MQH, CDH, CDI, VI = "src/resp_dispatcher.h", "src/sender.h", "src/message_queue.h", "include/veigar/call_dispatcher.h", "include/veigar/call_dispatcher.inl", "include/veigar/veigar.inl"
A = ["C%02d" % i for i in range(1, 28)]
M = []
def same(n, *e): M.append(("rf-" + n, "same", A, list(e)))

# sender: queue element taken by a helper
same("s-takecall",
 (SH, "    void sendCallThreadProc();\n", "    bool takeCall(CallMeta& cm);\n    void sendCallThreadProc();\n"),
 (S, "            CallMeta cm;\n            callListMutex_.lock();\n            if (callList_.empty()) {\n                callListMutex_.unlock();\n                break;\n            }\n            cm = callList_.front();\n            callList_.pop();\n            callListMutex_.unlock();\n", "            CallMeta cm;\n            if (!takeCall(cm)) {\n                break;\n            }\n"),
 (S, "void Sender::sendCallThreadProc() {", "bool Sender::takeCall(CallMeta& cm) {\n    std::lock_guard<std::mutex> lg(callListMutex_);\n    if (callList_.empty()) {\n        return false;\n    }\n    cm = callList_.front();\n    callList_.pop();\n    return true;\n}\n\nvoid Sender::sendCallThreadProc() {"))
same("s-takeresp-move",
 (S, "            RespMeta rm;\n            respListMutex_.lock();\n            if (respList_.empty()) {\n                respListMutex_.unlock();\n                break;\n            }\n            rm = respList_.front();\n            respList_.pop();\n            respListMutex_.unlock();\n",
  "            RespMeta rm;\n            bool got = false;\n            {\n                std::unique_lock<std::mutex> ul(respListMutex_);\n                if (!respList_.empty()) {\n                    rm = std::move(respList_.front());\n                    respList_.pop();\n                    got = true;\n                }\n            }\n            if (!got)\n                break;\n"))
# sender: the pushing part in a function of its own
PUSHC = """                if (mq) {
                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
                    if (locked) {
                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                            if (mq->pushBack(cm.data, cm.dataSize)) {
                                mq->notifyRead();
                                ec = ErrorCode::SUCCESS;
                            }
                            else {
                                errMsg = "Unable to push message to queue.";
                            }
                        }
                        else {
                            ec = ErrorCode::TIMEOUT;
                            errMsg = "Waiting for call queue availability timeout.";
                        }
                        if (locked) {
                            locked = false;
                            mq->processRWUnlock();
                        }
                    }
                    else {
                        ec = ErrorCode::TIMEOUT;
                        errMsg = "Get rw-lock timeout when push call.";
                    }
                }
                else {
                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
                }

"""
same("s-pushhelper",
 (SH, "    void sendCallThreadProc();\n", "    ErrorCode pushCall(const std::shared_ptr<MessageQueue>& mq, const CallMeta& cm, bool& locked, std::string& errMsg);\n    void sendCallThreadProc();\n"),
 (S, PUSHC, "                ec = pushCall(mq, cm, locked, errMsg);\n"),
 (S, "void Sender::sendCallThreadProc() {", """ErrorCode Sender::pushCall(const std::shared_ptr<MessageQueue>& mq, const CallMeta& cm, bool& locked, std::string& errMsg) {
    if (!mq) {
        errMsg = "Unable to get target message queue. It seems that the channel not started.";
        return ErrorCode::FAILED;
    }

    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
    if (!locked) {
        errMsg = "Get rw-lock timeout when push call.";
        return ErrorCode::TIMEOUT;
    }

    ErrorCode ec = ErrorCode::FAILED;
    if (!checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
        ec = ErrorCode::TIMEOUT;
        errMsg = "Waiting for call queue availability timeout.";
    }
    else if (!mq->pushBack(cm.data, cm.dataSize)) {
        errMsg = "Unable to push message to queue.";
    }
    else {
        mq->notifyRead();
        ec = ErrorCode::SUCCESS;
    }

    if (locked) {
        locked = false;
        mq->processRWUnlock();
    }
    return ec;
}

void Sender::sendCallThreadProc() {"""))
same("s-targetmq", (S, """                if (rm.channel == veigar_->channelName()) {
                    mq = selfRespMQ_;
                }
                else {
                    mq = getTargetRespMessageQueue(rm.channel);
                }
""", """                const bool toSelf = (rm.channel == veigar_->channelName());
                mq = toSelf ? selfRespMQ_ : getTargetRespMessageQueue(rm.channel);
"""))
same("s-failhelper",
 (SH, "    void sendCallThreadProc();\n", "    void failCall(const CallMeta& cm, ErrorCode ec, const std::string& errMsg);\n    void sendCallThreadProc();\n"),
 (S, """                respDisp_->releaseCall(cm.callId);

                CallResult failedRet;
                failedRet.errCode = ec;
                failedRet.errorMessage = errMsg;

                RespDispatcher::completeCall(cm.resultMeta, std::move(failedRet));
            }
""", """                failCall(cm, ec, errMsg);
            }
"""),
 (S, "void Sender::sendCallThreadProc() {", """void Sender::failCall(const CallMeta& cm, ErrorCode ec, const std::string& errMsg) {
    respDisp_->releaseCall(cm.callId);

    CallResult failedRet;
    failedRet.errorMessage = errMsg;
    failedRet.errCode = ec;
    RespDispatcher::completeCall(cm.resultMeta, std::move(failedRet));
}

void Sender::sendCallThreadProc() {"""))
same("s-freefirst", (S, """            if (rm.data) {
                free(rm.data);
            }
        }
    }
}

bool Sender::checkSpaceAndWait""", """            free(rm.data);
            rm.data = nullptr;
        }
    }
}

bool Sender::checkSpaceAndWait"""))
same("s-loops", (S, """        if (!callListSetEvent_.wait(30))
            continue;

        if (callListSetEvent_.isCancelled())
            break;

        callListSetEvent_.unset();

        for (;;) {
            if (callListSetEvent_.isCancelled())
                break;

""", """        const bool signaled = callListSetEvent_.wait(30);
        if (!signaled) {
            continue;
        }
        if (callListSetEvent_.isCancelled()) {
            return;
        }

        callListSetEvent_.unset();

        while (!callListSetEvent_.isCancelled()) {
"""))
same("s-addcall-guard", (S, """    callListMutex_.lock();
    if (stopEvent_.isSet()) {
        callListMutex_.unlock();
        return false;
    }
    callList_.emplace(cm);
    callListMutex_.unlock();

    callListSetEvent_.set();
    return true;
""", """    {
        std::lock_guard<std::mutex> lg(callListMutex_);
        if (stopEvent_.isSet()) {
            return false;
        }
        callList_.push(cm);
    }
    callListSetEvent_.set();
    return true;
"""))
same("s-space-while", (S, """    bool result = false;
    do {
        bool waitable = false;
        if (mq->checkSpaceSufficient(needSize, waitable)) {
            result = true;
            break;
        }

        if (!waitable) {
            break;
        }

        int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
        if (used >= timeout) {
            break;
        }

        int64_t waitMS = 0;
        int64_t ms = (timeout - used) / 1000;
        if (ms > 5) {
            waitMS = 5;
        }
        else {
            waitMS = ms;
        }
""", """    bool result = false;
    do {
        bool waitable = false;
        if (mq->checkSpaceSufficient(needSize, waitable))
            return true;

        const int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
        if (!waitable || used >= timeout)
            return false;

        const int64_t waitMS = std::min<int64_t>((timeout - used) / 1000, 5);
"""), (S, '#include "sender.h"', '#include "sender.h"\n#include <algorithm>'))
same("s-uninit-drain",  (S, """    respListMutex_.lock();
    while (!respList_.empty()) {
        RespMeta rm = respList_.front();
        if (rm.data) {
            free(rm.data);
        }
        respList_.pop();
    }
    respListMutex_.unlock();
""", """    {
        std::lock_guard<std::mutex> lg(respListMutex_);
        for (; !respList_.empty(); respList_.pop()) {
            free(respList_.front().data);
        }
    }
"""))
same("s-cache-alias", (S, """    targetRespMsgQueues_[channelName] = queue;
    return queue;""", """    auto& slot = targetRespMsgQueues_[channelName];
    slot = queue;
    return slot;"""))
# response dispatcher
same("r-claim", (RH, "    void dispatchRespThreadProc();\n", "    bool claimCall(const std::string& callId, ResultMeta& retMeta);\n    void dispatchRespThreadProc();\n"),
 (R, """                ongoingCallsMutex_.lock();
                auto itCall = ongoingCalls_.find(callId);
                if (itCall != ongoingCalls_.end()) {
                    // claim the call, so that a duplicate response can not complete it again
                    retMeta = std::move(itCall->second);
                    ongoingCalls_.erase(itCall);
                }
                else {
                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %zu.\\n", callId.c_str(), ongoingCalls_.size());
                    ongoingCallsMutex_.unlock();
                    continue;
                }
                ongoingCallsMutex_.unlock();
""", """                if (!claimCall(callId, retMeta)) {
                    continue;
                }
"""), (R, "void RespDispatcher::addOngoingCall(", """bool RespDispatcher::claimCall(const std::string& callId, ResultMeta& retMeta) {
    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
    auto it = ongoingCalls_.find(callId);
    if (it == ongoingCalls_.end()) {
        veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %zu.\\n", callId.c_str(), ongoingCalls_.size());
        return false;
    }
    retMeta = it->second;
    ongoingCalls_.erase(it);
    return true;
}

void RespDispatcher::addOngoingCall("""))
same("r-release-erase", (R, """    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
    auto it = ongoingCalls_.find(callId);
    if (it != ongoingCalls_.cend()) {
        ongoingCalls_.erase(it);
    }
""", """    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
    ongoingCalls_.erase(callId);
"""))
same("r-add-guard", (R, """    ongoingCallsMutex_.lock();
    ongoingCalls_[callId] = retMeta;
    ongoingCallsMutex_.unlock();
""", """    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
    ongoingCalls_.insert(std::make_pair(callId, retMeta));
"""))
same("r-complete-switch", (R, """        if (retMeta.metaType == 0) {
            if (retMeta.p) {
                retMeta.p->set_value(std::move(callRet));
            }
        }
        else if (retMeta.metaType == 1) {
            if (retMeta.cb) {
                retMeta.cb(callRet);
            }
        }
""", """        switch (retMeta.metaType) {
            case 0:
                if (retMeta.p)
                    retMeta.p->set_value(std::move(callRet));
                break;
            case 1:
                if (retMeta.cb)
                    retMeta.cb(callRet);
                break;
            default:
                break;
        }
"""))
POP = """        if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
            if (written <= 0) {
                veigar::log("Veigar: Error: Pop front from response message queue failed.\\n");
                respMsgQueue_->processRWUnlock();
                continue;
            }

            try {
                respPac.reserve_buffer((size_t)written);
            } catch (std::bad_alloc& e) {
                veigar::log("Veigar: Error: Pre-alloc response memory(%" PRId64 " bytes) failed: %s.\\n", written, e.what());
                respMsgQueue_->processRWUnlock();
                continue;
            }

            if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
                veigar::log("Veigar: Error: Pop front from response message queue failed.\\n");
                respMsgQueue_->processRWUnlock();
                continue;
            }
        }

        respPac.buffer_consumed((size_t)written);

        respMsgQueue_->processRWUnlock();
"""
same("r-pophelper", (RH, "    void dispatchRespThreadProc();\n", "    bool popMessage(veigar_msgpack::unpacker& pac);\n    void dispatchRespThreadProc();\n"),
 (R, POP, """        const bool popped = popMessage(respPac);
        respMsgQueue_->processRWUnlock();
        if (!popped) {
            continue;
        }
"""), (R, "void RespDispatcher::addOngoingCall(", """bool RespDispatcher::popMessage(veigar_msgpack::unpacker& pac) {
    int64_t size = 0;
    if (!respMsgQueue_->popFront(pac.buffer(), pac.buffer_capacity(), size)) {
        if (size <= 0) {
            veigar::log("Veigar: Error: Pop front from response message queue failed.\\n");
            return false;
        }
        try {
            pac.reserve_buffer((size_t)size);
        } catch (std::bad_alloc& e) {
            veigar::log("Veigar: Error: Pre-alloc response memory(%" PRId64 " bytes) failed: %s.\\n", size, e.what());
            return false;
        }
        if (!respMsgQueue_->popFront(pac.buffer(), pac.buffer_capacity(), size)) {
            veigar::log("Veigar: Error: Pop front from response message queue failed.\\n");
            return false;
        }
    }
    pac.buffer_consumed((size_t)size);
    return true;
}

void RespDispatcher::addOngoingCall("""))
same("r-msgnum", (R, """        if (msgNum <= 0) {
            if (msgNum < 0) {
                veigar::log("Veigar: Error: Query message number from response message queue failed.\\n");
            }
            else {
                veigar::log("Veigar: Warning: Disordered read signal for response message queue.\\n");
            }
            respMsgQueue_->processRWUnlock();
            continue;
        }
""", """        if (msgNum < 0) {
            respMsgQueue_->processRWUnlock();
            veigar::log("Veigar: Error: Query message number from response message queue failed.\\n");
            continue;
        }
        if (msgNum == 0) {
            respMsgQueue_->processRWUnlock();
            veigar::log("Veigar: Warning: Disordered read signal for response message queue.\\n");
            continue;
        }
"""))
same("r-uninit-index", (R, """    for (std::thread& worker : workers_) {
        respMsgQueue_->notifyRead();
    }

    for (std::thread& worker : workers_) {
        if (worker.joinable()) {
            worker.join();
        }
    }
    workers_.clear();
""", """    for (size_t i = 0; i < workers_.size(); ++i) {
        respMsgQueue_->notifyRead();
    }

    for (auto it = workers_.begin(); it != workers_.end(); ++it) {
        if (it->joinable())
            it->join();
    }
    workers_.clear();
"""))
same("r-uninit-pending", (R, """    for (auto& it : pendingCalls) {
        CallResult failedRet;
        failedRet.errCode = ErrorCode::FAILED;
        failedRet.errorMessage = "Veigar has been uninitialized.";
        completeCall(it.second, std::move(failedRet));
    }
""", """    for (auto it = pendingCalls.begin(); it != pendingCalls.end(); ++it) {
        CallResult r;
        r.errorMessage = "Veigar has been uninitialized.";
        r.errCode = ErrorCode::FAILED;
        completeCall(it->second, std::move(r));
    }
"""))
same("r-localmq", (R, "    int64_t written = 0L;\n    while (!stop_.load()) {\n", "    const std::shared_ptr<MessageQueue> mq = respMsgQueue_;\n    int64_t written = 0L;\n    while (!stop_.load()) {\n"),
 (R, "        if (!respMsgQueue_->waitForRead(-1)) {", "        if (!mq->waitForRead(-1)) {"), (R, POP, POP.replace("respMsgQueue_->", "mq->")))
same("r-whilestop", (R, "    while (!stop_.load()) {\n        written = 0L;\n", "    for (;;) {\n        if (stop_.load())\n            return;\n        written = 0L;\n"))
same("r-handlemsg", (R, "            ResultMeta retMeta;\n            CallResult callRet;\n            std::string callId;\n            try {\n                detail::Response::ResponseMsg r;\n                obj.get().convert(r);\n", "            std::string callId;\n            CallResult callRet;\n            ResultMeta retMeta;\n            try {\n                const veigar_msgpack::object& root = obj.get();\n                detail::Response::ResponseMsg r;\n                root.convert(r);\n"))
same("r-metatype", (R, """                if (retMeta.metaType != 0 && retMeta.metaType != 1) {
                    veigar::log("Veigar: Warning: Invalid result meta type: %d.\\n", retMeta.metaType);
                    continue;
                }

                auto&& error_obj = std::get<2>(r);
                if (!error_obj.is_nil()) {
                    veigar_msgpack::object_handle errObjHandle = veigar_msgpack::clone(error_obj);
                    callRet.errorMessage = errObjHandle.get().as<std::string>();
                }
""", """                const bool known = (retMeta.metaType == 0 || retMeta.metaType == 1);
                if (!known) {
                    veigar::log("Veigar: Warning: Invalid result meta type: %d.\\n", retMeta.metaType);
                    continue;
                }

                const veigar_msgpack::object& error_obj = std::get<2>(r);
                if (error_obj.type != veigar_msgpack::type::NIL) {
                    callRet.errorMessage = error_obj.as<std::string>();
                }
"""))
# call dispatcher
same("c-findfunc", (CDH, "    void dispatchThreadProc();\n", "    AdaptorType findFunc(const std::string& name);\n    void dispatchThreadProc();\n"),
 (C, """    AdaptorType func;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
        if (itFunc != funcs_.cend()) {
            func = itFunc->second;
        }
    }
""", "    const AdaptorType func = findFunc(funcName);\n"), (C, "void CallDispatcher::checkArgsCount(", """CallDispatcher::AdaptorType CallDispatcher::findFunc(const std::string& name) {
    std::lock_guard<std::mutex> lg(funcsMutex_);
    auto it = funcs_.find(name);
    if (it == funcs_.end()) {
        return AdaptorType();
    }
    return it->second;
}

void CallDispatcher::checkArgsCount("""))
same("c-exist-count", (C, """    auto pos = funcs_.find(func);
    if (pos != end(funcs_)) {
        return true;
    }
    return false;
""", "    return funcs_.count(func) > 0;\n"))
same("c-unbind-erase", (C, """    auto it = funcs_.find(name);
    if (it != funcs_.end()) {
        funcs_.erase(it);
    }
}

Response""", """    funcs_.erase(name);
}

Response"""))
same("c-answer", (CDH, "    void dispatchThreadProc();\n", "    void handleCall(veigar_msgpack::object const& msg);\n    void dispatchThreadProc();\n"),
 (C, """                auto msg = obj.get();

                std::string callerChannelName;
                Response resp = dispatch(msg, callerChannelName);
                if (callerChannelName.empty()) {
                    veigar::log("Veigar: Warning: Unable to parse caller's channel name.\\n");
                    continue;
                }

                veigar_msgpack::sbuffer respBuf = resp.getData();
                if (respBuf.size() == 0) {
                    veigar::log("Veigar: Warning: The size of response data is zero.\\n");
                    continue;
                }

                std::string errMsg;
                if (!veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {
                    veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\\n",
                                callerChannelName.c_str(), errMsg.c_str());
                }
""", "                handleCall(obj.get());\n"), (C, "void CallDispatcher::checkArgsCount(", """void CallDispatcher::handleCall(veigar_msgpack::object const& msg) {
    std::string callerChannelName;
    Response resp = dispatch(msg, callerChannelName);
    if (callerChannelName.empty()) {
        veigar::log("Veigar: Warning: Unable to parse caller's channel name.\\n");
        return;
    }

    veigar_msgpack::sbuffer respBuf = resp.getData();
    if (respBuf.size() == 0) {
        veigar::log("Veigar: Warning: The size of response data is zero.\\n");
        return;
    }

    std::string errMsg;
    if (!veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {
        veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\\n", callerChannelName.c_str(), errMsg.c_str());
    }
}

void CallDispatcher::checkArgsCount("""))
same("c-init-order", (C, """    impl_->stop_.store(false);

    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
    }

    init_ = true;

    return init_;
""", """    impl_->stop_ = false;
    impl_->workers_.reserve(VEIGAR_DISPATCHER_THREAD_NUMBER);
    size_t n = VEIGAR_DISPATCHER_THREAD_NUMBER;
    while (n-- > 0) {
        impl_->workers_.push_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
    }

    init_ = true;
    return true;
"""))
same("c-lambda-thread", (C, "std::thread(&CallDispatcher::dispatchThreadProc, this)", "[this] { dispatchThreadProc(); }"))
same("c-dispatch-inline", (C, """    // Quickly check
    if (msg.via.array.size != 5) {
        return Response::MakeEmptyResponse();
    }

    return dispatchCall(msg, callerChannelName);
""", """    const uint32_t fields = msg.via.array.size;
    return fields == 5 ? dispatchCall(msg, callerChannelName) : Response::MakeEmptyResponse();
"""))
same("c-errtext", (C, """    if (!func) {
        return Response::MakeResponseWithError(
            callId,
            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
    }
""", """    if (!func) {
        const std::string text = StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size);
        return Response::MakeResponseWithError(callId, text);
    }
"""))
same("ci-onecheck", (CDI, """    using args_type = typename func_traits<F>::args_type;
    if (name.empty() || isFuncNameExist(name)) {
        return false;
    }

    std::lock_guard<std::mutex> lg(funcsMutex_);
    return funcs_.insert(
        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
            constexpr int args_count = std::tuple_size<args_type>::value;
            checkArgsCount(args, args_count);
            func();
            return detail::make_unique<veigar_msgpack::object_handle>();
        })).second;
""", """    using args_type = typename func_traits<F>::args_type;
    if (name.empty()) {
        return false;
    }

    AdaptorType adaptor = [func, name](veigar_msgpack::object const& args) {
        constexpr int args_count = std::tuple_size<args_type>::value;
        checkArgsCount(args, args_count);
        func();
        return detail::make_unique<veigar_msgpack::object_handle>();
    };
    std::lock_guard<std::mutex> lg(funcsMutex_);
    const bool added = funcs_.emplace(name, adaptor).second;
    return added;
"""))
same("cd-names", (CDH, """        std::lock_guard<std::mutex> lg(funcsMutex_);
        for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
            names.push_back(it->first);
        return names;
""", """        std::lock_guard<std::mutex> lg(funcsMutex_);
        names.reserve(funcs_.size());
        for (const auto& entry : funcs_) {
            names.emplace_back(entry.first);
        }
        return names;
"""))
# veigar
same("v-sendresp", (V, """    rm.data = (uint8_t*)malloc(bufSize);
    if (!rm.data) {
        errMsg = "Unable to allocate memory.";
        return false;
    }
    memcpy(rm.data, buf, bufSize);

    rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
    rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
""", """    rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
    rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
    rm.data = static_cast<uint8_t*>(std::malloc(bufSize));
    if (rm.data == nullptr) {
        errMsg = "Unable to allocate memory.";
        return false;
    }
    std::memcpy(rm.data, buf, bufSize);
"""))
same("v-dup", (V, "namespace veigar {\nclass Veigar::Impl {", """namespace veigar {
static uint8_t* Duplicate(const void* src, size_t size) {
    uint8_t* p = (uint8_t*)malloc(size);
    if (p && src) {
        memcpy(p, src, size);
    }
    return p;
}

class Veigar::Impl {"""), (V, "    cm.data = (uint8_t*)malloc(cm.dataSize);\n", "    cm.data = Duplicate(buffer ? buffer->data() : nullptr, cm.dataSize);\n"),
 (V, "    if (buffer) {\n        memcpy(cm.data, buffer->data(), cm.dataSize);\n    }\n\n", ""))
same("v-init-return", (V, """            if (channelName_ == channelName) {
                return true;
            }
            return false;
        }
""", """            return channelName_ == channelName;
        }
"""))
same("v-init-rollback", (V, "        if (!isInit_) {\n            if (veigar_->callDisp_->isInit()) {\n                veigar_->callDisp_->uninit();\n            }\n\n            if (respDispatcher_ && respDispatcher_->isInit()) {\n                respDispatcher_->uninit();\n            }\n\n            if (sender_) {\n                sender_->uninit();\n            }\n\n            uuid_.clear();\n            channelName_.clear();\n\n            sender_.reset();\n            respDispatcher_.reset();\n        }\n        else {", "        if (!isInit_) {\n            rollback();\n        }\n        else {"),
 (V, "    void uninit() {\n        if (!isInit_) {", "    void rollback() {\n        if (veigar_->callDisp_->isInit()) {\n            veigar_->callDisp_->uninit();\n        }\n\n        if (respDispatcher_ && respDispatcher_->isInit()) {\n            respDispatcher_->uninit();\n        }\n\n        if (sender_) {\n            sender_->uninit();\n        }\n\n        sender_.reset();\n        respDispatcher_.reset();\n        channelName_.clear();\n        uuid_.clear();\n    }\n\n    void uninit() {\n        if (!isInit_) {"))
same("v-uninit-if", (V, "        assert(sender_);\n        if (sender_) {\n            if (sender_->isInit()) {\n                sender_->uninit();\n            }\n        }\n", "        assert(sender_);\n        if (sender_ && sender_->isInit()) {\n            sender_->uninit();\n        }\n"))
same("v-dtor", (V, "    if (impl_) {\n        delete impl_;\n        impl_ = nullptr;\n    }\n}\n\nbool Veigar::init", "    delete impl_;\n    impl_ = nullptr;\n}\n\nbool Veigar::init"))
# inl
same("i-failed", (VI, """            if (errMsg.empty()) {
                failedRet.errorMessage = "Send failed: Unknown.";
            }
            else {
                failedRet.errorMessage = "Send failed: " + errMsg;
            }

            p->set_value(std::move(failedRet));
""", """            failedRet.errorMessage = "Send failed: " + (errMsg.empty() ? std::string("Unknown.") : errMsg);
            p->set_value(std::move(failedRet));
"""))
same("i-sync", (VI, """    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {
        releaseCall(acr->first);

        CallResult cr;
        cr.errCode = ErrorCode::TIMEOUT;
        cr.errorMessage = "Waiting for the call result timeout.";
        return cr;
    }

    CallResult callRet = acr->second.get();

    releaseCall(acr->first);

    return callRet;
""", """    const std::future_status status = acr->second.wait_for(std::chrono::milliseconds(timeoutMS));
    releaseCall(acr->first);

    if (status == std::future_status::ready) {
        return acr->second.get();
    }

    CallResult cr;
    cr.errCode = ErrorCode::TIMEOUT;
    cr.errorMessage = "Waiting for the call result timeout.";
    return cr;
"""))
same("i-tuple", (VI, ("        std::string curChannelName = channelName();\n        auto argsObj = std::make_tuple(args...);\n        auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);\n", 1), "        auto callObj = std::make_tuple(0, callId, channelName(), funcName, std::make_tuple(args...));\n"))
# message queue
same("q-used", (MQH, "    void notifyRead();\n", "    void notifyRead();\n    static int64_t SumSizes(const int64_t* sizes, int64_t n);\n"),
 (MQ, "        int64_t msgDataTotalSize = 0L;\n        for (int64_t i = 0; i < *pCurMsgNumber; i++) {\n            msgDataTotalSize += *(pFirstMsgDataSize + i);\n        }\n", "        int64_t msgDataTotalSize = SumSizes(pFirstMsgDataSize, *pCurMsgNumber);\n"),
 (MQ, "bool MessageQueue::popFront(", "int64_t MessageQueue::SumSizes(const int64_t* sizes, int64_t n) {\n    int64_t sum = 0;\n    for (int64_t i = 0; i < n; ++i)\n        sum += sizes[i];\n    return sum;\n}\n\nbool MessageQueue::popFront("))
same("q-push-common", (MQ, """        uint8_t* pCopyBegin = nullptr;
        if (tailFree >= dataSize) {
            *pCurMsgNumber += 1;

            // record data size
            *(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;

            pCopyBegin = pFirstMsgData + msgDataTotalSize + *pFrontFree;
        }
        else {
            *pCurMsgNumber += 1;

            // record data size
            *(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;

            // move old data to offset zero
""", """        uint8_t* pCopyBegin = nullptr;
        pFirstMsgDataSize[*pCurMsgNumber] = dataSize;
        ++*pCurMsgNumber;
        if (tailFree >= dataSize) {
            pCopyBegin = pFirstMsgData + *pFrontFree + msgDataTotalSize;
        }
        else {
            // move old data to offset zero
"""))
same("q-push-early", (MQ, """        if (totalFree < dataSize || *pCurMsgNumber == msgMaxNumber_) {
            veigar::log""", """        const bool full = (*pCurMsgNumber >= msgMaxNumber_);
        if (full || dataSize > totalFree) {
            veigar::log"""))
same("q-pop-order", (MQ, """        // set msg number
        *pCurMsgNumber -= 1;

        // set front free
        *pFrontFree += *pFirstMsgDataSize;

        // pop a element from data size list
        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
""", """        const int64_t left = *pCurMsgNumber - 1;
        *pFrontFree = *pFrontFree + written;
        for (int64_t k = 0; k < left; ++k) {
            pFirstMsgDataSize[k] = pFirstMsgDataSize[k + 1];
        }
        *pCurMsgNumber = left;
"""))
same("q-cleanup", (MQ, ("""    if (!result) {
        if (shm_) {
            if (shm_->valid())
                shm_->close();
            shm_.reset();
        }

        if (rwLock_) {
            if (rwLock_->valid())
                rwLock_->close();
            rwLock_.reset();
        }

        if (readSmp_) {
            if (readSmp_->valid())
                readSmp_->close();
            readSmp_.reset();
        }
    }
""", "all"), "    if (!result) {\n        close();\n    }\n"))
same("q-size", (MQ, ("sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_", "all"), "totalSize()"), (MQH, "    void notifyRead();\n", "    void notifyRead();\n    int64_t totalSize() const {\n        const int64_t n = msgMaxNumber_;\n        return 3 * (int64_t)sizeof(int64_t) + n * ((int64_t)sizeof(int64_t) + msgExpectedMaxSize_);\n    }\n"))
same("q-msgnumber", (MQ, """    int64_t* const p64 = (int64_t*)shmData;
    if (!p64) {
        return -1;
    }

    int64_t* const pShmSize = p64;
    int64_t* const pCurMsgNumber = p64 + 1;

    return *pCurMsgNumber;
""", "    return reinterpret_cast<const int64_t*>(shmData)[1];\n"))
# shared memory, semaphores, events
same("m-raii", (SHM, """    if (fstat(fd_, &st) != 0 || st.st_size < size_) {
        veigar::log("Veigar: Error: shared memory is smaller than expected, expected: %" PRId64 ".\\n", size_);
        ::close(fd_);
        fd_ = -1;
        return false;
    }
""", """    const bool known = fstat(fd_, &st) == 0;
    if (!known || st.st_size < size_) {
        veigar::log("Veigar: Error: shared memory is smaller than expected, expected: %" PRId64 ".\\n", size_);
        close();
        return false;
    }
"""))
same("m-wait", (SEM, """        ts.tv_sec = ts_now.tv_sec;
        ts.tv_nsec = ts_now.tv_nsec;

        ts.tv_sec += (ms / 1000);
        ts.tv_nsec += ((ms % 1000) * 1000000);
        if (ts.tv_nsec >= 1000000000) {
            ts.tv_sec += 1;
            ts.tv_nsec -= 1000000000;
        }

        int ret = 0;
        do {
            ret = sem_timedwait(sh_->named_, &ts);
        } while (ret != 0 && errno == EINTR);
        return (ret == 0);
""", """        const int64_t nsec = ts_now.tv_nsec + (ms % 1000) * 1000000;
        ts.tv_sec = ts_now.tv_sec + ms / 1000 + nsec / 1000000000;
        ts.tv_nsec = nsec % 1000000000;

        while (sem_timedwait(sh_->named_, &ts) != 0) {
            if (errno != EINTR)
                return false;
        }
        return true;
"""))
same("m-release", (SEM, "    if (valid()) {\n#ifdef VEIGAR_OS_WINDOWS\n        ReleaseSemaphore(sh_->h_, 1, NULL);\n#else\n        sem_post(sh_->named_);\n#endif\n    }\n", "    if (!valid())\n        return;\n#ifdef VEIGAR_OS_WINDOWS\n    ReleaseSemaphore(sh_->h_, 1, NULL);\n#else\n    sem_post(sh_->named_);\n#endif\n"))
same("e-wait", (EV, """    if (millseconds < 0) {
        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
    }
    else {
        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });
    }
    return (isSet_ || isCancelled_);
""", """    auto ready = [this] { return isSet_ || isCancelled_; };
    if (millseconds >= 0) {
        return settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), ready);
    }
    settedCondVar_.wait(ul, ready);
    return true;
"""))
same("e-guard", (EV, ("    std::unique_lock<std::mutex> ul(m_);\n    isSet_ = true;\n    settedCondVar_.notify_all();\n", 1), "    {\n        std::lock_guard<std::mutex> lg(m_);\n        isSet_ = true;\n    }\n    settedCondVar_.notify_all();\n"))
