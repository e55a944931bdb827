S = "src/sender.cpp"
C = "src/call_dispatcher.cpp"
R = "src/resp_dispatcher.cpp"
V = "src/event.cpp"
M = [
    ("c06-unset-after-drain", "bug", ["C06"], [(S, ("        callListSetEvent_.unset();\n", 1), ""), (S, "            if (cm.data) {\n                free(cm.data);\n            }\n        }\n    }\n}\n\nvoid Sender::sendRespThreadProc", "            if (cm.data) {\n                free(cm.data);\n            }\n        }\n        callListSetEvent_.unset();\n    }\n}\n\nvoid Sender::sendRespThreadProc")]),
    ("c06-set-before-insert", "bug", ["C06"], [(S, "    callList_.emplace(cm);\n    callListMutex_.unlock();\n\n    callListSetEvent_.set();", "    callListMutex_.unlock();\n    callListSetEvent_.set();\n    callListMutex_.lock();\n    callList_.emplace(cm);\n    callListMutex_.unlock();")]),
    ("c06-no-set", "bug", ["C06"], [(S, "    respListMutex_.unlock();\n\n    respListSetEvent_.set();", "    respListMutex_.unlock();\n")]),
    ("c06-same-set-only-first", "same", ["C06"], [(S, "    callList_.emplace(cm);\n    callListMutex_.unlock();\n\n    callListSetEvent_.set();", "    const bool first = callList_.empty();\n    callList_.emplace(cm);\n    callListMutex_.unlock();\n\n    if (first) callListSetEvent_.set();")]),
    ("c06-one-per-wakeup", "bug", ["C06"], [(S, "                free(cm.data);\n            }\n        }\n", "                free(cm.data);\n            }\n            break;\n        }\n")]),
    ("c06-no-notifyall", "bug", ["C06"], [(V, "    isSet_ = true;\n    settedCondVar_.notify_all();", "    isSet_ = true;")]),
    ("c06-no-notifyread", "bug", ["C06"], [(S, ("                                mq->notifyRead();\n", 2), "")]),
    ("c06-no-repost", "bug", ["C06"], [(C, "            impl_->callMsgQueue_->notifyRead();  // the message is still queued, restore its read signal\n", "")]),
    ("c06-toosmall", "bug", ["C06"], [(R, "            try {\n                respPac.reserve_buffer((size_t)written);\n", "            respMsgQueue_->processRWUnlock();\n            continue;\n            try {\n                respPac.reserve_buffer((size_t)written);\n")]),
    ("c06-same-set-in-lock", "same", ["C06"], [(S, "    callList_.emplace(cm);\n    callListMutex_.unlock();\n\n    callListSetEvent_.set();", "    callListSetEvent_.set();\n    callList_.emplace(cm);\n    callListMutex_.unlock();\n")]),
    ("c06-same-notify-first", "same", ["C06"], [(S, ("                            if (mq->pushBack(cm.data, cm.dataSize)) {\n                                mq->notifyRead();", 1), "                            mq->notifyRead();\n                            if (mq->pushBack(cm.data, cm.dataSize)) {")]),
    ("c06-same-while", "same", ["C06"], [(S, "            callListMutex_.lock();\n            if (callList_.empty()) {\n                callListMutex_.unlock();\n                break;\n            }\n            cm = callList_.front();\n            callList_.pop();\n            callListMutex_.unlock();", "            {\n                std::lock_guard<std::mutex> lg(callListMutex_);\n                if (callList_.size() == 0) {\n                    break;\n                }\n                cm = std::move(callList_.front());\n                callList_.pop();\n            }")]),
    ("c06-spin", "same", ["C06"], [(S, ("        if (callListSetEvent_.isCancelled())\n            break;\n\n        callListSetEvent_.unset();\n", 1), "        if (callListSetEvent_.isCancelled())\n            return;\n\n        callListSetEvent_.unset();\n")]),
]
