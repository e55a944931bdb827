S, V, G, H = "src/sender.cpp", "src/veigar.cpp", "src/string_helper.cpp", "src/sender.h"
K = ["C12"]
FREEC = "            if (cm.data) {\n                free(cm.data);\n            }\n"
FREER = "            if (rm.data) {\n                free(rm.data);\n            }\n"
M = [
 ("buf-call-notfreed", "bug", K, [(S, FREEC, "")]),
 ("buf-resp-notfreed", "bug", K, [(S, FREER, "")]),
 ("buf-call-onlyfail", "bug", K, [(S, FREEC, "            if (cm.data && ec != ErrorCode::SUCCESS) {\n                free(cm.data);\n            }\n")]),
 ("buf-call-twice", "bug", K, [(S, "                respDisp_->releaseCall(cm.callId);\n\n                CallResult failedRet;", "                respDisp_->releaseCall(cm.callId);\n                free(cm.data);\n\n                CallResult failedRet;")]),
 ("buf-call-early", "bug", K, [(S, FREEC, ""), (S, "            ErrorCode ec = ErrorCode::FAILED;\n            std::shared_ptr<MessageQueue> mq = nullptr;\n            bool locked = false;\n            try {\n                errMsg.clear();\n\n                if (rm", "@@") ] if False else [(S, FREEC, ""), (S, ("callList_.pop();\n            callListMutex_.unlock();\n", 1), "callList_.pop();\n            callListMutex_.unlock();\n            free(cm.data);\n")]),
 ("buf-uninit-calls", "bug", K, [(S, "        if (cm.data) {\n            free(cm.data);\n        }\n        unsentCalls.pop();", "        unsentCalls.pop();")]),
 ("buf-uninit-resps", "bug", K, [(S, "        if (rm.data) {\n            free(rm.data);\n        }\n        respList_.pop();", "        respList_.pop();")]),
 ("buf-uninit-resplist", "bug", K, [(S, "    while (!respList_.empty()) {\n        RespMeta rm = respList_.front();\n        if (rm.data) {\n            free(rm.data);\n        }\n        respList_.pop();\n    }\n", "    respList_ = std::queue<RespMeta>();\n")]),
 ("buf-addcall-fail", "bug", K, [(V, "    if (!impl_->sender_->addCall(cm)) {\n        free(cm.data);\n", "    if (!impl_->sender_->addCall(cm)) {\n")]),
 ("buf-addresp-fail", "bug", K, [(V, "    if (!impl_->sender_->addResp(rm)) {\n        free(rm.data);\n", "    if (!impl_->sender_->addResp(rm)) {\n")]),
 ("buf-addcall-free", "bug", K, [(V, "        exceptionMsg = \"Veigar has been uninitialized.\";\n        return false;\n    }\n\n    return true;\n}\n\nbool Veigar::sendResponse", "        exceptionMsg = \"Veigar has been uninitialized.\";\n        return false;\n    }\n    free(cm.data);\n    return true;\n}\n\nbool Veigar::sendResponse")]),
 ("buf-addcall-use", "bug", K, [(V, "    if (!impl_->sender_->addCall(cm)) {\n        free(cm.data);\n", "    bool added = impl_->sender_->addCall(cm);\n    memset(cm.data, 0, cm.dataSize);\n    if (!added) {\n        free(cm.data);\n")]),
 ("buf-addcall-inner", "bug", K, [(S, "    if (stopEvent_.isSet()) {\n        callListMutex_.unlock();\n        return false;\n    }\n    callList_", "    if (stopEvent_.isSet()) {\n        callListMutex_.unlock();\n        free(cm.data);\n        return false;\n    }\n    callList_")]),
 ("buf-send-continue", "bug", K, [(S, "                else {\n                    errMsg = \"Unable to get target message queue. It seems that the channel not started.\";\n                }\n\n            } catch (std::exception& e) {\n                if (mq && locked) {\n                    mq->processRWUnlock();\n                }\n                errMsg", "                else {\n                    continue;\n                }\n\n            } catch (std::exception& e) {\n                if (mq && locked) {\n                    mq->processRWUnlock();\n                }\n                errMsg")]),
 ("buf-send-nopop", "bug", K, [(S, "            rm = respList_.front();\n            respList_.pop();\n", "            rm = respList_.front();\n            if (rm.dataSize > 0) respList_.pop();\n")]),
 ("buf-printf-leak", "bug", K, [(G, ("        if (msgBuf) {\n            free(msgBuf);\n            msgBuf = nullptr;\n        }\n", 1), "        if (ret) {\n            free(msgBuf);\n            msgBuf = nullptr;\n        }\n")]) if False else
 ("buf-printf-leak", "bug", K, [(G, ("            if (msgBuf) {\n                free(msgBuf);\n                msgBuf = nullptr;\n            }\n", 1), "")]),
 ("buf-printf-double", "bug", K, [(G, ("                free(msgBuf);\n                msgBuf = nullptr;\n            }\n            msgBuf", 1), "                free(msgBuf);\n            }\n            if (msgBufSize < 100000) msgBuf")]),
 ("buf-printf-after", "bug", K, [(G, ("        if (ret && msgBuf) {\n            output.assign(msgBuf);\n        }\n\n        if (msgBuf) {\n            free(msgBuf);\n            msgBuf = nullptr;\n        }\n", 1), "        if (msgBuf) {\n            free(msgBuf);\n        }\n        if (ret && msgBuf) {\n            output.assign(msgBuf);\n        }\n")]),
 ("buf-printf-noret", "bug", K, [(G, ("        if (msgBuf) {\n            free(msgBuf);\n            msgBuf = nullptr;\n        }\n    }", 1), "        if (!ret && msgBuf) {\n            free(msgBuf);\n            msgBuf = nullptr;\n        }\n    }")]) ,
 # same
 ("buf-same-free", "same", K, [(S, FREEC, "            free(cm.data);\n            cm.data = nullptr;\n")]),
 ("buf-same-helper", "same", K, [(S, FREEC, "            freeData(cm.data);\n"), (S, FREER, "            freeData(rm.data);\n"), (S, "namespace veigar {\n", "namespace veigar {\nstatic void freeData(uint8_t*& p) {\n    if (p) {\n        free(p);\n        p = nullptr;\n    }\n}\n")]),
 ("buf-same-swap", "same", K, [(S, "    respListMutex_.lock();\n    while (!respList_.empty()) {\n        RespMeta rm = respList_.front();\n        if (rm.data) {\n            free(rm.data);\n        }\n        respList_.pop();\n    }\n    respListMutex_.unlock();\n", "    std::queue<RespMeta> left;\n    {\n        std::lock_guard<std::mutex> g(respListMutex_);\n        std::swap(left, respList_);\n    }\n    for (; !left.empty(); left.pop()) {\n        free(left.front().data);\n    }\n")]),
 ("buf-same-early", "same", K, [(S, FREEC, ""), (S, "            if (ec != ErrorCode::SUCCESS) {\n                respDisp_->releaseCall(cm.callId);", "            if (cm.data) {\n                free(cm.data);\n            }\n            if (ec != ErrorCode::SUCCESS) {\n                respDisp_->releaseCall(cm.callId);")]),
 ("buf-same-move", "same", K, [(S, "            rm = respList_.front();\n", "            rm = std::move(respList_.front());\n")]),
 ("buf-same-mallocfirst", "same", K, [(V, "    rm.dataSize = bufSize;\n    rm.data = (uint8_t*)malloc(bufSize);\n    if (!rm.data) {", "    rm.dataSize = bufSize;\n    uint8_t* const copy = static_cast<uint8_t*>(malloc(bufSize));\n    rm.data = copy;\n    if (copy == nullptr) {")]),
 ("buf-same-realloc", "same", K, [(G, ("            if (msgBuf) {\n                free(msgBuf);\n                msgBuf = nullptr;\n            }\n            msgBuf = (char*)malloc(msgBufSize * sizeof(char));\n            if (!msgBuf) {\n                break;\n            }\n", 1), "            char* n = (char*)realloc(msgBuf, msgBufSize * sizeof(char));\n            if (!n) {\n                break;\n            }\n            msgBuf = n;\n")]),
 ("buf-same-vector", "same", K, [(G, ("            if (msgBuf) {\n                free(msgBuf);\n                msgBuf = nullptr;\n            }\n            msgBuf = (char*)malloc(msgBufSize * sizeof(char));\n            if (!msgBuf) {\n                break;\n            }\n            memset(msgBuf, 0, msgBufSize * sizeof(char));\n", 1), "            tmp.assign(msgBufSize, 0);\n            msgBuf = tmp.data();\n"), (G, ("        if (msgBuf) {\n            free(msgBuf);\n            msgBuf = nullptr;\n        }\n    }", 1), "    }"), (G, "    char* msgBuf = nullptr;\n", "    std::vector<char> tmp;\n    char* msgBuf = nullptr;\n"), (G, "namespace veigar {\n", "}\n#include <vector>\nnamespace veigar {\n") if False else (G, "#if defined(__GNUC__)\n", "#include <vector>\n#if defined(__GNUC__)\n")]),
]
