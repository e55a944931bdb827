S = "src/sender.cpp"
R = "src/resp_dispatcher.cpp"
C = "src/call_dispatcher.cpp"
V = "src/veigar.cpp"
CALLJ = """    for (std::thread& w : callWorkers_) {
        if (w.joinable()) {
            w.join();
        }
    }
"""
RJ = """    for (std::thread& worker : workers_) {
        if (worker.joinable()) {
            worker.join();
        }
    }
    workers_.clear();
"""
RN = """    for (std::thread& worker : workers_) {
        respMsgQueue_->notifyRead();
    }
"""
CJ = """    for (std::thread& worker : impl_->workers_) {
        if (worker.joinable()) {
            worker.join();
        }
    }
    impl_->workers_.clear();
"""
CLOSE = """    if (respMsgQueue_) {
        respMsgQueue_->close();
        respMsgQueue_.reset();
    }
"""
M = [
    ("c14-no-stop", "bug", ["C14"], [(R, "    stop_.store(true);\n", "")]),
    ("c14-no-cancel", "bug", ["C14"], [(S, "    respListSetEvent_.cancel();\n", "    respListSetEvent_.set();\n")]),
    ("c14-no-notify", "bug", ["C14"], [(R, RN, "")]),
    ("c14-one-notify", "bug", ["C14"], [(R, RN, "    respMsgQueue_->notifyRead();\n")]),
    ("c14-notify-first", "bug", ["C14"], [(R, "    stop_.store(true);\n\n" + RN, RN + "    stop_.store(true);\n\n")]),
    ("c14-no-join", "bug", ["C14"], [(S, CALLJ, "")]),
    ("c14-join-first-only", "bug", ["C14"], [(S, CALLJ, "    if (!callWorkers_.empty() && callWorkers_[0].joinable()) callWorkers_[0].join();\n")]),
    ("c14-clear-before", "bug", ["C14"], [(R, RJ, "    workers_.clear();\n")]),
    ("c14-close-before", "bug", ["C14"], [(R, CLOSE, ""), (R, RJ, CLOSE + RJ)]),
    ("c14-detach", "bug", ["C14"], [(C, "            worker.join();", "            worker.detach();")]),
    ("c14-break", "bug", ["C14"], [(C, "            worker.join();\n        }\n", "            worker.join();\n            break;\n        }\n")]),
    ("c14-loop-ignores-stop", "bug", ["C14"], [(C, "    while (!impl_->stop_.load()) {", "    while (true) {"), (C, "        if (impl_->stop_.load())\n            break;\n", "")]),
    ("c14-cancel-no-notify", "bug", ["C14"], [("src/event.cpp", "    isCancelled_ = true;\n    settedCondVar_.notify_all();\n", "    isCancelled_ = true;\n"), (S, ("callListSetEvent_.wait(30)", "all"), "callListSetEvent_.wait(-1)")]),
    ("c14-index-loop", "same", ["C14"], [(R, RJ, """    for (size_t i = 0; i < workers_.size(); ++i) {
        if (workers_[i].joinable()) {
            workers_[i].join();
        }
    }
    workers_.clear();
""")]),
    ("c14-iter-loop", "same", ["C14"], [(R, RJ, """    for (auto it = workers_.begin(); it != workers_.end(); ++it) {
        if (it->joinable()) it->join();
    }
    workers_.clear();
""")]),
    ("c14-pop-loop", "same", ["C14"], [(R, RJ, """    while (!workers_.empty()) {
        if (workers_.back().joinable()) workers_.back().join();
        workers_.pop_back();
    }
""")]),
    ("c14-foreach", "same", ["C14"], [(R, "#include", "#include <algorithm>\n#include") and (R, RJ, """    std::for_each(workers_.begin(), workers_.end(), [](std::thread& t) { if (t.joinable()) t.join(); });
    workers_.clear();
"""), (R, '#include "resp_dispatcher.h"', '#include "resp_dispatcher.h"\n#include <algorithm>')]),
    ("c14-helper", "same", ["C14"], [(R, RJ, "    joinAll(workers_);\n    workers_.clear();\n"), (R, "bool RespDispatcher::init() {", "static void joinAll(std::vector<std::thread>& ws) {\n    for (auto& t : ws) {\n        if (!t.joinable()) continue;\n        t.join();\n    }\n}\n\nbool RespDispatcher::init() {")]),
    ("c14-emplace", "same", ["C14"], [(R, "workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));", "workers_.emplace_back(&RespDispatcher::dispatchRespThreadProc, this);")]),
    ("c14-push-lambda", "same", ["C14"], [(R, "workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));", "workers_.push_back(std::thread([this]() { dispatchRespThreadProc(); }));")]),
    ("c14-count-notify", "same", ["C14"], [(R, RN, "    for (size_t i = 0; i < workers_.size(); ++i) {\n        respMsgQueue_->notifyRead();\n    }\n")]),
    ("c14-const-notify", "same", ["C14"], [(R, RN, "    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {\n        respMsgQueue_->notifyRead();\n    }\n")]),
    ("c14-swap-join", "same", ["C14"], [(R, RJ, "    std::vector<std::thread> ws;\n    ws.swap(workers_);\n    for (auto& t : ws) {\n        t.join();\n    }\n")]),
    ("c14-member-thread", "same", ["C14"], [("src/sender.h", "    std::vector<std::thread> callWorkers_;", "    std::thread callWorker_;"), (S, """    for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
        callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
    }
""", "    callWorker_ = std::thread(&Sender::sendCallThreadProc, this);\n"), (S, CALLJ, "    if (callWorker_.joinable()) {\n        callWorker_.join();\n    }\n")]),
    ("c14-order", "same", ["C14"], [(S, "    stopEvent_.set();\n\n    callListSetEvent_.cancel();\n    respListSetEvent_.cancel();\n", "    respListSetEvent_.cancel();\n    callListSetEvent_.cancel();\n    stopEvent_.set();\n")]),
]
