Q = "src/message_queue.cpp"
S = "src/sender.cpp"
R = "src/resp_dispatcher.cpp"
C = "src/call_dispatcher.cpp"
V = "src/veigar.cpp"
CF = "include/veigar/config.h"
M = [
    ("c16-open-lock-name", "bug", ["C16"], [(Q, ('std::string rwLockName = path + "_rwlock";', 2), 'std::string rwLockName = path + "_lock";')]),
    ("c16-same-suffix", "bug", ["C16"], [(CF, '#define VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX "_resp"', '#define VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX "_call"')]),
    ("c16-nested-suffix", "bug", ["C16"], [(CF, '#define VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX "_resp"', '#define VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX ""')]),
    ("c16-sem-shared-name", "bug", ["C16"], [(Q, '_readsmp', '_rwlock')] and [(Q, ('path + "_readsmp"', "all"), 'path + "_rwlock"')]),
    ("c16-resp-to-call-queue", "bug", ["C16"], [(S, "VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX", "VEIGAR_CALL_QUEUE_NAME_SUFFIX")]),
    ("c16-self-resp-swapped", "bug", ["C16"], [(S, "mq = selfRespMQ_;", "mq = selfCallMQ_;")]),
    ("c16-init-args-swapped", "bug", ["C16"], [(V, "init(respDispatcher_, veigar_->callDisp_->messageQueue(), respDispatcher_->messageQueue())", "init(respDispatcher_, respDispatcher_->messageQueue(), veigar_->callDisp_->messageQueue())")]),
    ("c16-cache-shared", "bug", ["C16"], [(S, "targetRespMsgQueues_[channelName] = queue;", "targetCallMsgQueues_[channelName] = queue;")]),
    ("c16-shortcut-prefix", "bug", ["C16"], [(S, "if (cm.channel == veigar_->channelName()) {", "if (cm.channel.find(veigar_->channelName()) == 0) {")]),
    ("c16-shortcut-uuid", "bug", ["C16"], [(S, "if (rm.channel == veigar_->channelName()) {", "if (rm.channel == veigar_->channelName() || rm.channel.empty()) {")]),
    ("c16-truncated", "bug", ["C16"], [(C, "create(veigar_->channelName() + VEIGAR", "create(veigar_->channelName().substr(0, 64) + VEIGAR"), (S, "queue->open(channelName + VEIGAR_CALL", "queue->open(channelName.substr(0, 64) + VEIGAR_CALL")]),
    ("c16-open-callid", "bug", ["C16"], [(S, "mq = getTargetCallMessageQueue(cm.channel);", "mq = getTargetCallMessageQueue(cm.callId);")]),
    ("c16-shm-no-suffix", "bug", ["C16"], [(Q, ('std::string shmName = path + "_shm";', 1), 'std::string shmName = path;')]),
    ("c16-shm-no-suffix-both", "same", ["C16"], [(Q, ('std::string shmName = path + "_shm";', "all"), 'std::string shmName = path;')]),
    ("c16-lock-init-2", "bug", ["C02"], [(Q, "rwLockName.c_str(), 1, 1", "rwLockName.c_str(), 2, 2")]),
    ("c16-signal-init-1", "bug", ["C06"], [(Q, "readSmp_->open(readSmpName, 0)", "readSmp_->open(readSmpName, 1)")]),
    ("c16-same-helper", "same", ["C16", "C02", "C06"], [(Q, ('path + "_rwlock"', "all"), 'lockName(path)'), (Q, "MessageQueue::MessageQueue(int32_t", 'static std::string lockName(const std::string& p) {\n    std::string n(p);\n    n.append("_rwlock");\n    return n;\n}\n\nMessageQueue::MessageQueue(int32_t'), (S, "queue->open(channelName + VEIGAR_CALL_QUEUE_NAME_SUFFIX)", "queue->open(StringHelper::StringPrintf(\"%s\" VEIGAR_CALL_QUEUE_NAME_SUFFIX, channelName.c_str()))")]),
    ("c16-same-rename", "same", ["C16"], [(CF, '#define VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX "_resp"', '#define VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX "_answers"')]),
    ("c16-same-merge-lookup", "same", ["C16"], [(S, "                if (cm.channel == veigar_->channelName()) {\n                    mq = selfCallMQ_;\n                }\n                else {\n                    mq = getTargetCallMessageQueue(cm.channel);\n                }\n", "                const std::string target = cm.channel;\n                const bool self = (veigar_->channelName().compare(target) == 0);\n                mq = self ? selfCallMQ_ : getTargetCallMessageQueue(target);\n")]),
    ("c16-same-insert", "same", ["C16"], [(S, "targetRespMsgQueues_[channelName] = queue;", "targetRespMsgQueues_.insert(std::make_pair(channelName, queue));")]),
]
