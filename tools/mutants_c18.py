S = "src/sender.cpp"
R = "src/resp_dispatcher.cpp"
C = "src/call_dispatcher.cpp"
V = "src/veigar.cpp"
CR = """            if (veigar_->callDisp_->isInit()) {
                veigar_->callDisp_->uninit();
            }

            if (respDispatcher_ &&"""
M = [
    ("c18-call-not-uninit", "bug", ["C18"], [(V, CR, "            if (respDispatcher_ &&")]),
    ("c18-no-null-check", "bug", ["C18"], [(V, "if (respDispatcher_ && respDispatcher_->isInit()) {", "if (respDispatcher_->isInit()) {")]),
    ("c18-no-null-check2", "bug", ["C18"], [(V, "            if (sender_) {\n                sender_->uninit();", "            {\n                sender_->uninit();")]),
    ("c18-forget-break", "bug", ["C18"], [(V, '                veigar::log("Veigar: Error: Init response dispatcher failed.\\n");\n                break;\n', '                veigar::log("Veigar: Error: Init response dispatcher failed.\\n");\n')]),
    ("c18-ignore-create", "bug", ["C18"], [(R, "    if (!respMsgQueue_->create(veigar_->channelName() + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX)) {", "    respMsgQueue_->create(veigar_->channelName() + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX);\n    if (!respMsgQueue_) {"), ]),
    ("c18-create-late", "bug", ["C18"], [(C, """        veigar::log("Veigar: Error: Create call message queue(%s) failed.\\n", veigar_->channelName().c_str());
        return false;
    }

    impl_->stop_.store(false);

    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
    }
""", """        veigar::log("Veigar: Error: Create call message queue(%s) failed.\\n", veigar_->channelName().c_str());
        return false;
    }
"""), (C, "    if (!impl_->callMsgQueue_->create(", """    impl_->stop_.store(false);

    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
    }
    if (!impl_->callMsgQueue_->create(""")]),
    ("c18-init-flag-early", "bug", ["C18"], [(V, "            isInit_ = true;\n        } while", "        } while"), (V, "            channelName_ = channelName;\n", "            channelName_ = channelName;\n            isInit_ = true;\n")]),
    ("c18-call-init-flag", "bug", ["C18"], [(C, "    init_ = false;\n", "")]),
    ("c18-fail-true", "bug", ["C18"], [(V, "        return isInit_;\n    }\n\n    void uninit", "        return true;\n    }\n\n    void uninit")]),
    ("c18-goto", "same", ["C18"], [(V, "                veigar::log(\"Veigar: Error: Init sender failed.\\n\");\n                break;\n", "                break;\n")]),
    ("c18-order", "same", ["C18"], [(V, CR, "            if (respDispatcher_ &&"), (V, "            if (sender_) {\n                sender_->uninit();\n            }\n\n            uuid_", "            if (sender_) {\n                sender_->uninit();\n            }\n\n            if (veigar_->callDisp_->isInit()) {\n                veigar_->callDisp_->uninit();\n            }\n\n            uuid_")]),
    ("c18-uninit-guard", "same", ["C18"], [(V, CR, "            veigar_->callDisp_->uninit();\n\n            if (respDispatcher_ &&")]),
    ("c18-close-on-fail", "same", ["C18", "C13"], [(R, '        veigar::log("Veigar: Error: Create response message queue(%s) failed.\\n", veigar_->channelName().c_str());\n', '        veigar::log("Veigar: Error: Create response message queue(%s) failed.\\n", veigar_->channelName().c_str());\n        respMsgQueue_.reset();\n')]),
    # C25
    ("c25-stop-left", "bug", ["C25"], [(C, "    impl_->stop_.store(false);\n", "")]),
    ("c25-init-left", "bug", ["C25"], [(C, "    init_ = false;\n", "")]),
    ("c25-isinit-left", "bug", ["C25"], [(V, "        respDispatcher_.reset();\n\n        isInit_ = false;\n", "        respDispatcher_.reset();\n")]),
    ("c25-channel-once", "bug", ["C25"], [(V, "            channelName_ = channelName;\n            msgQ", "            if (channelName_.empty()) channelName_ = channelName;\n            msgQ")]),
    ("c25-cap-once", "bug", ["C25"], [(V, "            msgQueueCapacity_ = msgQueueCapacity;\n", "            if (msgQueueCapacity_ == 0) msgQueueCapacity_ = msgQueueCapacity;\n")]),
    ("c25-disp-kept", "bug", ["C25"], [(V, "            sender_ = std::make_shared<Sender>(veigar_);\n", "            if (!sender_) sender_ = std::make_shared<Sender>(veigar_);\n"), (V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_", "        respDispatcher_.reset();\n\n        isInit_")]),
    ("c25-disp-kept-ok", "same", ["C25"], [(V, "            respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);\n", "            if (!respDispatcher_) respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);\n"), (V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_", "        sender_.reset();\n\n        isInit_")]),
    ("c25-no-close", "bug", ["C25"], [(C, "        impl_->callMsgQueue_->close();\n        impl_->callMsgQueue_.reset();\n", "")]),
    ("c25-workers-left", "bug", ["C25", "C14"], [(C, "    impl_->workers_.clear();\n", "")]),
    ("c25-stop-start", "same", ["C25"], [(C, "    impl_->stop_.store(false);\n", ""), (C, "    init_ = false;\n", "    init_ = false;\n    impl_->stop_.store(false);\n")]),
    ("c25-reset-order", "same", ["C25", "C14"], [(V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_ = false;", "        isInit_ = false;\n        respDispatcher_.reset();\n        sender_.reset();")]),
]
