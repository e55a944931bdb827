C, R, S, V, I = "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "src/veigar.cpp", "include/veigar/veigar.inl"
SK = "        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());\n"
M = [
    ("c11-no-reset", "bug", ["C11"], [(R, "        respPac.reset();\n", "")]),
    ("c11-no-skip", "bug", ["C11"], [(C, SK, "")]),
    ("c11-reset-early", "bug", ["C11"], [(R, "        respPac.skip_nonparsed_buffer(respPac.nonparsed_size());\n        respPac.reset();\n        respPac.reset_zone();\n", ""), (R, "        respPac.buffer_consumed((size_t)written);\n", "        respPac.skip_nonparsed_buffer(respPac.nonparsed_size());\n        respPac.reset();\n        respPac.buffer_consumed((size_t)written);\n")]),
    ("c11-reset-parsed-only", "bug", ["C11"], [(C, "            bool nextRet = false;\n", "            bool nextRet = false;\n            nextOk = false;\n"), (C, "            if (!nextRet) {\n                break;", "            nextOk = nextRet;\n            if (!nextRet) {\n                break;"), (C, "        do {\n            veigar_msgpack", "        bool nextOk = false;\n        do {\n            veigar_msgpack"), (C, "        callPac.reset();\n", "        if (nextOk) callPac.reset();\n")]),
    ("c11-consumed-cap", "bug", ["C11"], [(C, "        callPac.buffer_consumed((size_t)written);", "        callPac.buffer_consumed(callPac.buffer_capacity());")]),
    ("c11-consumed-minus", "bug", ["C11"], [(R, "        respPac.buffer_consumed((size_t)written);", "        respPac.buffer_consumed((size_t)written - 1);")]),
    ("c11-cap-expected", "bug", ["C11"], [(C, "if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {\n            if (written", "if (!impl_->callMsgQueue_->popFront(callPac.buffer(), veigar_->expectedMsgMaxSize(), written)) {\n            if (written")]),
    ("c11-stale-buf", "bug", ["C11"], [(C, "    int64_t written = 0L;\n", "    int64_t written = 0L;\n    char* const buf = callPac.buffer();\n    const size_t cap = callPac.buffer_capacity();\n"), (C, "if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {\n            if (written", "if (!impl_->callMsgQueue_->popFront(buf, cap, written)) {\n            if (written")]),
    ("c11-reserve-const", "bug", ["C11"], [(R, "respPac.reserve_buffer((size_t)written);", "respPac.reserve_buffer(4096);")]),
    ("c11-continue-after-exc", "bug", ["C11"], [(C, "            if (!nextRet) {\n                break;", "            if (!nextRet) {\n                if (callPac.nonparsed_size() == 0) goto next;\n                break;"), (C, "        callPac.reset_zone();\n    }", "        callPac.reset_zone();\n    next:;\n    }")]),
    ("c11-reset-throws", "bug", ["C11"], [(C, "        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());\n        callPac.reset();\n        callPac.reset_zone();\n", ""), (C, "                nextRet = callPac.next(obj);\n", "                nextRet = callPac.next(obj);\n                if (!nextRet) { callPac.skip_nonparsed_buffer(callPac.nonparsed_size()); callPac.reset(); }\n")]),
    ("c11-fresh-unpacker", "same", ["C11"], [(C, "        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());\n        callPac.reset();\n        callPac.reset_zone();\n", "        callPac = veigar_msgpack::unpacker();\n        callPac.reserve_buffer(1024);\n")]),
    ("c11-local-unpacker", "same", ["C11"], [(C, "        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());\n        callPac.reset();\n        callPac.reset_zone();\n", ""),
        (C, "        written = 0L;\n        if (!impl_->callMsgQueue_->waitForRead(-1))", "        veigar_msgpack::unpacker callPac;\n        callPac.reserve_buffer(1024);\n        written = 0L;\n        if (!impl_->callMsgQueue_->waitForRead(-1))")]),
    ("c11-remove", "same", ["C11"], [(C, "        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());\n        callPac.reset();\n        callPac.reset_zone();\n", "        callPac.reset();\n        callPac.remove_nonparsed_buffer();\n")]),
    ("c11-vars", "same", ["C11"], [(R, "        if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {\n            if (written", "        char* const p = respPac.buffer();\n        const std::size_t cap = respPac.buffer_capacity();\n        bool popped = respMsgQueue_->popFront(p, cap, written);\n        if (!popped) {\n            if (written")]),
    ("c11-one-object", "same", ["C11"], [(R, "        } while (true);  // msgpack", "        } while (false);  // msgpack")]),
    ("c11-reserve-more", "same", ["C11"], [(R, "respPac.reserve_buffer((size_t)written);", "respPac.reserve_buffer((size_t)written + 64);")]),
]
