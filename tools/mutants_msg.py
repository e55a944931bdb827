C, R, S, V, I = "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "src/veigar.cpp", "include/veigar/veigar.inl"
B, RE, RC, CR, DC = "include/veigar/call_dispatcher.inl", "include/veigar/detail/response.h", "src/response.cpp", "include/veigar/call_result.h", "include/veigar/detail/call.h"
ALL4 = ["C09", "C10", "C21", "C24"]
EXC = '''    } catch (std::exception& e) {
        return Response::MakeResponseWithError(
            callId,
            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                       "The exception contained this information: %s.",
                                       funcName.c_str(), args.via.array.size, e.what()));
    } catch (...) {'''
M = [
    # C09
    ("c09-id-swapped", "bug", ["C09"], [(C, "auto&& callId = std::get<1>(the_call);\n    callerChannelName = std::get<2>(the_call);", "auto&& callId = std::get<2>(the_call);\n    callerChannelName = std::get<1>(the_call);")]),
    ("c09-flag-unchecked", "bug", ["C09"], [(R, '''                    veigar::log("Veigar: Error: Invalid response message flag: %d.\\n", msgFlag);
                    continue;''', '''                    veigar::log("Veigar: Error: Invalid response message flag: %d.\\n", msgFlag);''')]),
    ("c09-any-pending", "bug", ["C09"], [(R, "auto itCall = ongoingCalls_.find(callId);", "auto itCall = ongoingCalls_.size() == 1 ? ongoingCalls_.begin() : ongoingCalls_.find(callId);")]),
    ("c09-own-channel", "bug", ["C09"], [(C, "veigar_->sendResponse(callerChannelName,", "veigar_->sendResponse(veigar_->channelName(),")]),
    ("c09-answer-self", "bug", ["C09"], [(V, "    rm.channel = targetChannel;", "    rm.channel = impl_->channelName_;")]),
    ("c09-name-in-id", "bug", ["C09"], [(I, ("std::make_tuple(0, callId, curChannelName, funcName, argsObj)", 1), "std::make_tuple(0, callId, targetChannel, funcName, argsObj)")]),
    ("c09-error-answer-no-id", "bug", ["C09"], [(RE, "    inst.callId_ = callId;\n    inst.error_", "    inst.error_")]),
    ("c09-registered-name", "bug", ["C09"], [(S, "respDisp_->addOngoingCall(cm.callId, cm.resultMeta);", "respDisp_->addOngoingCall(cm.channel, cm.resultMeta);")]),
    ("c09-stale-channel", "bug", ["C09"], [(C, "                std::string callerChannelName;\n                Response resp", "                Response resp"), (C, "    int64_t written = 0L;\n    while", "    std::string callerChannelName;\n    int64_t written = 0L;\n    while"), ]),
    ("c09-func-by-id", "bug", ["C09"], [(C, "funcs_.find(funcName)", "funcs_.find(callId)")]),
    ("c09-getters", "same", ALL4, [(R, '''                uint32_t msgFlag = std::get<0>(r);
                if (msgFlag != 1) {''', '''                if (std::get<0>(r) != 1) {
                    const int msgFlag = std::get<0>(r);''')]),
    ("c09-tie", "same", ALL4, [(C, '''    auto&& type = std::get<0>(the_call);

    auto&& callId = std::get<1>(the_call);
    callerChannelName = std::get<2>(the_call);
''', '''    int8_t type;
    std::string callId, funcName;
    veigar_msgpack::object args;
    std::tie(type, callId, callerChannelName, funcName, args) = the_call;
'''), (C, "    auto&& funcName = std::get<3>(the_call);\n    auto&& args = std::get<4>(the_call);\n", "")]),
    ("c09-args-helper", "same", ALL4, [(C, "Response CallDispatcher::dispatchCall(", '''static bool decodeCall(veigar_msgpack::object const& msg, CallDispatcher::CallMsg& out) {
    try {
        msg.convert(out);
        return true;
    } catch (std::exception& e) {
        veigar::log("Veigar: Error: An exception occurred during parsing response message: %s.\\n", e.what());
    } catch (...) {
        veigar::log("Veigar: Error: An exception occurred during parsing response message.\\n");
    }
    return false;
}

Response CallDispatcher::dispatchCall('''), (C, '''    try {
        msg.convert(the_call);
    } catch (std::exception& e) {
        veigar::log("Veigar: Error: An exception occurred during parsing response message: %s.\\n", e.what());
        return Response::MakeEmptyResponse();
    } catch (...) {
        veigar::log("Veigar: Error: An exception occurred during parsing response message.\\n");
        return Response::MakeEmptyResponse();
    }
''', '''    if (!decodeCall(msg, the_call)) {
        return Response::MakeEmptyResponse();
    }
'''), ("include/veigar/call_dispatcher.h", ("private:", 1), "public:")]),
    # C10
    ("c10-no-catch-all", "bug", ["C10"], [(C, '''    } catch (...) {
        return Response::MakeResponseWithError(
            callId,
            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                       "The exception is not derived from std::exception. No further information available.",
                                       funcName.c_str(), args.via.array.size));
    }
''', "    }\n")]),
    ("c10-unknown-silent", "bug", ["C10"], [(C, '''        return Response::MakeResponseWithError(
            callId,
            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));''', '''        callerChannelName.clear();
        return Response::MakeEmptyResponse();''')]),
    ("c10-exc-as-result", "bug", ["C10"], [(C, EXC, EXC.replace("MakeResponseWithError", "MakeResponseWithResult").replace("            StringHelper", "            (std::string)StringHelper"))]),
    ("c10-twice", "bug", ["C10"], [(C, '''                    veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\\n",''', '''                    veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg);
                    veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\\n",'''), (C, "                std::string errMsg;\n", '                std::string errMsg;\n                veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg);\n')]),
    ("c10-break-on-lock", "bug", ["C10"], [(C, '''            veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\\n");
            impl_->callMsgQueue_->notifyRead();  // the message is still queued, restore its read signal
            continue;''', '''            veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\\n");
            impl_->callMsgQueue_->notifyRead();  // the message is still queued, restore its read signal
            break;''')]),
    ("c10-next-std-only", "same", ["C10"], [(R, '''            } catch (...) {
                veigar::log(
                    "Veigar: Error: An exception occurred during parsing received data. The exception is not derived from std::exception. "
                    "No further information available.\\n");
                nextRet = false;
            }
''', "            }\n")]),
    ("c10-callback-noexcept", "bug", ["C10"], [(R, '''    } catch (...) {
        veigar::log("Veigar: Error: An exception occurred during delivering call result.\\n");
    }
''', "    }\n")]),
    ("c10-flag-no-answer", "bug", ["C10"], [(C, '''        return Response::MakeResponseWithError(callId, std::string("Invalid message flag."));''', '''        return Response::MakeEmptyResponse();''')]),
    ("c10-ret-thread", "bug", ["C10"], [(R, '''                veigar::log("Veigar: Error: An exception occurred during parsing received data: %s.\\n", e.what());
                nextRet = false;''', '''                veigar::log("Veigar: Error: An exception occurred during parsing received data: %s.\\n", e.what());
                return;''')]),
    ("c10-answer-once-sent-var", "same", ALL4, [(C, '''                if (!veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {''', '''                const uint8_t* const bytes = (const uint8_t*)respBuf.data();
                const bool sent = veigar_->sendResponse(callerChannelName, bytes, respBuf.size(), errMsg);
                if (!sent) {''')]),
    ("c10-error-text-helper", "same", ALL4, [(C, "Response CallDispatcher::dispatchCall(", '''static std::string errorText(const std::string& name, int n, const char* what) {
    if (!what) {
        return StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                          "The exception is not derived from std::exception. No further information available.",
                                          name.c_str(), n);
    }
    return StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                      "The exception contained this information: %s.",
                                      name.c_str(), n, what);
}

Response CallDispatcher::dispatchCall('''), (C, EXC, '''    } catch (std::exception& e) {
        return Response::MakeResponseWithError(callId, errorText(funcName, (int)args.via.array.size, e.what()));
    } catch (...) {'''), (C, '''        return Response::MakeResponseWithError(
            callId,
            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                       "The exception is not derived from std::exception. No further information available.",
                                       funcName.c_str(), args.via.array.size));''', '''        return Response::MakeResponseWithError(callId, errorText(funcName, (int)args.via.array.size, nullptr));''')]),
    # C21
    ("c21-early-success", "bug", ["C21"], [(R, '''                auto&& error_obj = std::get<2>(r);''', '''                callRet.errCode = ErrorCode::SUCCESS;
                auto&& error_obj = std::get<2>(r);'''), (R, '''                callRet.errorMessage = StringHelper::StringPrintf("An exception occurred during parsing response message: %s.", e.what());''', "                veigar::log(\"%s\", e.what());")]),
    ("c21-error-dropped", "bug", ["C21"], [(R, "                    callRet.errorMessage = errObjHandle.get().as<std::string>();", "                    callRet.errCode = ErrorCode::FAILED;")]),
    ("c21-nil-inverted", "bug", ["C21"], [(R, "if (!error_obj.is_nil()) {", "if (error_obj.type == veigar_msgpack::type::MAP) {")]),
    ("c21-no-message", "bug", ["C21"], [(S, 'errMsg = "Unable to push message to queue.";', "mq.get();")]),
    ("c21-sent-success", "bug", ["C21"], [(I, '''        CallResult cr;
        cr.errCode = ErrorCode::TIMEOUT;
        cr.errorMessage = "Waiting''', '''        CallResult cr;
        cr.errCode = ErrorCode::SUCCESS;
        cr.errorMessage = "Waiting''')]),
    ("c21-issuccess-or", "bug", ["C21"], [(CR, "errCode == ErrorCode::SUCCESS && errorMessage.empty()", "errCode == ErrorCode::SUCCESS || errorMessage.empty()")]),
    ("c21-issuccess-code", "bug", ["C21"], [(CR, "errCode == ErrorCode::SUCCESS && errorMessage.empty()", "errCode == ErrorCode::SUCCESS")]),
    ("c21-result-idx", "bug", ["C21", "C24"], [(R, "veigar_msgpack::clone(std::get<3>(r))", "veigar_msgpack::clone(std::get<2>(r))")]),
    ("c21-init-failed-ec", "bug", ["C01", "C21"], [(S, ("ErrorCode ec = ErrorCode::FAILED;", 1), "ErrorCode ec = ErrorCode::SUCCESS;")]),
    ("c21-issuccess-ifs", "same", ALL4, [(CR, "return (errCode == ErrorCode::SUCCESS && errorMessage.empty());", "if (errCode != ErrorCode::SUCCESS) return false;\n        return errorMessage.size() == 0;")]),
    ("c21-issuccess-neg", "same", ALL4, [(CR, "return (errCode == ErrorCode::SUCCESS && errorMessage.empty());", "return !(!errorMessage.empty() || errCode != ErrorCode::SUCCESS);")]),
    ("c21-error-direct", "same", ALL4, [(R, '''                    veigar_msgpack::object_handle errObjHandle = veigar_msgpack::clone(error_obj);
                    callRet.errorMessage = errObjHandle.get().as<std::string>();''', '''                    callRet.errorMessage = error_obj.as<std::string>();''')]),
    ("c21-error-convert", "same", ALL4, [(R, '''                    veigar_msgpack::object_handle errObjHandle = veigar_msgpack::clone(error_obj);
                    callRet.errorMessage = errObjHandle.get().as<std::string>();''', '''                    std::string text;
                    error_obj.convert(text);
                    callRet.errorMessage = text;''')]),
    ("c21-failed-helper", "same", ALL4, [(I, "template <typename... Args>\nCallResult Veigar::syncCall", '''inline CallResult makeFailed(ErrorCode code, const char* text) {
    CallResult cr;
    cr.errCode = code;
    cr.errorMessage = text;
    return cr;
}

template <typename... Args>
CallResult Veigar::syncCall'''), (I, '''        CallResult cr;
        cr.errCode = ErrorCode::FAILED;
        cr.errorMessage = "Unknown Error.";
        return cr;''', '''        return makeFailed(ErrorCode::FAILED, "Unknown Error.");'''), (I, '''        CallResult cr;
        cr.errCode = ErrorCode::TIMEOUT;
        cr.errorMessage = "Waiting for the call result timeout.";
        return cr;''', '''        return makeFailed(ErrorCode::TIMEOUT, "Waiting for the call result timeout.");''')]),
    # C24
    ("c24-fields-swapped", "bug", ["C24", "C09"], [(RC, '''                  error_ ? error_->get() : veigar_msgpack::object(),
                  result_ ? result_->get() : veigar_msgpack::object());''', '''                  result_ ? result_->get() : veigar_msgpack::object(),
                  error_ ? error_->get() : veigar_msgpack::object());''')]),
    ("c24-call-order", "bug", ["C24", "C09"], [(I, ("std::make_tuple(0, callId, curChannelName, funcName, argsObj)", 2), "std::make_tuple(0, callId, funcName, curChannelName, argsObj)")]),
    ("c24-count-4", "bug", ["C24", "C10"], [(C, "msg.via.array.size != 5", "msg.via.array.size != 4")]),
    ("c24-count-le", "bug", ["C24"], [(C, "args.via.array.size != (uint32_t)expected", "args.via.array.size < (uint32_t)expected")]),
    ("c24-no-array-check", "bug", ["C24"], [(C, "args.type != veigar_msgpack::type::ARRAY || ", "")]),
    ("c24-no-args-check", "bug", ["C24"], [(B, ("                                     checkArgsCount(args, args_count);\n", 1), "")]),
    ("c24-zero-no-check", "bug", ["C24"], [(B, ("            checkArgsCount(args, args_count);\n            func();", 1), "            (void)args_count;\n            func();")]),
    ("c24-result-lost", "bug", ["C24"], [(B, ("return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));", 2), "return detail::make_unique<veigar_msgpack::object_handle>(veigar_msgpack::object(), std::move(z));")]),
    ("c24-msgflag", "bug", ["C24", "C09", "C10"], [(I, ("std::make_tuple(0, callId, curChannelName, funcName, argsObj)", 1), "std::make_tuple(1, callId, curChannelName, funcName, argsObj)")]),
    ("c24-respflag", "bug", ["C24", "C09", "C10"], [(RC, "ResponseMsg r(1,", "ResponseMsg r(2,")]),
    ("c24-check-eq", "same", ALL4, [(C, '''    if (args.type != veigar_msgpack::type::ARRAY || args.via.array.size != (uint32_t)expected) {
        throw std::invalid_argument("The number of arguments does not match");
    }''', '''    const bool fits = args.type == veigar_msgpack::type::ARRAY && (int)args.via.array.size == expected;
    if (fits) {
        return;
    }
    throw std::invalid_argument("The number of arguments does not match");''')]),
    ("c24-check-two-bounds", "same", ALL4, [(C, "args.via.array.size != (uint32_t)expected", "args.via.array.size < (uint32_t)expected || args.via.array.size > (uint32_t)expected")]),
    ("c24-pack-tuple", "same", ALL4, [(RC, '''    ResponseMsg r(1,
                  callId_,
                  error_ ? error_->get() : veigar_msgpack::object(),
                  result_ ? result_->get() : veigar_msgpack::object());
''', '''    veigar_msgpack::object err, res;
    if (error_) {
        err = error_->get();
    }
    if (result_) {
        res = result_->get();
    }
    auto r = std::make_tuple(1, callId_, err, res);
''')]),
    ("c24-as", "same", ALL4, [(B, ('''                           args_type args_real;
                           // note: dispatcher will catch this type_error exception.
                           args.convert(args_real);
''', 1), '''                           args_type args_real = args.as<args_type>();
''')]),
    ("c24-size-helper", "same", ALL4, [(C, "    if (msg.via.array.size != 5) {", "    const uint32_t fields = msg.via.array.size;\n    if (!(fields == 5)) {")]),
]
