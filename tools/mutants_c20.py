S, V, G, L, R, D = "src/sender.cpp", "src/veigar.cpp", "src/string_helper.cpp", "src/log.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp"
Q, SM, U = "src/message_queue.cpp", "src/shared_memory.cpp", "src/uuid.cpp"
K = ["C20"]
VA = "            va_list va_copy;\n            VA_COPY(va_copy, argList);\n            const int err = vsnprintf(msgBuf, msgBufSize, format, va_copy);"
M = [
 ("fmt-printf-var", "bug", K, [(L, 'printf("%s", output.c_str());', "printf(output.c_str());")]),
 ("fmt-log-err", "bug", K, [(S, 'veigar::log("Veigar: Error: Send response failed: %s\\n", errMsg.c_str());', "veigar::log(errMsg.c_str());")]),
 ("fmt-log-cat", "bug", K, [(S, 'veigar::log("Veigar: Error: Send response failed: %s\\n", errMsg.c_str());', 'veigar::log(("Veigar: Error: Send response failed: " + errMsg + "\\n").c_str());')]),
 ("fmt-what", "bug", K, [(R, 'StringHelper::StringPrintf("An exception occurred during parsing response message: %s.", e.what())', "StringHelper::StringPrintf(e.what())")]),
 ("fmt-helper", "bug", K, [(R, 'veigar::log("Veigar: Error: An exception occurred during delivering call result: %s.\\n", e.what());', "logText(e.what());"), (R, "namespace veigar {\n", "namespace veigar {\nstatic void logText(const char* t) {\n    veigar::log(t);\n}\n")]),
 ("fmt-func", "bug", K, [(D, '"Could not find function \'%s\' with argument count %d.", funcName.c_str()', '("Could not find function \'" + funcName + "\' with argument count %d.").c_str()')]),
 ("fmt-64-as-d", "bug", K, [(SM, ('size: %" PRId64 ", err: %d.\\n", size_, err', 1), 'size: %d, err: %d.\\n", size_, err')]),
 ("fmt-missing", "bug", K, [(SM, ('size: %" PRId64 ", err: %d.\\n", size_, err', 2), 'size: %" PRId64 ", err: %d.\\n", size_')]),
 ("fmt-extra", "bug", K, [(S, 'veigar::log("Veigar: Error: Open call message queue(%s) failed.\\n", channelName.c_str())', 'veigar::log("Veigar: Error: Open call message queue failed.\\n", channelName.c_str())')]),
 ("fmt-swap", "bug", K, [(R, 'Pre-alloc response memory(%" PRId64 " bytes) failed: %s.\\n", written, e.what()', 'Pre-alloc response memory(%" PRId64 " bytes) failed: %s.\\n", e.what(), written')]),
 ("fmt-size_t-d", "bug", K, [(R, "Going-Call number: %zu.", "Going-Call number: %d.")]),
 ("fmt-s-int", "bug", K, [(R, "Invalid result meta type: %d.", "Invalid result meta type: %s.")]),
 ("fmt-f", "bug", K, [(R, "Invalid result meta type: %d.", "Invalid result meta type: %f.")]),
 ("fmt-n", "bug", K, [(R, "Invalid result meta type: %d.", "Invalid result meta type: %n.")]),
 ("fmt-uuid", "bug", K, [(U, '"%08x%04x%04x%04x%04x%08x",\n        Rand32()', '"%08x%04x%04x%04x%04x%08lx",\n        Rand32()')]),
 ("fmt-valist", "bug", K, [(G, (VA, 1), "            const int err = vsnprintf(msgBuf, msgBufSize, format, argList);")]),
 ("fmt-valist-once", "bug", K, [(G, (VA, 1), "            const int err = vsnprintf(msgBuf, msgBufSize, format, va_copy);"), (G, "    char* msgBuf = nullptr;\n    size_t msgBufSize = 1024;\n", "    char* msgBuf = nullptr;\n    size_t msgBufSize = 1024;\n    va_list va_copy;\n    VA_COPY(va_copy, argList);\n")]),
 ("fmt-bufsize", "bug", K, [(G, ("malloc(msgBufSize * sizeof(char));", 1), "malloc(1024);")]),
 ("fmt-bufsize2", "bug", K, [(G, ("            msgBuf = (char*)malloc(msgBufSize * sizeof(char));\n            if (!msgBuf) {\n                break;\n            }\n            memset", 1), "            msgBuf = (char*)malloc(msgBufSize);\n            msgBufSize *= 2;\n            if (!msgBuf) {\n                break;\n            }\n            if (0) memset")]),
 ("fmt-bufwide", "bug", K, [(G, "malloc(msgBufSize * sizeof(wchar_t))", "malloc(msgBufSize * sizeof(char))")]),
 # same
 ("fmt-same-helper", "same", K, [(R, 'veigar::log("Veigar: Error: An exception occurred during delivering call result: %s.\\n", e.what());', "logText(e.what());"), (R, "namespace veigar {\n", "namespace veigar {\nstatic void logText(const char* t) {\n    veigar::log(\"Veigar: Error: An exception occurred during delivering call result: %s.\\n\", t);\n}\n")]),
 ("fmt-same-const", "same", K, [(S, 'veigar::log("Veigar: Error: Send response failed: %s\\n", errMsg.c_str());', 'static const char kFmt[] = "Veigar: Error: Send response failed: %s\\n";\n                veigar::log(kFmt, errMsg.c_str());')]),
 ("fmt-same-const2", "same", K, [(S, 'veigar::log("Veigar: Error: Send response failed: %s\\n", errMsg.c_str());', 'const char* f = "Veigar: Error: Send response failed: %s\\n";\n                if (ec == ErrorCode::TIMEOUT) f = "Veigar: Error: Send response timed out: %s\\n";\n                veigar::log(f, errMsg.c_str());')]),
 ("fmt-same-param", "same", K, [(S, 'veigar::log("Veigar: Error: Send response failed: %s\\n", errMsg.c_str());', 'complain("Veigar: Error: Send response failed: %s\\n", errMsg);'), (S, "namespace veigar {\n", "namespace veigar {\nstatic void complain(const char* f, const std::string& t) {\n    veigar::log(f, t.c_str());\n}\n")]),
 ("fmt-same-puts", "same", K, [(L, 'printf("%s", output.c_str());', "fputs(output.c_str(), stdout);")]),
 ("fmt-same-lld", "same", K, [(SM, ('size: %" PRId64 ", err: %d.\\n", size_, err', 1), 'size: %lld, err: %d.\\n", (long long)size_, err')]),
 ("fmt-same-vlog", "same", K, [(G, (VA, 1), "            va_list again;\n            va_copy(again, argList);\n            const int err = vsnprintf(msgBuf, msgBufSize, format, again);\n            va_end(again);")]),
 ("fmt-same-measure", "same", K, [(G, ("    char* msgBuf = nullptr;\n    size_t msgBufSize = 1024;\n", 1), "    char* msgBuf = nullptr;\n    size_t msgBufSize = 1024;\n    va_list probe;\n    va_copy(probe, argList);\n    const int need = vsnprintf(nullptr, 0, format, probe);\n    va_end(probe);\n    if (need >= 0) msgBufSize = (size_t)need + 1;\n")]),
 ("fmt-same-oneshot", "same", K, [(G, "        StringPrintfV(format, args, output);\n        va_end(args);\n    } catch (std::exception& e) {\n        (e);\n        output.clear();\n    }\n\n    return output;", "        const bool ok = StringPrintfV(format, args, output);\n        va_end(args);\n        if (!ok) output.clear();\n    } catch (std::exception& e) {\n        (e);\n        output.clear();\n    }\n\n    return output;")]),
 ("fmt-same-ctn", "same", K, [(D, '"Could not find function \'%s\' with argument count %d.", funcName.c_str(), args.via.array.size', '"Could not find function \'%s\' with argument count %u.", funcName.c_str(), static_cast<unsigned>(args.via.array.size)')]),
]
