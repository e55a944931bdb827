# C03: variables with static storage
SH, V, S, R = "src/string_helper.cpp", "src/veigar.cpp", "src/sender.cpp", "src/resp_dispatcher.cpp"
L = "src/log.cpp"
M = []
def bug(n, *e): M.append(("c03-" + n, "bug", ["C03"], list(e)))
def same(n, *e): M.append(("c03-" + n, "same", ["C03"], list(e)))
FMT = """    char* msgBuf = nullptr;
    size_t msgBufSize = 1024;
"""
bug("static-buf", (SH, FMT, """    static char fixedBuf[4096];
    va_list copy;
    VA_COPY(copy, argList);
    const int len = vsnprintf(fixedBuf, sizeof(fixedBuf), format, copy);
    if (len >= 0 && len < (int)sizeof(fixedBuf)) {
        output.assign(fixedBuf);
        return true;
    }
""" + FMT))
same("tls-buf", (SH, FMT, """    static thread_local char fixedBuf[4096];
    va_list copy;
    VA_COPY(copy, argList);
    const int len = vsnprintf(fixedBuf, sizeof(fixedBuf), format, copy);
    if (len >= 0 && len < (int)sizeof(fixedBuf)) {
        output.assign(fixedBuf);
        return true;
    }
""" + FMT))
bug("static-size", (SH, FMT, FMT.replace("size_t msgBufSize = 1024;", "static size_t msgBufSize = 1024;")))
bug("count-static", (S, "bool Sender::addCall(const Sender::CallMeta& cm) {\n", "static int64_t g_calls = 0;\nbool Sender::addCall(const Sender::CallMeta& cm) {\n    g_calls++;\n"))
same("count-atomic", (S, "bool Sender::addCall(const Sender::CallMeta& cm) {\n", "static std::atomic<int64_t> g_calls{0};\nbool Sender::addCall(const Sender::CallMeta& cm) {\n    g_calls++;\n"), (S, '#include "log.h"\n', '#include "log.h"\n#include <atomic>\n'))
bug("count-other-lock", (S, "bool Sender::addCall(const Sender::CallMeta& cm) {\n    callListMutex_.lock();\n", "static int64_t g_sent = 0;\nbool Sender::addCall(const Sender::CallMeta& cm) {\n    callListMutex_.lock();\n    g_sent++;\n"), (S, "bool Sender::addResp(const Sender::RespMeta& rm) {\n    respListMutex_.lock();\n", "bool Sender::addResp(const Sender::RespMeta& rm) {\n    respListMutex_.lock();\n    g_sent++;\n"))
same("static-const", (R, "            ResultMeta retMeta;\n            CallResult callRet;", "            static const std::string kUninit = \"x\";\n            if (kUninit.empty()) break;\n            ResultMeta retMeta;\n            CallResult callRet;"))
same("static-const-int", (S, "        int64_t waitMS = 0;\n", "        static const int64_t kSlice = 5;\n        int64_t waitMS = kSlice - 5;\n"))
same("static-init-once", (V, "    cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();\n", "    static const int64_t first = TimeUtil::GetCurrentTimestamp();\n    cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();\n    if (cm.startCallTimePoint < first) veigar::log(\"Veigar: the clock was set back.\\n\");\n"))
