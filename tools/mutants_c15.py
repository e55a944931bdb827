V, U = "src/veigar.cpp", "src/uuid.cpp"
K = ["C15"]
ID = '    std::string callId = impl_->uuid_ + std::to_string((unsigned long long)idx) + "-" + funcName;\n'
FA = "    uint64_t idx = impl_->callIndex_.fetch_add(1);\n"
M = [
 ("id-nosep", "bug", K, [(V, ID, '    std::string callId = impl_->uuid_ + std::to_string((unsigned long long)idx) + funcName;\n')]),
 ("id-sep-digit", "bug", K, [(V, ID, '    std::string callId = impl_->uuid_ + std::to_string((unsigned long long)idx) + "0-" + funcName;\n')]),
 ("id-name-first", "bug", K, [(V, ID, '    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long long)idx);\n')]),
 ("id-no-uuid", "bug", K, [(V, ID, '    std::string callId = std::to_string((unsigned long long)idx) + "-" + funcName;\n')]),
 ("id-channel", "bug", K, [(V, ID, '    std::string callId = funcName + "-" + std::to_string((unsigned long long)idx);\n')]),
 ("id-no-number", "bug", K, [(V, ID, '    std::string callId = impl_->uuid_ + "-" + funcName;\n')]),
 ("id-trunc", "bug", K, [(V, ID, '    std::string callId = impl_->uuid_ + std::to_string((uint16_t)idx) + "-" + funcName;\n')]),
 ("id-mod", "bug", K, [(V, ID, '    std::string callId = impl_->uuid_ + std::to_string(idx % 10000) + "-" + funcName;\n')]),
 ("id-load-store", "bug", K, [(V, FA, "    uint64_t idx = impl_->callIndex_.load();\n    impl_->callIndex_.store(idx + 1);\n")]),
 ("id-load-inc", "bug", K, [(V, FA, "    uint64_t idx = impl_->callIndex_;\n    impl_->callIndex_++;\n")]),
 ("id-inc-load", "bug", K, [(V, FA, "    impl_->callIndex_++;\n    uint64_t idx = impl_->callIndex_;\n")]),
 ("id-plain", "bug", K, [(V, "    std::atomic<uint64_t> callIndex_ = { 0 };", "    uint64_t callIndex_ = 0;"), (V, FA, "    uint64_t idx = impl_->callIndex_++;\n")]),
 ("id-add0", "bug", K, [(V, FA, "    uint64_t idx = impl_->callIndex_.fetch_add(0);\n")]),
 ("id-16", "bug", K, [(V, "std::atomic<uint64_t> callIndex_", "std::atomic<uint16_t> callIndex_")]),
 ("id-32", "bug", K, [(V, "std::atomic<uint64_t> callIndex_", "std::atomic<uint32_t> callIndex_")]),
 ("id-rand", "bug", K, [(U, "    std::random_device rd;\n    return (uint32_t)rd();", "    return ((rand() & 0x7fff) | (rand() & 0x7fff) << 15 | (rand() & 0x3) << 30);")]),
 ("id-srand", "bug", K, [(U, "    std::random_device rd;\n    return (uint32_t)rd();", "    static bool s = (srand((unsigned)time(nullptr)), true);\n    (void)s;\n    return (uint32_t)rand();")]),
 ("id-mt-default", "bug", K, [(U, "    std::random_device rd;\n    return (uint32_t)rd();", "    static std::mt19937 g;\n    return (uint32_t)g();")]),
 ("id-mt-time", "bug", K, [(U, "    std::random_device rd;\n    return (uint32_t)rd();", "    static std::mt19937 g((unsigned)time(nullptr));\n    return (uint32_t)g();")]),
 ("id-little", "bug", K, [(U, '        "%08x%04x%04x%04x%04x%08x",\n        Rand32(),           // Generates a 32-bit Hex number\n', '        "%08x%04x%04x%04x%04x%08x",\n        0u,\n'), (U, "        Rand32() & 0xffff,\n        Rand32());", "        0u,\n        0u);")]),
 ("id-same-draw", "bug", K, [(U, "    return StringHelper::StringPrintf(\n        \"%08x%04x%04x%04x%04x%08x\",", "    const uint32_t r = Rand32();\n    return StringHelper::StringPrintf(\n        \"%08x%04x%04x%04x%04x%08x\","), (U, "        Rand32(),           // Generates a 32-bit Hex number\n        Rand32() & 0xffff,  //", "        r,           // Generates a 32-bit Hex number\n        r & 0xffff,  //"), (U, "((Rand32() & 0x0fff)", "((r & 0x0fff)"), (U, "(Rand32() & 0x3fff)", "(r & 0x3fff)"), (U, "        Rand32() & 0xffff,\n        Rand32());", "        r & 0xffff,\n        r);")]),
 ("id-static-uuid", "bug", K, [(V, "uuid_ = UUID::Create();", "static const std::string id = UUID::Create();\n        uuid_ = id;")]),
 ("id-channel-uuid", "bug", K, [(V, "uuid_ = UUID::Create();", "uuid_ = channelName;")]),
 ("id-unset", "bug", K, [(V, "uuid_ = UUID::Create();", "")]),
 ("id-short", "bug", K, [(V, "uuid_ = UUID::Create();", "uuid_ = UUID::Create().substr(0, 4);")]),
 ("id-short2", "bug", K, [(V, "std::string callId = impl_->uuid_ + ", "std::string callId = impl_->uuid_.substr(0, 8) + ")]),
 ("id-reset", "bug", K, [(V, "uuid_ = UUID::Create();", "if (uuid_.empty()) uuid_ = UUID::Create();\n        callIndex_ = 0;")]),
 ("id-ctor-reset", "bug", K, [(V, "uuid_ = UUID::Create();", "callIndex_ = 0;"), (V, "    std::string uuid_;", "    std::string uuid_ = UUID::Create();")]),
 # same
 ("id-same-pre", "same", K, [(V, FA, "    const uint64_t idx = ++impl_->callIndex_;\n")]),
 ("id-same-fmt", "same", K, [(V, ID, '    std::string callId = StringHelper::StringPrintf("%s%llu-%s", impl_->uuid_.c_str(), (unsigned long long)idx, funcName.c_str());\n'), (V, '#include "uuid.h"', '#include "uuid.h"\n#include "string_helper.h"')]),
 ("id-same-order", "same", K, [(V, ID, '    std::string callId = funcName + "@" + impl_->uuid_ + ":" + std::to_string(idx);\n')]),
 ("id-same-append", "same", K, [(V, ID, '    std::string callId = impl_->uuid_;\n    callId += std::to_string(idx);\n    callId += \'-\';\n    callId.append(funcName);\n')]),
 ("id-same-mutex", "same", K, [(V, "    std::atomic<uint64_t> callIndex_ = { 0 };", "    uint64_t callIndex_ = 0;\n    std::mutex idMutex_;"), (V, FA, "    uint64_t idx = 0;\n    {\n        std::lock_guard<std::mutex> g(impl_->idMutex_);\n        idx = impl_->callIndex_++;\n    }\n"), (V, '#include "uuid.h"', '#include "uuid.h"\n#include <mutex>')]),
 ("id-same-stream", "same", K, [(V, ID, '    std::ostringstream o;\n    o << impl_->uuid_ << idx << "-" << funcName;\n    std::string callId = o.str();\n'), (V, '#include "uuid.h"', '#include "uuid.h"\n#include <sstream>')]),
 ("id-same-mt", "same", K, [(U, "    std::random_device rd;\n    return (uint32_t)rd();", "    static std::mt19937 g{std::random_device{}()};\n    return (uint32_t)g();")]),
 ("id-same-dist", "same", K, [(U, "    std::random_device rd;\n    return (uint32_t)rd();", "    std::random_device rd;\n    std::uniform_int_distribution<uint32_t> d;\n    return d(rd);")]),
 ("id-same-ctor", "same", K, [(V, "uuid_ = UUID::Create();", ""), (V, "    std::string uuid_;", "    std::string uuid_ = UUID::Create();")]),
 ("id-same-cas", "same", K, [(V, FA, "    uint64_t idx = impl_->callIndex_.load();\n    while (!impl_->callIndex_.compare_exchange_weak(idx, idx + 1)) {\n    }\n")]),
 ("id-same-loop", "same", K, [(U, "    return StringHelper::StringPrintf(\n        \"%08x%04x%04x%04x%04x%08x\",\n        Rand32(), ", "    std::string r;\n    for (int i = 0; i < 4; i++) r += StringHelper::StringPrintf(\"%08x\", Rand32());\n    if (!r.empty()) return r;\n    return StringHelper::StringPrintf(\n        \"%08x%04x%04x%04x%04x%08x\",\n        Rand32(), ")]),
]
