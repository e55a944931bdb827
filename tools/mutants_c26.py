I = "include/veigar/veigar.inl"
M = [
    ("c26-get", "bug", ["C26"], [(I, "if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {", "acr->second.wait();\n    if (false) {")]),
    ("c26-sec", "bug", ["C26"], [(I, "std::chrono::milliseconds(timeoutMS)) !=", "std::chrono::seconds(timeoutMS)) !=")]),
    ("c26-get-first", "bug", ["C26"], [(I, "        releaseCall(acr->first);\n\n        CallResult cr;\n        cr.errCode = ErrorCode::TIMEOUT;", "        releaseCall(acr->first);\n\n        CallResult cr = acr->second.get();\n        cr.errCode = ErrorCode::TIMEOUT;")]),
    ("c26-loop", "bug", ["C26"], [(I, "    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {", "    for (int n = 0; n < 3 && acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready; ++n) {}\n    if (acr->second.wait_for(std::chrono::milliseconds(0)) != std::future_status::ready) {")]),
    ("c26-cond", "bug", ["C26"], [(I, "!= std::future_status::ready) {", "== std::future_status::deferred) {")]),
    ("c26-status", "same", ["C26"], [(I, "    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {", "    const std::future_status status = acr->second.wait_for(std::chrono::microseconds((int64_t)timeoutMS * 1000));\n    if (status == std::future_status::timeout) {")]),
]
