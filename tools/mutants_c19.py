C, B, H, V = "src/call_dispatcher.cpp", "include/veigar/call_dispatcher.inl", "include/veigar/call_dispatcher.h", "src/veigar.cpp"
K = ["C19"]
INS = '''    return funcs_.insert(
        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
            constexpr int args_count = std::tuple_size<args_type>::value;
            checkArgsCount(args, args_count);
            func();
            return detail::make_unique<veigar_msgpack::object_handle>();
        })).second;'''
LAM = '''[func, name](veigar_msgpack::object const& args) {
            constexpr int args_count = std::tuple_size<args_type>::value;
            checkArgsCount(args, args_count);
            func();
            return detail::make_unique<veigar_msgpack::object_handle>();
        }'''
CHK = "    if (name.empty() || isFuncNameExist(name)) {\n        return false;\n    }\n"
FIND = '''    // The functor is copied, so that it can be unbound while it is being called.
    AdaptorType func;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
        if (itFunc != funcs_.cend()) {
            func = itFunc->second;
        }
    }
'''
UN = '''    auto it = funcs_.find(name);
    if (it != funcs_.end()) {
        funcs_.erase(it);
    }
'''
M = [
    ("c19-overwrite", "bug", K, [(B, INS, "    funcs_[name] = " + LAM + ";\n    return true;")]),
    ("c19-no-empty-check", "bug", K, [(B, (CHK, "all"), "    if (isFuncNameExist(name)) {\n        return false;\n    }\n")]),
    ("c19-true-always", "bug", K, [(B, INS, INS.replace(".second;", ";\n    return true;").replace("return funcs_", "funcs_"))]),
    ("c19-unbind-prefix", "bug", K, [(C, UN, '''    for (auto it = funcs_.begin(); it != funcs_.end(); ++it) {
        if (it->first.compare(0, name.size(), name) == 0) {
            funcs_.erase(it);
            break;
        }
    }
''')]),
    ("c19-unbind-all", "bug", K, [(C, UN, "    if (funcs_.count(name)) {\n        funcs_.clear();\n    }\n")]),
    ("c19-unbind-init-only", "bug", K, [(C, UN, UN.replace("if (it != funcs_.end())", "if (it != funcs_.end() && isInit())"))]),
    ("c19-names-skip", "bug", K, [(H, "            names.push_back(it->first);", "            if (it->first[0] != '_') names.push_back(it->first);")]),
    ("c19-in-place", "bug", K, [(C, FIND, '''    AdaptorType* pf = nullptr;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        auto itFunc = funcs_.find(funcName);
        if (itFunc != funcs_.end()) {
            pf = &itFunc->second;
        }
    }
    if (!pf) {
        return Response::MakeResponseWithError(callId, std::string("none"));
    }
    AdaptorType& func = *pf;
''')]),
    ("c19-cache", "bug", K, [(C, FIND, FIND.replace("            func = itFunc->second;", "            func = itFunc->second;\n            funcs_.emplace(callId, func);"))]),
    ("c19-init-new-dispatcher", "bug", K, [(V, "        if (!veigar_->callDisp_->init(", "        veigar_->callDisp_ = std::make_shared<detail::CallDispatcher>(veigar_);\n        if (!veigar_->callDisp_->init(")]),
    ("c19-operator-checked", "same", K, [(B, INS, "    if (funcs_.find(name) != funcs_.end()) {\n        return false;\n    }\n    funcs_[name] = " + LAM + ";\n    return true;")]),
    ("c19-emplace", "same", K, [(B, INS, "    return funcs_.emplace(name, " + LAM + ").second;")]),
    ("c19-count", "same", K, [(C, '''    auto pos = funcs_.find(func);
    if (pos != end(funcs_)) {
        return true;
    }
    return false;''', "    return funcs_.count(func) != 0;")]),
    ("c19-erase-key", "same", K, [(C, UN, "    funcs_.erase(name);\n")]),
    ("c19-unbind-loop", "same", K, [(C, UN, '''    for (auto it = funcs_.begin(); it != funcs_.end(); ++it) {
        if (it->first == name) {
            funcs_.erase(it);
            break;
        }
    }
''')]),
    ("c19-names-range", "same", K, [(H, '''        for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
            names.push_back(it->first);''', '''        names.reserve(funcs_.size());
        for (const auto& entry : funcs_) {
            const std::string& n = entry.first;
            names.emplace_back(n);
        }''')]),
    ("c19-lookup-helper", "same", K, [(C, FIND, "    AdaptorType func = lookup(funcName);\n"), (C, "bool CallDispatcher::isFuncNameExist(", '''CallDispatcher::AdaptorType CallDispatcher::lookup(std::string const& name) {
    std::unique_lock<std::mutex> lock(funcsMutex_);
    auto it = funcs_.find(name);
    return it == funcs_.end() ? AdaptorType() : it->second;
}

bool CallDispatcher::isFuncNameExist('''), (H, "    bool isFuncNameExist(std::string const& func);", "    bool isFuncNameExist(std::string const& func);\n\n    AdaptorType lookup(std::string const& name);")]),
    ("c19-unbind-unlocked", "same", K, [(C, "    std::lock_guard<std::mutex> lg(funcsMutex_);\n" + UN, "    funcsMutex_.lock();\n" + UN.replace("if (it != funcs_.end()) {", "const bool bound = it != funcs_.end();\n    if (bound) {") + "    funcsMutex_.unlock();\n")]),
]
