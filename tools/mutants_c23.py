V, R, SE = "src/veigar.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp"
K = ["C23"]
BODY = """        if (impl_) {
            impl_->uninit();
            delete impl_;
        }

        impl_ = other.impl_;
        other.impl_ = nullptr;
        callDisp_ = std::move(other.callDisp_);

        if (impl_) {
            impl_->veigar_ = this;
        }

        if (callDisp_) {
            callDisp_->veigar_ = this;
        }
"""
M = [
 ("mv-noreset", "bug", K, [(V, "        other.impl_ = nullptr;\n", "")]),
 ("mv-noself", "bug", K, [(V, "    if (this != &other) {\n", "    {\n")]),
 ("mv-nodisp", "bug", K, [(V, "        callDisp_ = std::move(other.callDisp_);\n", "")]),
 ("mv-copydisp", "bug", K, [(V, "        callDisp_ = std::move(other.callDisp_);\n", "        callDisp_ = other.callDisp_;\n")]),
 ("mv-nodelete", "bug", K, [(V, "            impl_->uninit();\n            delete impl_;\n        }\n\n        impl_ =", "            impl_->uninit();\n        }\n\n        impl_ =")]),
 ("mv-stale1", "bug", K, [(V, "            impl_->veigar_ = this;\n", "")]),
 ("mv-stale2", "bug", K, [(V, "            callDisp_->veigar_ = this;\n", "")]),
 ("mv-stale3", "bug", K, [(V, "            impl_->veigar_ = this;\n", "            impl_->veigar_ = &other;\n")]),
 ("mv-ctor-empty", "bug", K, [(V, "    *this = std::move(other);\n", "    impl_ = other.impl_;\n    other.impl_ = nullptr;\n")]),
 ("mv-ctor-nothing", "bug", K, [(V, "    *this = std::move(other);\n", "    (void)other;\n")]),
 ("mv-dtor-leak", "bug", K, [(V, "        delete impl_;\n        impl_ = nullptr;\n    }\n}", "        impl_ = nullptr;\n    }\n}")]),
 ("mv-orig", "bug", K, [(V, BODY, "        impl_ = std::move(other.impl_);\n        other.impl_ = nullptr;\n")]),
 ("mv-disp-after-uninit", "bug", K, [(V, "        sender_.reset();\n        respDispatcher_.reset();\n\n        isInit_ = false;", "        respDispatcher_.reset();\n\n        isInit_ = false;")]),
 ("mv-same-swap", "same", K, [(V, BODY, "        std::swap(impl_, other.impl_);\n        std::swap(callDisp_, other.callDisp_);\n        if (impl_)\n            impl_->veigar_ = this;\n        if (callDisp_)\n            callDisp_->veigar_ = this;\n        if (other.impl_) {\n            other.impl_->uninit();\n            delete other.impl_;\n            other.impl_ = nullptr;\n        }\n        other.callDisp_.reset();\n")]),
 ("mv-same-early", "same", K, [(V, "    if (this != &other) {\n", "    if (this == &other)\n        return *this;\n    {\n")]),
 ("mv-same-ctor", "same", K, [(V, "    *this = std::move(other);\n", "    impl_ = other.impl_;\n    other.impl_ = nullptr;\n    callDisp_.swap(other.callDisp_);\n    if (impl_)\n        impl_->veigar_ = this;\n    if (callDisp_)\n        callDisp_->veigar_ = this;\n")]),
 ("mv-same-rename", "same", K, [("src/resp_dispatcher.h", "    Veigar* veigar_ = nullptr;", "    Veigar* owner_ = nullptr;"), (R, ("veigar_->", "all"), "owner_->"), (R, "veigar_(veigar)", "owner_(veigar)")]),
]
