# C32: memory of message objects
R, CI, RH, RC = "src/resp_dispatcher.cpp", "include/veigar/call_dispatcher.inl", "include/veigar/detail/response.h", "src/response.cpp"
M = []
def bug(n, *e): M.append(("c32-" + n, "bug", ["C32"], list(e)))
def same(n, *e): M.append(("c32-" + n, "same", ["C32"], list(e)))
CL = "callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));"
bug("shallow", (R, CL, "callRet.obj = veigar_msgpack::object_handle(std::get<3>(r), std::unique_ptr<veigar_msgpack::zone>());"))
bug("empty-zone", (R, CL, "std::unique_ptr<veigar_msgpack::zone> z(new veigar_msgpack::zone());\n                callRet.obj = veigar_msgpack::object_handle(std::get<3>(r), std::move(z));"))
bug("set", (R, CL, "callRet.obj.set(std::get<3>(r));"))
bug("functor-zone", (CI, """                           return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
                       })).second;""", """                           return detail::make_unique<veigar_msgpack::object_handle>(result, detail::make_unique<veigar_msgpack::zone>());
                       })).second;"""))
bug("functor-zone-n", (CI, "                                     return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));", "                                     auto keep = detail::make_unique<veigar_msgpack::zone>();\n                                     return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(keep));"))
bug("functor-set", (CI, "                                     return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));", "                                     auto h = detail::make_unique<veigar_msgpack::object_handle>();\n                                     h->set(result);\n                                     return h;"))
bug("error-null-zone", (RH, "inst.error_ = std::make_shared<veigar_msgpack::object_handle>(o, std::move(z));", "inst.error_ = std::make_shared<veigar_msgpack::object_handle>();\n    inst.error_->set(o);"))
bug("error-no-zone", (RH, """    veigar_msgpack::object o(std::forward<T>(error), *z);
    Response inst;""", """    veigar_msgpack::object o(error.c_str());
    Response inst;"""))
bug("copy-first", (R, CL, "veigar_msgpack::object copy(std::get<3>(r));\n                callRet.obj = veigar_msgpack::object_handle(copy, std::unique_ptr<veigar_msgpack::zone>(new veigar_msgpack::zone()));"))
same("zone-moved", (R, CL, "callRet.obj = veigar_msgpack::object_handle(std::get<3>(r), std::move(obj.zone()));"))
same("clone-var", (R, CL, "veigar_msgpack::object_handle own = veigar_msgpack::clone(std::get<3>(r));\n                callRet.obj = std::move(own);"))
same("deep", (R, CL, "std::unique_ptr<veigar_msgpack::zone> z(new veigar_msgpack::zone());\n                veigar_msgpack::object own(std::get<3>(r), *z);\n                callRet.obj = veigar_msgpack::object_handle(own, std::move(z));"))
same("functor-direct", (CI, """                           auto result = veigar_msgpack::object(func(), *z);

                           return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
                       })).second;""", """                           veigar_msgpack::object result(func(), *z);
                           std::unique_ptr<veigar_msgpack::object_handle> h(new veigar_msgpack::object_handle(result, std::move(z)));
                           return h;
                       })).second;"""))
same("functor-copy", (CI, """                           auto result = veigar_msgpack::object(func(), *z);

                           return""", """                           auto result = veigar_msgpack::object(func(), *z);
                           veigar_msgpack::object second = result;
                           result = second;
                           return"""))
same("zone-handed", (CI, "                                     return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));", "                                     auto keep = std::move(z);\n                                     return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(keep));"))
same("error-view", (R, "callRet.errorMessage = errObjHandle.get().as<std::string>();", "const veigar_msgpack::object& e = errObjHandle.get();\n                    callRet.errorMessage = e.as<std::string>();"))
