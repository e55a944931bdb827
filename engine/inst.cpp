// Instantiates the header templates of the library, so that their bodies are part of the analysed module.
// Only declarations of user code appear here: what a bound function or a callback does is unknown to the analysis.
#include <cassert>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include "veigar/veigar.h"

namespace vinst {
extern void user_void_zero();
extern void user_void_nonzero(int, std::string);
extern int user_ret_zero();
extern std::string user_ret_nonzero(std::string, int);

bool root_bind_void_zero(veigar::Veigar& v, const std::string& n) { return v.bind(n, &user_void_zero); }
bool root_bind_void_nonzero(veigar::Veigar& v, const std::string& n) { return v.bind(n, &user_void_nonzero); }
bool root_bind_ret_zero(veigar::Veigar& v, const std::string& n) { return v.bind(n, &user_ret_zero); }
bool root_bind_ret_nonzero(veigar::Veigar& v, const std::string& n) { return v.bind(n, &user_ret_nonzero); }

veigar::CallResult root_sync(veigar::Veigar& v, const std::string& ch, unsigned t, const std::string& f, int i, const std::string& s) {
    return v.syncCall(ch, t, f, i, s);
}
std::shared_ptr<veigar::AsyncCallResult> root_async(veigar::Veigar& v, const std::string& ch, unsigned t, const std::string& f, int i, const std::string& s) {
    return v.asyncCall(ch, t, f, i, s);
}
void root_async_cb(veigar::Veigar& v, veigar::ResultCallback cb, const std::string& ch, unsigned t, const std::string& f, int i, const std::string& s) {
    v.asyncCall(cb, ch, t, f, i, s);
}
bool probe_success(const veigar::CallResult& r) { return r.isSuccess(); }
void probe_result_assign(veigar::CallResult& a, veigar::CallResult& b) { a = std::move(b); }
void probe_result_move(veigar::CallResult& b, veigar::CallResult* a) { new (a) veigar::CallResult(std::move(b)); }
void probe_meta_assign(veigar::ResultMeta& a, veigar::ResultMeta& b) { a = std::move(b); }
void probe_meta_copy(veigar::ResultMeta& a, const veigar::ResultMeta& b) { a = b; }
bool root_convert(veigar::CallResult& r, int& out) { return r.convertObject(out); }
veigar::detail::Response probe_err(const std::string& id, std::string& s) { return veigar::detail::Response::MakeResponseWithError(id, s); }
}  // namespace vinst
