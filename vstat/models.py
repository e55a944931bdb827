"""Models of the library classes used by the repository (C++ standard library, msgpack, libc).
A model says what a call does to the abstract state and which events it produces; it takes no decision."""
from terms import *
from ir import tmpl_args
import re

EXC_STD, EXC_OTHER, EXC_ALLOC = ("std",), ("other",), ("bad_alloc",)
STR = "std::__cxx11::basic_string"


# ------------------------------------------------------------------ helpers
class A:
    """arguments of a call split into sret destination, object and parameters"""
    def __init__(self, c):
        fn = c.fn
        args = list(c.args)
        self.dest = None
        attrs = [a[2] for a in fn.args]
        if attrs and attrs[0] == "sret":
            self.dest = args.pop(0)
        self.params = fn.nm.params or []
        self.this = None
        if len(args) == len(self.params) + 1 and fn.nm.cls:
            self.this = args.pop(0)
        elif len(args) == len(self.params) + 1 and len(attrs) > 1 and attrs[1] == "sret":
            self.dest = args.pop(1)
        self.a = args


def content(E, st, addr):
    p = ps(addr, "s")
    v = st.mem.get(p)
    if v is not None: return v
    b = base_of(addr)
    h = st.hv.get(b)
    if h is not None: return T("ld", p, h)
    s = E.copied_from(st, addr, b)
    if s is not None: return content(E, st, s)
    return T("ld", p)


TEXT = T("lit", "<text>")


def text(v):
    """message texts are not told apart"""
    if v.k == "lit" and len(v.a[0]) > 16 and " " in v.a[0]: return TEXT
    if v.k == "cat" and (text(v.a[0]) is TEXT or text(v.a[1]) is TEXT): return TEXT
    return v


def setc(E, st, addr, v, c=None):
    st.mem[ps(addr, "s")] = text(v)
    if c is not None: access(E, st, c, addr, True, "string")


def access(E, st, c, addr, write, what):
    if E.handlers.get("access") and E.shared(st, addr):
        E.emit("access", st, c, addr=addr, write=write, what=what)


def lit(s): return T("lit", s)


def cat(a, b):
    if a.k == "lit" and a.a[0] == "": return b
    if b.k == "lit" and b.a[0] == "": return a
    if a.k == "lit" and b.k == "lit": return lit(a.a[0] + b.a[0])
    if b.k == "cat": return cat(cat(a, b.a[0]), b.a[1])
    if a.k == "cat" and a.a[1].k == "lit" and b.k == "lit": return T("cat", a.a[0], lit(a.a[1].a[0] + b.a[0]))
    return T("cat", a, b)


def cstr_content(E, st, v, label=None):
    if v.k == "g":
        s = E.P.globstr(v.a[0])
        if s is not None: return lit(s)
    if v.k == "cstr": return v.a[0]
    if v.k == "at" and v.a[0].k == "g":
        s = E.P.globstr(v.a[0].a[0])
        if s is not None: return lit(s[v.a[1]:])
    return T("strof", v)


def str_param(E, st, a, ptype):
    """content of a string-ish argument"""
    if "basic_string" in ptype or "string_view" in ptype: return content(E, st, a)
    if ptype.startswith("char const*") or ptype.startswith("char const ("): return cstr_content(E, st, a)
    if ptype == "char": return T("chr", a)
    return T("strof", a)


def isempty(v):
    if v.k == "lit": return TRUE if v.a[0] == "" else FALSE
    if v.k == "tos": return FALSE
    if v.k == "cat":
        for x in v.a:
            if isempty(x) is FALSE: return FALSE
        return T("and", isempty(v.a[0]), isempty(v.a[1]))
    return T("isempty", v)


def fork_bool(E, st, c, tag=""):
    """two outcomes True / False"""
    s2 = st.clone()
    st.note("%s: %s -> true" % (c.where(), c.nm.base if c.nm else "call"))
    s2.note("%s: %s -> false" % (c.where(), c.nm.base if c.nm else "call"))
    return [(st, "ret", TRUE), (s2, "ret", FALSE)]


def fresh(E, st, c, kind, *attrs, tag=""):
    lb = c.label(tag)
    return E.fresh(st, lb, kind, *attrs, desc="%s at %s" % (c.nm.base if c.nm else "?", c.where()))


def result(E, st, c, a=None):
    """unspecified result of a call"""
    a = a or A(c)
    t = c.ins.get("t")
    if a.dest is not None:
        for k in E.under(st, a.dest): del st.mem[k]
        E.havoc(st, a.dest, c.label("d"))
        if "basic_string" in (c.nm.ret or "") or True:
            pass
        return None
    if t is None: return None
    if t == "i1": return fresh(E, st, c, "bool")
    if t == "ptr": return fresh(E, st, c, "ptr")
    if t.startswith("{"): return T("agg", fresh(E, st, c, "ptr"), fresh(E, st, c, "int", tag="b"))
    return fresh(E, st, c, "int")


def throwing(E, st, c, kinds):
    out = []
    for k in kinds:
        s = st.clone()
        s.note("%s: %s throws (%s)" % (c.where(), c.nm.base if c.nm else "user code", k[0]))
        out.append((s, "exc", k))
    return out


# ------------------------------------------------------------------ dispatch
CONT = {"std::queue", "std::deque", "std::vector", "std::list", "std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::stack",
        "std::multimap", "std::unordered_multimap", "std::priority_queue", "std::array"}
ITER = {"__gnu_cxx::__normal_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base",
        "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Deque_iterator"}
SPTR = {"std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr", "std::weak_ptr", "std::__uniq_ptr_impl"}
MUTEX = {"std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex", "std::recursive_timed_mutex", "std::shared_timed_mutex"}


def lookup(E, fn):
    nm = fn.nm
    cls, meth, base = nm.cls, nm.meth, nm.base
    m = FREE.get(base)
    if m: return m
    if base.startswith("llvm."): return LLVM.get(base.split(".p0")[0].split(".i64")[0].split(".i1")[0], m_nop)
    if cls == STR: return m_string
    if cls in MUTEX: return m_mutex
    if cls == "std::lock_guard": return m_lock_guard
    if cls in ("std::unique_lock", "std::scoped_lock", "std::shared_lock"): return m_unique_lock
    if cls in SPTR: return m_sptr
    if cls in CONT: return m_container
    if cls in ITER: return m_iter
    if cls == "std::function": return m_function
    if cls == "std::promise": return m_promise
    if cls in ("std::future", "std::__basic_future", "std::shared_future"): return m_future
    if cls == "std::thread": return m_thread
    if cls in ("std::atomic", "std::__atomic_base", "std::atomic_flag"): return m_atomic
    if cls == "std::condition_variable" or cls == "std::_V2::condition_variable_any": return m_cv
    if cls == "std::chrono::duration": return m_duration
    if cls in ("std::tuple", "std::_Tuple_impl"): return m_tuple
    if cls == "std::pair": return m_pair
    if cls.startswith("veigar_msgpack::"): return m_msgpack
    if base.startswith("veigar_msgpack::") or nm.ret.startswith("veigar_msgpack::"): return m_msgpack
    if meth.startswith("~"): return m_nop
    return None


def period(t):
    """nanoseconds per tick of a duration type"""
    if "duration" not in t: return None
    x = re.search(r"std::ratio<(\d+)l?, ?(\d+)l?>", t)
    if x: return int(x.group(1)) * 10 ** 9 // int(x.group(2))
    return 10 ** 9


def m_duration(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m == "duration":
        if not a.params: return None
        v = E.load(st, a.a[0], "i64", c.ins, c.frame)
        if "duration" in a.params[0]:
            k1, k2 = period(a.params[0]), period(c.nm.clsfull or "")
            if not k1 or not k2: return m_nop(E, st, c)
            v = op("mul", v, C(k1 // k2)) if k1 >= k2 else op("sdiv", v, C(k2 // k1))
        E.store(st, a.this, v, c.ins, c.frame)
        return None
    if m == "count": return E.load(st, a.this, "i64", c.ins, c.frame)
    return m_nop(E, st, c)


def m_nop(E, st, c):
    t = c.ins.get("t")
    if t is None: return None
    return result(E, st, c)


def unknown(E, st, c):
    """unknown external function: unspecified result, non-const reference/pointer arguments may be written"""
    fn = c.fn
    E.emit("extcall", st, c)
    a = A(c)
    if a.this is not None and not fn.nm.const and not fn.nm.meth.startswith("operator*"):
        if not E.shared(st, a.this): E.drop_object(st, a.this, None) if base_of(a.this) is a.this else None
    for x, p in zip(a.a, a.params):
        if (p.endswith("&") or p.endswith("*")) and "const" not in p.split("<")[0] and not p.endswith("const&") and not p.endswith("const*"):
            if x.k in ("al", "at") and not E.shared(st, x):
                if x is base_of(x): E.havoc(st, x, c.label("a"))
                else: st.mem.pop(x, None); st.mem.pop(ps(x, "s"), None)
    if a.this is not None and fn.nm.meth in ("operator=", "operator+=", "operator<<") and c.ins.get("t") == "ptr": return a.this
    base = fn.nm.base
    if base.startswith(("vinst::user",)): return usercall(E, st, c, T("fn", fn.name))
    return result(E, st, c, a)


def usercall(E, st, c, target, nothrow=False):
    E.emit("usercall", st, c, target=target)
    E.sync(st)
    t = c.ins.get("t")
    out = [] if nothrow else throwing(E, st, c, (EXC_STD, EXC_OTHER))
    v = None
    if c.args and c.fn is not None and c.fn.args and c.fn.args[0][2] == "sret":
        E.havoc(st, c.args[0], c.label("d"))
    elif t is not None:
        v = fresh(E, st, c, "ptr" if t == "ptr" else "int", tag="u")
    out.append((st, "ret", v))
    return out


def indirect(E, st, c, v):
    if c.ins.get("nw"):
        t = c.ins.get("t")
        return [(st, "ret", fresh(E, st, c, "ptr" if t == "ptr" else "int", tag="v") if t else None)]
    return usercall(E, st, c, v)


# ------------------------------------------------------------------ strings
def m_string(E, st, c):
    a = A(c)
    m = c.nm.meth
    p = a.params
    x = a.this
    if m == "basic_string":
        if not p or (len(p) == 1 and "allocator" in p[0] and "basic_string" not in p[0]): v = lit("")
        elif p[0].endswith("const&") and "basic_string" in p[0]:
            access(E, st, c, a.a[0], False, "string")
            v = content(E, st, a.a[0]) if len(p) == 1 else T("sub", content(E, st, a.a[0]), *a.a[1:])
        elif p[0].endswith("&&") and "basic_string" in p[0]:
            v = content(E, st, a.a[0])
            setc(E, st, a.a[0], lit(""), c)
        elif p[0].startswith("char const*"):
            v = cstr_content(E, st, a.a[0])
            if len(p) > 1 and p[1].startswith("unsigned long"): v = T("buf", a.a[0], a.a[1])
        else: v = fresh(E, st, c, "str")
        st.mem[ps(x, "s")] = text(v)
        return None
    if m.startswith("~"):
        st.mem.pop(ps(x, "s"), None)
        return None
    if m in ("operator=", "assign"):
        if len(p) >= 1 and p[0].endswith("&&"):
            v = content(E, st, a.a[0]); setc(E, st, a.a[0], lit(""), c)
        else:
            if "basic_string" in p[0]: access(E, st, c, a.a[0], False, "string")
            v = str_param(E, st, a.a[0], p[0]) if len(p) == 1 else T("buf", *a.a)
        setc(E, st, x, v, c)
        return x
    if m in ("operator+=", "append", "push_back"):
        v = cat(content(E, st, x), str_param(E, st, a.a[0], p[0]))
        setc(E, st, x, v, c)
        return x
    if m == "clear":
        setc(E, st, x, lit(""), c); return None
    if m == "swap":
        u, v = content(E, st, x), content(E, st, a.a[0])
        setc(E, st, x, v, c); setc(E, st, a.a[0], u, c)
        return None
    access(E, st, c, x, False, "string")
    v = content(E, st, x)
    if m in ("c_str", "data"): return T("cstr", v)
    if m == "empty": return isempty(v)
    if m in ("size", "length"): return C(len(v.a[0])) if v.k == "lit" else T("len", v)
    if m == "compare" and len(p) == 1:
        return op("sub", C(1), streq(v, str_param(E, st, a.a[0], p[0])))
    if a.dest is not None:
        st.mem[ps(a.dest, "s")] = T("sub", v, *[y for y in a.a]); return None
    if not c.nm.const:
        setc(E, st, x, fresh(E, st, c, "str"), c)
    return result(E, st, c, a)


def streq(u, v):
    if u is v: return TRUE
    if u.k == "lit" and v.k == "lit": return FALSE
    if v.k == "lit" and v.a[0] == "": return isempty(u)
    if u.k == "lit" and u.a[0] == "": return isempty(v)
    if v.id < u.id: u, v = v, u
    return T("streq", u, v)


def m_opplus(E, st, c):
    a = A(c)
    if a.dest is None: return unknown(E, st, c)
    p = a.params
    v = cat(str_param(E, st, a.a[0], p[0]), str_param(E, st, a.a[1], p[1]))
    st.mem[ps(a.dest, "s")] = text(v)
    return None


def m_to_string(E, st, c):
    a = A(c)
    st.mem[ps(a.dest, "s")] = T("tos", a.a[0])
    return None


def deref_iter(E, st, x, c):
    if x.k == "iter": return x
    v = E.load(st, x, "ptr", c.ins, c.frame)
    return v


def m_opeq(E, st, c):
    """comparison operators of strings, smart pointers, iterators"""
    a = A(c)
    p = a.params
    neg = c.nm.meth.endswith("!=")
    xs = a.a if a.this is None else [a.this] + a.a
    pp = p if a.this is None else [c.nm.clsfull] + p
    if any("basic_string" in q and "iterator" not in q and "Node" not in q for q in pp[:1] + pp[1:2]) and not any("iterator" in q or "_Node" in q for q in pp):
        for x, q in zip(xs, pp):
            if "basic_string" in q: access(E, st, c, x, False, "string")
        r = streq(str_param(E, st, xs[0], pp[0]), str_param(E, st, xs[1], pp[1]))
    elif any("_ptr" in q for q in pp):
        v = [NULL if "nullptr" in q else E.load(st, x, "ptr", c.ins, c.frame) for x, q in zip(xs, pp)]
        if len(v) < 2: v.append(NULL)
        r = cmp_("eq", v[0], v[1])
    elif any("iterator" in q or "_Node" in q for q in pp):
        u, v = deref_iter(E, st, xs[0], c), deref_iter(E, st, xs[1], c)
        if u is v: r = TRUE
        elif u.k == "iter" and v.k == "iter" and (u.a[1] == "end") != (v.a[1] == "end"): r = FALSE
        else: r = T("cmp", "eq", *sorted((u, v)))
    elif any("std::function" in q for q in pp):
        r = cmp_("eq", fnval(E, st, xs[0]), NULL)
    else:
        return result(E, st, c, a)
    return not_(r) if neg else r


# ------------------------------------------------------------------ locks
def lock_event(E, st, c, m, kind="mutex"):
    E.emit("lock", st, c, mutex=m, lk=kind)
    E.sync(st)
    if (kind, m) not in st.locks: st.locks = st.locks + ((kind, m),)
    st.note("%s: lock %s" % (c.where(), E.nm(m)))


def unlock_event(E, st, c, m, kind="mutex"):
    held = (kind, m) in st.locks
    E.emit("unlock", st, c, mutex=m, lk=kind, held=held)
    if held:
        l = list(st.locks)
        for j in range(len(l) - 1, -1, -1):
            if l[j] == (kind, m):
                del l[j]; break
        st.locks = tuple(l)
    E.sync(st)


def m_mutex(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m in ("lock", "lock_shared"):
        lock_event(E, st, c, a.this); return None
    if m in ("unlock", "unlock_shared"):
        unlock_event(E, st, c, a.this); return None
    if m in ("try_lock", "try_lock_for", "try_lock_until", "try_lock_shared"):
        s2 = st.clone()
        lock_event(E, st, c, a.this)
        return [(st, "ret", TRUE), (s2, "ret", FALSE)]
    return m_nop(E, st, c)


def m_lock_guard(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m == "lock_guard":
        st.mem[a.this] = a.a[0]
        if len(a.params) < 2: lock_event(E, st, c, a.a[0])
        return None
    if m.startswith("~"):
        x = st.mem.get(a.this)
        if x is not None:
            unlock_event(E, st, c, x)
            st.mem.pop(a.this, None)
    return None


def m_unique_lock(E, st, c):
    a = A(c)
    m = c.nm.meth
    own = ps(a.this, "own")
    if m in ("unique_lock", "scoped_lock", "shared_lock"):
        if not a.params:
            st.mem[a.this] = NULL; st.mem[own] = FALSE
            return None
        if a.params[0].endswith("&&"):
            st.mem[a.this] = st.mem.get(a.a[0], NULL); st.mem[own] = st.mem.get(ps(a.a[0], "own"), FALSE)
            st.mem[a.a[0]] = NULL; st.mem[ps(a.a[0], "own")] = FALSE
            return None
        st.mem[a.this] = a.a[0]
        p1 = a.params[1] if len(a.params) > 1 else ""
        if "defer" in p1: st.mem[own] = FALSE; return None
        if "adopt" in p1: st.mem[own] = TRUE; return None
        if p1:
            s2 = st.clone()
            s2.mem[own] = FALSE
            st.mem[own] = TRUE
            lock_event(E, st, c, a.a[0])
            return [(st, "ret", None), (s2, "ret", None)]
        st.mem[own] = TRUE
        lock_event(E, st, c, a.a[0])
        return None
    mx = st.mem.get(a.this, NULL)
    if m.startswith("~"):
        if st.truth(st.mem.get(own, FALSE)): unlock_event(E, st, c, mx)
        st.mem.pop(a.this, None); st.mem.pop(own, None)
        return None
    if m == "lock":
        lock_event(E, st, c, mx); st.mem[own] = TRUE; return None
    if m in ("unlock", "release"):
        if m == "unlock": unlock_event(E, st, c, mx)
        st.mem[own] = FALSE
        return mx if m == "release" else None
    if m == "try_lock" or m.startswith("try_lock_"):
        s2 = st.clone()
        lock_event(E, st, c, mx); st.mem[own] = TRUE
        return [(st, "ret", TRUE), (s2, "ret", FALSE)]
    if m in ("owns_lock", "operator bool"): return st.mem.get(own, FALSE)
    if m == "mutex": return mx
    return m_nop(E, st, c)


def m_cv(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m in ("notify_all", "notify_one"):
        E.emit("cvnotify", st, c, cv=a.this, all=(m == "notify_all"))
        return None
    if m in ("wait", "wait_for", "wait_until"):
        this = c.args[0]
        ul = c.args[1]
        mx = st.mem.get(ul, NULL)
        dur = None
        if m == "wait_for" and len(a.params) > 1:
            r = st.mem.get(c.args[2]) if len(c.args) > 2 else None
            k = period(a.params[1])
            if k and r is not None: dur = (r, k)
        E.emit("cvwait", st, c, cv=this, mutex=mx, timed=(m != "wait"), dur=dur, pred=len(a.params) > (1 if m == "wait" else 2))
        E.sync(st)
        lam = next((t for t in a.params if "$_" in t or "lambda" in t), None)
        if lam:
            lam = lam.rstrip("&").strip()
            fs = [f for f in E.P.find(strip_all(lam) + "::operator()")] or [f for f in E.P.funcs.values() if not f.decl and f.nm.cls == lam and f.nm.meth == "operator()"]
            if fs:
                outs = []
                lo = lambda_obj(st, c, 2 if m == "wait" else 3)
                for s, k, v in E.invoke(fs[0], [lo], c.ins, st, c.frame):
                    if k != "ret": outs.append((s, k, v)); continue
                    for s2, b in E.split(s, v, c.ins, c.frame):
                        if b: outs.append((s2, "ret", TRUE))
                        elif m != "wait": outs.append((s2, "ret", FALSE))
                return outs
        if m == "wait": return None
        if c.ins.get("t") == "i1": return fork_bool(E, st, c)
        return result(E, st, c, a)
    return m_nop(E, st, c)


def lambda_obj(st, c, i):
    """address of the lambda object passed by value as argument i (small ones arrive in registers)"""
    attr = c.fn.args[i][2] if i < len(c.fn.args) else None
    if attr == "byval" or i >= len(c.args): return c.args[-1]
    if c.fn.args[i][1] == "ptr" and c.args[i].k == "al" and c.args[i] not in st.mem and any(base_of(k) is c.args[i] for k in st.mem): return c.args[i]
    tmp = T("al", c.frame.fid, ("lam", c.ins["i"]), "t")
    for j, v in enumerate(c.args[i:]): st.mem[at(tmp, 8 * j)] = v
    return tmp


def strip_all(s):
    from ir import strip_tmpl
    return strip_tmpl(s)


# ------------------------------------------------------------------ smart pointers
def m_sptr(E, st, c):
    a = A(c)
    m = c.nm.meth
    x = a.this
    p = a.params
    if m in ("shared_ptr", "__shared_ptr", "unique_ptr", "weak_ptr"):
        if not p or "nullptr" in p[0]: v = NULL
        elif p[0].endswith("*") and "ptr" not in p[0].split("<")[0]: v = a.a[0]
        elif p[0].endswith("const&"): v = E.load(st, a.a[0], "ptr", c.ins, c.frame)
        elif p[0].endswith("&&"):
            v = E.load(st, a.a[0], "ptr", c.ins, c.frame)
            E.store(st, a.a[0], NULL, c.ins, c.frame)
        else: v = a.a[0]
        E.store(st, x, v, c.ins, c.frame)
        return None
    if m.startswith("~"):
        v = st.mem.pop(x, None)
        E.emit("ptr_dtor", st, c, addr=x, val=v)
        return None
    if m == "operator=":
        if "nullptr" in p[0]: v = NULL
        else:
            v = E.load(st, a.a[0], "ptr", c.ins, c.frame)
            if p[0].endswith("&&"): E.store(st, a.a[0], NULL, c.ins, c.frame)
        E.store(st, x, v, c.ins, c.frame)
        return x
    if m == "reset":
        E.store(st, x, NULL if not p or "nullptr" in p[0] else a.a[0], c.ins, c.frame)
        return None
    if m in ("operator->", "operator*", "get", "_M_get", "lock", "operator[]"):
        v = E.load(st, x, "ptr", c.ins, c.frame)
        if m in ("operator->", "operator*"): E.emit("deref", st, c, ptr=v, addr=x)
        return v
    if m == "operator bool": return not_(cmp_("eq", E.load(st, x, "ptr", c.ins, c.frame), NULL))
    if m == "swap":
        u, v = E.load(st, x, "ptr", c.ins, c.frame), E.load(st, a.a[0], "ptr", c.ins, c.frame)
        E.store(st, x, v, c.ins, c.frame); E.store(st, a.a[0], u, c.ins, c.frame)
        return None
    if m == "release":
        v = E.load(st, x, "ptr", c.ins, c.frame)
        E.store(st, x, NULL, c.ins, c.frame)
        return v
    return result(E, st, c, a)


_ctor = {}


def find_ctor(E, fn, tname):
    """constructor of tname reached from the make_* function fn"""
    k = (fn.name, tname)
    if k in _ctor: return _ctor[k]
    base = strip_all(tname).strip()
    last = base.split("::")[-1]
    want = base + "::" + last
    seen, todo, r = {fn.name}, [fn], None
    while todo and r is None:
        f = todo.pop(0)
        for i in f.instrs():
            if i["o"] in ("call", "invoke") and i["f"][0] == "fn":
                g = E.P.funcs[i["f"][1]]
                if g.nm.base == want: r = g; break
                if g.name not in seen and not g.decl and len(seen) < 200:
                    seen.add(g.name); todo.append(g)
    _ctor[k] = r
    return r


def m_make(E, st, c):
    a = A(c)
    t = (c.nm.fn_targs() or ["?"])[0]
    h = fresh(E, st, c, "heap", strip_all(t))
    E.emit("new", st, c, ptr=h, type=t)
    E.drop_object(st, h, None)
    ctor = find_ctor(E, c.fn, t)
    outs = [(st, "ret", None)]
    if ctor is not None:
        args = [h]
        cp = ctor.nm.params or []
        for j, x in enumerate(a.a[-len(cp):] if cp else []):
            irt = ctor.args[j + 1][1] if j + 1 < len(ctor.args) else "ptr"
            src = a.params[-len(cp):][j]
            if src.endswith("&") and (irt != "ptr" or (cp[j].endswith("*"))):
                x = E.load(st, x, "ptr" if irt == "ptr" else irt, c.ins, c.frame)
            args.append(x)
        if len(args) == len(ctor.args) and (E.P.own(ctor) or lookup(E, ctor)):
            st.envs[-1]["#new"] = h      # keeps the object alive while its constructor runs
            outs = E.invoke(ctor, args, c.ins, st, c.frame)
    res = []
    for s, k, v in outs:
        s.envs[-1].pop("#new", None)
        if k == "ret" and a.dest is not None: E.store(s, a.dest, h, c.ins, c.frame)
        res.append((s, k, None if k == "ret" else v))
    return res


# ------------------------------------------------------------------ containers
def elem_size(E, c):
    t = c.nm.cls_targs()
    if not t: return None
    return t


def vsize(E, t):
    s = E.P.struct_of(strip_all(t))
    return s["size"] if s and "<" not in t else None


def key_off(t):
    return 32 if t.startswith(STR) else 8


def is_map(cls): return cls in ("std::map", "std::unordered_map", "std::multimap", "std::unordered_multimap")


# algorithms of the standard library that are analysed like code of the library, because they call functions they are given
INLINED = {"std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::empty", "std::for_each", "std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::find_if_not", "std::__find_if", "std::__find_if_not",
           "__gnu_cxx::__ops::__pred_iter", "__gnu_cxx::__ops::__negate",
           "__gnu_cxx::__ops::_Iter_pred::_Iter_pred", "__gnu_cxx::__ops::_Iter_pred::operator()", "__gnu_cxx::__ops::_Iter_negate::_Iter_negate", "__gnu_cxx::__ops::_Iter_negate::operator()"}


def m_container(E, st, c):
    a = A(c)
    m = c.nm.meth
    x = a.this
    cls = c.nm.cls
    targs = c.nm.cls_targs()
    ne = ps(x, "ne")
    fr = ps(x, "front")
    cn = ps(x, "cnt") if targs and targs[0] == "std::thread" else None    # number of elements, for threads only
    short = cls.split("::")[-1]
    sh = E.shared(st, x)

    def vol(k):
        if sh and not cn: st.vol = st.vol | {k}

    def ev(kind, **kw):
        E.emit(kind, st, c, cont=x, cls=cls, targs=targs, **kw)
    if m == short:
        E.drop_object(st, x, None) if base_of(x) is x else None
        if not a.params:
            st.mem[ne] = FALSE
            if cn: st.mem[cn] = C(0)
        elif a.params and a.params[0].endswith("&&") and short in a.params[0]:
            access(E, st, c, a.a[0], True, "container")
            ev("swap", other=a.a[0], move=True)
            s = st.mem.pop(ps(a.a[0], "ne"), None)
            if s is not None: st.mem[ne] = s
            if cn:
                s = st.mem.pop(ps(a.a[0], "cnt"), None)
                if s is not None: st.mem[cn] = s
                st.mem[ps(a.a[0], "cnt")] = C(0)
            st.mem[ps(a.a[0], "ne")] = FALSE
            if E.shared(st, a.a[0]): st.vol = st.vol | {ps(a.a[0], "ne")}
        else:
            ev("contcopy", src=a.a[0] if a.a else None)
        return None
    if m.startswith("~"):
        ev("contdtor")
        for k in (ne, fr, ps(x, "back"), cn): st.mem.pop(k, None)
        return None
    wr = m not in ("empty", "size", "find", "count", "begin", "end", "cbegin", "cend", "front", "back", "at", "capacity", "contains")
    access(E, st, c, x, wr, "container")
    if m in ("swap",) or (m == "operator=" and a.params[0].endswith("&&")):
        y = a.a[0]
        access(E, st, c, y, True, "container")
        ev("swap", other=y, move=(m == "operator="))
        u, v = st.mem.pop(ne, None), st.mem.pop(ps(y, "ne"), None)
        if m == "operator=": u = FALSE
        if v is not None: st.mem[ne] = v; vol(ne)
        if u is not None:
            st.mem[ps(y, "ne")] = u
            if E.shared(st, y): st.vol = st.vol | {ps(y, "ne")}
        for k in ("front", "back"): st.mem.pop(ps(x, k), None); st.mem.pop(ps(y, k), None)
        if cn:
            u, v = st.mem.pop(cn, None), st.mem.pop(ps(y, "cnt"), None)
            if m == "operator=": u = C(0)
            if v is not None: st.mem[cn] = v
            if u is not None: st.mem[ps(y, "cnt")] = u
        return x if m == "operator=" else None
    if m == "operator=":
        ev("contcopy", src=a.a[0])
        st.mem.pop(ne, None)
        return x
    if cn and m in ("empty", "size", "begin") and cn in st.mem:
        n = st.mem[cn]
        st.mem[ne] = FALSE if n.a[0] == 0 else TRUE
        if m == "size": return n
    if m == "empty":
        k = st.mem.get(ne)
        if k is not None:
            ev("empty", result=(k is FALSE))
            return not_(k) if is_bool(k) else (FALSE if k.a[0] else TRUE)
        s2 = st.clone()
        st.mem[ne] = FALSE; vol(ne)
        ev("empty", result=True)
        st.note("%s: %s empty" % (c.where(), E.nm(x)))
        s2.mem[ne] = TRUE
        if sh: s2.vol = s2.vol | {ne}
        E.emit("empty", s2, c, cont=x, cls=cls, targs=targs, result=False)
        s2.note("%s: %s not empty" % (c.where(), E.nm(x)))
        return [(st, "ret", TRUE), (s2, "ret", FALSE)]
    if m in ("size", "count"):
        if m == "count" and a.a:
            key = content(E, st, a.a[0]) if targs and targs[0].startswith(STR) else a.a[0]
            s2 = st.clone()
            e = fresh(E, st, c, "elem", x, key)
            st.mem[ps(e, "s")] = key
            st.mem[ne] = TRUE; vol(ne)
            ev("elem", elem=e, how="find", key=key)
            st.note("%s: found in %s" % (c.where(), E.nm(x)))
            s2.note("%s: not found in %s" % (c.where(), E.nm(x)))
            E.emit("notfound", s2, c, cont=x, cls=cls, targs=targs, key=key)
            return [(st, "ret", C(1)), (s2, "ret", C(0))]
        k = st.mem.get(ne)
        if k is FALSE: return C(0)
        r = fresh(E, st, c, "int")
        if k is TRUE: st.rng[r] = (1, None)
        else: st.rng[r] = (0, None)
        # emptiness is what the size says
        if k is None:
            s2 = st.clone()
            st.mem[ne] = FALSE; vol(ne)
            ev("empty", result=True)
            s2.mem[ne] = TRUE
            if sh: s2.vol = s2.vol | {ne}
            s2.rng[r] = (1, None)
            return [(st, "ret", C(0)), (s2, "ret", r)]
        return r
    if m in ("front", "back"):
        k = fr if m == "front" else ps(x, "back")
        v = st.mem.get(k)
        if v is None:
            v = fresh(E, st, c, "elem", x, "front" if m == "front" else "back")
            st.mem[k] = v; vol(k)
            ev("elem", elem=v, how="front")
        st.mem[ne] = TRUE; vol(ne)
        ev("front", elem=v)
        return v
    if m in ("pop", "pop_front", "pop_back"):
        v = st.mem.pop(fr if m != "pop_back" else ps(x, "back"), None)
        ev("remove", elem=v, how=m)
        st.mem.pop(ne, None)
        if cn and cn in st.mem: st.mem[cn] = C(max(st.mem[cn].a[0] - 1, 0))
        return None
    if m in ("push", "emplace", "push_back", "emplace_back", "push_front", "insert", "try_emplace", "emplace_hint", "emplace_front", "insert_or_assign"):
        return insert(E, st, c, a, m, cls, targs, x, ne, vol)
    if m in ("find", "lower_bound"):
        key = content(E, st, a.a[0]) if targs and targs[0].startswith(STR) else a.a[0]
        veto = []
        E.emit("lookup", st, c, cont=x, cls=cls, targs=targs, key=key, veto=veto)
        if veto:
            E.emit("notfound", st, c, cont=x, cls=cls, targs=targs, key=key)
            return T("iter", x, "end")
        s2 = st.clone()
        e = fresh(E, st, c, "elem", x, key)
        st.mem[ps(e, "s")] = key
        st.mem[ne] = TRUE; vol(ne)
        ev("elem", elem=e, how="find", key=key)
        st.note("%s: found in %s" % (c.where(), E.nm(x)))
        s2.note("%s: not found in %s" % (c.where(), E.nm(x)))
        E.emit("notfound", s2, c, cont=x, cls=cls, targs=targs, key=key)
        return [(st, "ret", T("iter", x, e)), (s2, "ret", T("iter", x, "end"))]
    if m in ("end", "cend"): return T("iter", x, "end")
    if m in ("begin", "cbegin"):
        k = st.mem.get(ne)
        out = []
        if k is not FALSE and k is not None and st.truth(k) is False: k = FALSE
        if k is None or k is FALSE:
            s2 = st.clone() if k is None else st
            s2.mem[ne] = FALSE
            if sh: s2.vol = s2.vol | {ne}
            E.emit("iter_end", s2, c, cont=x, cls=cls, targs=targs, empty=True)
            out.append((s2, "ret", T("iter", x, "end")))
        if k is not FALSE:
            e = fresh(E, st, c, "elem", x, "iter")
            st.mem[ne] = TRUE; vol(ne)
            ev("elem", elem=e, how="iter")
            out.append((st, "ret", T("iter", x, e)))
        return out
    if m in ("operator[]", "at"):
        if is_map(cls):
            key = content(E, st, a.a[0]) if targs[0].startswith(STR) else a.a[0]
            e = fresh(E, st, c, "elem", x, key)
            st.mem[ps(e, "s")] = key
            st.mem[ne] = TRUE; vol(ne)
            ev("insert" if m == "operator[]" else "elem", elem=e, how="index", key=key, src=None)
            r = at(e, key_off(targs[0]))
        else:
            e = fresh(E, st, c, "elem", x, a.a[0])
            ev("elem", elem=e, how="index")
            r = e
        out = [(st, "ret", r)]
        if m == "at": out += throwing(E, st, c, (("_ZTISt12out_of_range",),))
        return out
    if m == "erase":
        p = a.params[0]
        v = a.a[0]
        if "iterator" in p or "_Node" in p or v.k == "iter":
            if v.k != "iter": v = E.load(st, v, "ptr", c.ins, c.frame)
            e = v.a[1] if v.k == "iter" and type(v.a[1]) is T else None
            ev("remove", elem=e, how="erase")
            st.mem.pop(ne, None)
            st.mem.pop(cn, None)
            if c.ins.get("t") == "ptr" and E.used(c.frame.fn, c.ins):
                s2 = st.clone()
                n = fresh(E, st, c, "elem", x, "iter")
                E.emit("elem", st, c, cont=x, cls=cls, targs=targs, elem=n, how="iter")
                E.emit("iter_end", s2, c, cont=x, cls=cls, targs=targs, empty=False)
                return [(st, "ret", T("iter", x, n)), (s2, "ret", T("iter", x, "end"))]
            return UNDEF if c.ins.get("t") else None
        key = content(E, st, v) if targs and targs[0].startswith(STR) else v
        ev("erasekey", key=key)
        st.mem.pop(ne, None)
        return fresh(E, st, c, "int")
    if m == "clear":
        ev("clear")
        st.mem[ne] = FALSE; vol(ne)
        if cn: st.mem[cn] = C(0)
        st.mem.pop(fr, None)
        st.mem.pop(ps(x, "back"), None)
        return None
    if m in ("reserve", "rehash", "shrink_to_fit"): return None
    ev("contother", meth=m)
    return result(E, st, c, a)


def insert(E, st, c, a, m, cls, targs, x, ne, vol):
    mp = is_map(cls)
    args = list(a.a)
    params = list(a.params)
    if params and ("iterator" in params[0] or "_Node" in params[0]): args, params = args[1:], params[1:]

    def do(st):
        e = fresh(E, st, c, "elem", x, "new")
        E.drop_object(st, e, None)
        src = None
        key = None
        if mp:
            if len(args) == 1:
                src = args[0]
                key = content(E, st, src)
                E.copy_object(st, e, src, None)
                st.mem[ps(e, "s")] = key
            elif len(args) >= 2:
                key = content(E, st, args[0]) if "basic_string" in params[0] else cstr_content(E, st, args[0])
                src = args[1]
                E.copy_object(st, at(e, key_off(targs[0])), src, vsize(E, targs[1]) if len(targs) > 1 else None)
                st.mem[ps(e, "s")] = key
        elif args and targs and targs[0] == "std::thread" and not params[0].startswith("std::thread"):
            f = args[0]
            st.mem[ps(e, "th")] = TRUE
            E.emit("thread_start", st, c, target=f if f.k == "fn" else st.mem.get(f), ftype=params[0], args=args[1:], thread=e)
        elif args:
            src = args[0]
            E.copy_object(st, e, src, vsize(E, targs[0]) if targs else None)
        st.mem[ne] = TRUE
        if ps(x, "cnt") in st.mem: st.mem[ps(x, "cnt")] = C(st.mem[ps(x, "cnt")].a[0] + 1)
        if m in ("push_back", "emplace_back", "push", "emplace"): st.mem.pop(ps(x, "back"), None)
        if E.shared(st, x): st.vol = st.vol | {ne}
        E.emit("insert", st, c, cont=x, cls=cls, targs=targs, elem=e, how=m, key=key, src=src)
        return e
    if (mp or "set" in cls) and m in ("insert", "emplace", "try_emplace"):
        s2 = st.clone()
        e = do(st)
        veto = []
        key = None
        if mp and args: key = content(E, s2, args[0]) if len(args) == 1 or "basic_string" in params[0] else cstr_content(E, s2, args[0])
        E.emit("notinserted", s2, c, cont=x, cls=cls, targs=targs, key=key, veto=veto)
        if veto: return [(st, "ret", T("agg", T("iter", x, e), TRUE))] if a.dest is None else [(st, "ret", E.store(st, a.dest, T("agg", T("iter", x, e), TRUE), c.ins, c.frame) and None)]
        st.note("%s: inserted" % c.where()); s2.note("%s: not inserted, key exists" % c.where())
        e2 = fresh(E, s2, c, "elem", x, "dup", tag="x")
        r = [(st, T("agg", T("iter", x, e), TRUE)), (s2, T("agg", T("iter", x, e2), FALSE))]
        out = []
        for s, v in r:
            if a.dest is not None:
                E.store(s, a.dest, v, c.ins, c.frame); v = None
            out.append((s, "ret", v))
        return out
    e = do(st)
    if m == "insert_or_assign":
        return T("agg", T("iter", x, e), fresh(E, st, c, "bool"))
    t = c.ins.get("t")
    return e if t == "ptr" else None


def m_iter(E, st, c):
    a = A(c)
    m = c.nm.meth
    x = a.this
    if m in ("_Node_iterator", "_Node_const_iterator", "__normal_iterator", "_Node_iterator_base", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_List_iterator", "_List_const_iterator"):
        if a.a:
            v = a.a[0]
            if v.k != "iter": v = E.load(st, v, "ptr", c.ins, c.frame)
            st.mem[x] = v
        return None
    it = E.load(st, x, "ptr", c.ins, c.frame)
    if m in ("operator*", "operator->", "base"):
        if it.k == "iter" and type(it.a[1]) is T: return it.a[1]
        if it.k == "iter":
            E.emit("deref_end", st, c, it=it)
        return T("ld", x)
    if m == "operator++":
        if it.k != "iter": return result(E, st, c, a)
        if a.dest is not None or (c.ins.get("t") == "ptr" and a.params):  # post-increment
            pass
        E.emit("iter_next", st, c, cont=it.a[0], elem=it.a[1])
        s2 = st.clone()
        e = E.fresh(st, c.label(), "elem", it.a[0], "iter")
        it0 = it
        E.emit("elem", st, c, cont=it.a[0], cls="", targs=[], elem=e, how="iter")
        st.mem[x] = T("iter", it.a[0], e)
        s2.mem[x] = T("iter", it.a[0], "end")
        E.emit("iter_end", s2, c, cont=it.a[0], cls="", targs=[], empty=False)
        if a.params:
            return [(st, "ret", it0), (s2, "ret", it0)]
        return [(st, "ret", x), (s2, "ret", x)]
    return result(E, st, c, a)


# ------------------------------------------------------------------ functions, threads, futures
def fnval(E, st, x):
    p = ps(x, "fn")
    v = st.mem.get(p)
    if v is None:
        h = st.hv.get(base_of(x))
        if h is not None: return T("ld", p, h)
        s = E.copied_from(st, x, base_of(x))
        if s is not None: return fnval(E, st, s)
        v = T("ld", p)
    return v


def m_function(E, st, c):
    a = A(c)
    m = c.nm.meth
    x = a.this
    p = a.params
    k = ps(x, "fn")
    if m == "function" or m == "operator=":
        if not p or "nullptr" in p[0]: v = NULL
        elif "std::function" in p[0]:
            access(E, st, c, a.a[0], p[0].endswith("&&"), "function")
            v = fnval(E, st, a.a[0])
            if p[0].endswith("&&"): st.mem[ps(a.a[0], "fn")] = NULL
        else:
            v = T("lam", p[0].rstrip("&").strip(), a.a[0] if a.a else NULL)
        st.mem[k] = v
        access(E, st, c, x, True, "function")
        E.emit("fnstore", st, c, addr=x, val=v)
        return x if m == "operator=" else None
    if m.startswith("~"):
        st.mem.pop(k, None); return None
    access(E, st, c, x, False, "function")
    v = fnval(E, st, x)
    if m == "operator bool": return not_(cmp_("eq", v, NULL))
    if m == "operator()":
        if v.k == "lam":
            fs = [f for f in E.P.funcs.values() if not f.decl and f.nm.clsfull == v.a[0] and f.nm.meth == "operator()"]
            if fs:
                ar = list(c.args)
                i = 1 if (c.fn.args and c.fn.args[0][2] == "sret") else 0
                ar[i] = v.a[1]
                return E.invoke(fs[0], ar, c.ins, st, c.frame)
        if st.truth(cmp_("eq", v, NULL)):
            E.emit("nullcall", st, c, val=v)
            return throwing(E, st, c, (("_ZTISt17bad_function_call",),))
        return usercall(E, st, c, v)
    if m == "swap":
        u, w = fnval(E, st, x), fnval(E, st, a.a[0])
        st.mem[k] = w; st.mem[ps(a.a[0], "fn")] = u
        return None
    return result(E, st, c, a)


def m_promise(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m == "promise":
        E.emit("promise_new", st, c, p=a.this)
        return None
    if m == "get_future":
        st.mem[ps(a.dest, "fut")] = a.this
        E.emit("get_future", st, c, p=a.this)
        return None
    if m in ("set_value", "set_exception", "set_value_at_thread_exit"):
        E.emit("promise_set", st, c, p=a.this, value=a.a[0] if a.a else None)
        return None
    return m_nop(E, st, c)


def m_future(E, st, c):
    a = A(c)
    m = c.nm.meth
    k = ps(a.this, "fut") if a.this is not None else None
    if m in ("future", "operator=", "shared_future"):
        src = ps(a.a[0], "fut") if a.a else None
        st.mem[k] = st.mem.get(src, NULL) if src is not None else NULL
        if src is not None: st.mem[src] = NULL
        return a.this if m == "operator=" else None
    if m.startswith("~"):
        st.mem.pop(k, None); return None
    v = st.mem.get(k)
    if m == "valid":
        if v is not None: return not_(cmp_("eq", v, NULL))
        return fork_bool(E, st, c)
    if m in ("get", "wait"):
        E.emit("blocking", st, c, what="future::" + m, timed=False, fut=v)
        E.sync(st)
        if m == "get":
            st.mem[k] = NULL
            if a.dest is not None:
                E.havoc(st, a.dest, c.label("d"))
                return [(st, "ret", None)]
        return result(E, st, c, a)
    if m in ("wait_for", "wait_until"):
        dur = None
        if m == "wait_for" and a.params:
            n, d = period(a.params[0]), st.mem.get(a.a[0])
            if n and d is not None: dur = (d, n)
        outs = []
        for s, r, what in ((st.clone(), 0, "ready"), (st, 1, "timeout")):   # the futures of promises are never deferred
            s.note("%s: future::%s -> %s" % (c.where(), m, what))
            E.emit("blocking", s, c, what="future::" + m, timed=True, fut=v, result=C(r), dur=dur)
            E.sync(s)
            outs.append((s, "ret", C(r)))
        return outs
    return result(E, st, c, a)


def m_thread(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m == "thread":
        if not a.params:
            st.mem[ps(a.this, "th")] = FALSE
            return None
        if a.params[0].endswith("std::thread&&"):
            v = st.mem.get(ps(a.a[0], "th"))
            if v is not None: st.mem[ps(a.this, "th")] = v
            st.mem[ps(a.a[0], "th")] = FALSE
            E.emit("thread_move", st, c, thread=a.this, src=a.a[0], assign=False)
            return None
        f = a.a[0]
        v = st.mem.get(f)
        if f.k == "fn": v = f
        st.mem[ps(a.this, "th")] = TRUE
        E.emit("thread_start", st, c, target=v, ftype=a.params[0], args=a.a[1:], thread=a.this)
        return None
    if m in ("operator=", "swap"):
        u, v = st.mem.pop(ps(a.this, "th"), None), st.mem.pop(ps(a.a[0], "th"), None)
        if v is not None: st.mem[ps(a.this, "th")] = v
        if m == "operator=": u = FALSE
        if u is not None: st.mem[ps(a.a[0], "th")] = u
        E.emit("thread_move", st, c, thread=a.this, src=a.a[0], assign=True)
        return a.this if m == "operator=" else None
    if m.startswith("~"):
        E.emit("thread_dtor", st, c, thread=a.this)
        st.mem.pop(ps(a.this, "th"), None)
        return None
    if m == "join":
        st.mem[ps(a.this, "th")] = FALSE
        E.emit("thread_join", st, c, thread=a.this)
        E.emit("blocking", st, c, what="thread::join", timed=False)
        E.sync(st)
        return None
    if m == "detach":
        E.emit("thread_detach", st, c, thread=a.this); return None
    if m == "joinable":
        v = st.mem.get(ps(a.this, "th"))
        if v is not None and isc(v): return v
        E.emit("thread_joinable", st, c, thread=a.this)
        v = st.mem.get(ps(a.this, "th"))
        if v is not None and isc(v): return v
        return TRUE if a.this.k == "sym" and a.this.a[2] == "elem" else fork_bool(E, st, c)
    return m_nop(E, st, c)


def m_atomic(E, st, c):
    a = A(c)
    m = c.nm.meth
    if m in ("atomic", "__atomic_base"): return None
    rd = m in ("load",) or m.startswith("operator ") or m == "test"
    E.emit("atomic", st, c, addr=a.this, opname=m, write=not rd, val=a.a[0] if a.a else None)
    if m in ("store", "operator=", "clear"):
        st.note("%s: %s = %s" % (c.where(), E.nm(a.this), show(a.a[0]) if a.a else ""))
        return a.a[0] if m == "operator=" and c.ins.get("t") not in (None, "ptr") else (a.this if c.ins.get("t") == "ptr" else None)
    t = c.ins.get("t")
    if t is None: return None
    r = fresh(E, st, c, "bool" if t == "i1" else "int", a.this)
    if not rd or m == "load": E.emit("rmw", st, c, addr=a.this, opname=m, val=a.a[0] if a.a else None, res=r, ty=t)
    return r


# ------------------------------------------------------------------ tuples, pairs
def m_get(E, st, c):
    t = c.nm.fn_targs()
    a = A(c)
    x = a.a[0]
    p = a.params[0] if a.params else ""
    try: i = int(re.match(r"(\d+)", t[0]).group(1))
    except Exception: return result(E, st, c, a)
    if "std::tuple" in p: return T("tup", x, i)
    if "std::pair" in p: return T("tup", x, i)
    return result(E, st, c, a)


def m_tuple(E, st, c):
    a = A(c)
    if c.nm.meth == "tuple":
        E.emit("tuple_ctor", st, c, dest=a.this, items=a.a, params=a.params)
        if len(a.params) == 1 and "std::tuple" in a.params[0]:
            E.copy_object(st, a.this, a.a[0], None)
        else:
            tuple_fill(E, st, c, a.this, a.a, a.params)
        return None
    if c.nm.meth == "operator=":
        tied = st.mem.get(ps(a.this, "tie"))
        tt = tuple_types(a.params[0]) if tied is not None else None
        if tied is None or tt is None or len(tt) != len(tied.a):
            E.copy_object(st, a.this, a.a[0], None); return a.this
        for i, (d, t) in enumerate(zip(tied.a, tt)):
            src = T("tup", a.a[0], i)
            if "basic_string" in t and not t.startswith("std::tuple"): setc(E, st, d, content(E, st, src), c)
            elif "msgpack" in t and "object" in t:
                v = ocont(E, st, src)
                st.mem[ps(d, "o")] = v
            elif t.startswith("std::"): E.copy_object(st, d, src, None)
            else: E.store(st, d, item(E, st, c, src, t), c.ins, c.frame)
        return a.this
    return m_nop(E, st, c)


def m_tie(E, st, c):
    a = A(c)
    if a.dest is not None: st.mem[ps(a.dest, "tie")] = T("tied", *a.a)
    return None


def tuple_fill(E, st, c, dest, items, params):
    E.drop_object(st, dest, None)
    st.hv.pop(base_of(dest), None) if base_of(dest) is dest else None
    for i, (x, p) in enumerate(zip(items, params)):
        d = T("tup", dest, i)
        if "basic_string" in p: st.mem[ps(d, "s")] = content(E, st, x)
        elif p.rstrip("&").strip().startswith("char const"): st.mem[ps(d, "s")] = cstr_content(E, st, E.load(st, x, "ptr", c.ins, c.frame))
        elif p.endswith("&") and re.match(r"(unsigned |signed )?(char|short|int|long|bool|float|double)", p):
            st.mem[d] = E.load(st, x, "i32", c.ins, c.frame)
        elif getattr(E, "objs", False) and "msgpack" in p: st.mem[ps(d, "o")] = ocont(E, st, x)
        else: st.mem[ps(d, "o")] = T("obj", x)


def m_make_tuple(E, st, c):
    a = A(c)
    E.emit("make_tuple", st, c, dest=a.dest, items=a.a, params=a.params)
    if a.dest is not None: tuple_fill(E, st, c, a.dest, a.a, a.params)
    return None


def pair_fill(E, st, c, dest, items, types):
    """both halves of a pair, laid out like an element of a map"""
    x, y = items
    t0, t1 = (re.sub(r"\s*(const)?\s*&*$", "", re.sub(r"^const ", "", t.strip())) for t in types)
    E.drop_object(st, dest, None)
    off = key_off(t0)
    if t0.startswith(STR): st.mem[ps(dest, "s")] = content(E, st, x)
    elif t0.startswith("char"): st.mem[ps(dest, "s")] = cstr_content(E, st, x)
    d = at(dest, off)
    if t1.startswith(STR): st.mem[ps(d, "s")] = content(E, st, y)
    elif re.match(r"(unsigned |signed )?(char|short|int|long|bool)\b", t1) and not t1.endswith("*"):
        v = E.load(st, y, "i64" if "long" in t1 else "i32", c.ins, c.frame)
        st.mem[d] = v
    elif t1.endswith("*"): st.mem[d] = E.load(st, y, "ptr", c.ins, c.frame)
    else: E.copy_object(st, d, y, vsize(E, t1))


def m_pair(E, st, c):
    a = A(c)
    if c.nm.meth == "pair":
        if len(a.params) == 2 and "piecewise" not in a.params[0]:
            pair_fill(E, st, c, a.this, a.a, a.params)
        elif len(a.params) == 1:
            E.copy_object(st, a.this, a.a[0], None)
        return None
    return m_nop(E, st, c)


def m_make_pair(E, st, c):
    a = A(c)
    ft = c.nm.fn_targs()
    t = ft if ft and len(ft) == 2 else a.params
    if a.dest is not None and len(a.a) == 2 and len(t) == 2: pair_fill(E, st, c, a.dest, a.a, t)
    return None


# ------------------------------------------------------------------ msgpack
def ocont(E, st, x):
    """what a msgpack object (or the handle that contains it) holds"""
    p = ps(x, "o")
    v = st.mem.get(p)
    if v is not None: return v
    b = base_of(x)
    h = st.hv.get(b)
    if h is not None: return T("ld", p, h)
    s = E.copied_from(st, x, b)
    if s is not None: return ocont(E, st, s)
    return T("ld", p)


def tuple_types(t):
    t = re.sub(r"\s*(const)?\s*&*$", "", t.strip())
    return tmpl_args(t[len("std::tuple"):]) if t.startswith("std::tuple<") else None


def occurs(t, x):
    return t is x or any(isinstance(y, T) and occurs(y, x) for y in t.a)


def forget_size(st, buf):
    """what is known of the size of a buffer does not hold any more"""
    x = T("mp", "size", buf)
    if any(occurs(k, x) for k in list(st.facts) + list(st.rng)):
        st.facts = {k: v for k, v in st.facts.items() if not occurs(k, x)}
        st.rng = {k: v for k, v in st.rng.items() if not occurs(k, x)}


def plain(t):
    """packing a value of this type needs memory, but does not call user code"""
    t = re.sub(r"\s*(const)?\s*&*$", "", t.strip())
    return t.startswith("std::__cxx11::basic_string<char") or t in ("int", "unsigned int", "signed char", "unsigned char", "char", "long", "unsigned long", "bool", "short", "unsigned short") or (t.startswith("veigar_msgpack::") and t.endswith("::object"))


def item(E, st, c, d, t):
    """content of a component of a tuple"""
    if "basic_string" in t and not t.startswith("std::tuple"): return content(E, st, d)
    if "msgpack" in t and "object" in t: return ocont(E, st, d)
    if t.startswith("std::tuple"): return T("subtuple", d)
    v = st.mem.get(d)
    if v is not None: return v
    return E.load(st, d, "int", c.ins, c.frame, True)


def m_msgpack(E, st, c):
    a = A(c)
    nm = c.nm
    m, base = nm.meth, nm.base
    objs = getattr(E, "objs", False)
    if m.startswith("~"):
        E.emit("mp_dtor", st, c, obj=a.this)
        return None
    E.emit("msgpack", st, c, meth=m, base=base, a=a)
    if m == "next":
        ex = throwing(E, st, c, (EXC_STD,))
        for s, _, _ in ex: E.emit("mp_next", s, c, this=a.this, result=None, obj=None)
        s2 = st.clone()
        if a.a: E.havoc(st, a.a[0], c.label("o"))
        E.emit("mp_next", st, c, this=a.this, result=True, obj=a.a[0] if a.a else None)
        E.emit("mp_next", s2, c, this=a.this, result=False, obj=None)
        return ex + [(st, "ret", TRUE), (s2, "ret", FALSE)]
    if m == "reserve_buffer":
        out = throwing(E, st, c, (EXC_ALLOC,))
        if objs: st.mem[ps(a.this, "mpv")] = C(c.ins["i"])    # the buffer may have moved
        return out + [(st, "ret", None)]
    if m == "buffer_consumed" and objs:
        st.mem[ps(a.this, "mpv")] = C(c.ins["i"])
        return None
    if m == "buffer_capacity" or m == "nonparsed_size":
        r = fresh(E, st, c, "int"); st.rng[r] = (0, None)
        if objs:
            st.mem[ps(a.this, m)] = r
            if m == "buffer_capacity": st.mem[ps(a.this, "capv")] = st.mem.get(ps(a.this, "mpv"), NULL)
        return r
    if m in ("convert", "as", "operator>>"):
        out = throwing(E, st, c, (EXC_STD,))
        if m == "convert" and a.a and a.a[0].k == "al":
            E.havoc(st, a.a[0], c.label("o"))
        if m == "as" and objs and not (c.nm.fn_targs() and c.nm.fn_targs()[0].startswith("std::tuple<")):
            for s, _, _ in out: E.emit("mp_as", s, c, src=a.this, ok=False, dest=a.dest, rtype=nm.ret)
        ft = c.nm.fn_targs()
        as_tuple = m == "as" and objs and a.dest is not None and ft and ft[0].startswith("std::tuple<")
        if m == "convert" and objs and a.a and "basic_string" in a.params[0] and not a.params[0].startswith("std::tuple"):
            for s, _, _ in out: E.emit("mp_as", s, c, src=a.this, ok=False, dest=a.a[0], rtype=a.params[0])
            E.emit("mp_as", st, c, src=a.this, ok=True, dest=a.a[0], rtype=a.params[0])
            setc(E, st, a.a[0], T("as", ocont(E, st, a.this)), c)
        elif as_tuple:
            for s, _, _ in out: E.emit("mp_convert", s, c, dst=a.dest, src=a.this, types=None, fields=(), ok=False)
            E.havoc(st, a.dest, c.label("o"))
            tt = tuple_types(ft[0])
            E.emit("mp_convert", st, c, dst=a.dest, src=a.this, types=tt, ok=True, fields=tuple(item(E, st, c, T("tup", a.dest, i), t) for i, t in enumerate(tt or ())))
            out.append((st, "ret", None))
            return out
        elif m == "convert" and objs and a.a:
            for s, _, _ in out: E.emit("mp_convert", s, c, dst=a.a[0], src=a.this, types=None, fields=(), ok=False)
            tt = tuple_types(a.params[0])
            E.emit("mp_convert", st, c, dst=a.a[0], src=a.this, types=tt, ok=True, fields=tuple(item(E, st, c, T("tup", a.a[0], i), t) for i, t in enumerate(tt or ())))
        if m == "as" and objs:
            o = ocont(E, st, a.this)
            E.emit("mp_as", st, c, src=a.this, ok=True, dest=a.dest, rtype=nm.ret)
            if a.dest is not None:
                result(E, st, c, a)
                st.mem[ps(a.dest, "s")] = T("as", o)
                out.append((st, "ret", None))
                return out
        out.append((st, "ret", a.a[0] if m == "convert" and c.ins.get("t") == "ptr" else result(E, st, c, a)))
        return out
    if base == "veigar_msgpack::v1::pack" or m == "pack":
        src = a.a[1] if len(a.a) > 1 else None
        pt = a.params[1] if len(a.params) > 1 else ""
        tt = tuple_types(pt)
        out = [] if tt and all(plain(t) for t in tt) else throwing(E, st, c, (EXC_STD,))
        items = tuple(item(E, st, c, T("tup", src, i), t) for i, t in enumerate(tt)) if objs and src is not None and tt else ()
        E.emit("mp_pack", st, c, dst=a.a[0], src=src, ptype=pt, types=tt, items=items)
        if objs: st.mem[ps(a.a[0], "pk")] = T("packed", *items)
        forget_size(st, a.a[0])
        out.append((st, "ret", None))
        return out
    if objs and base.endswith("::object::object"):
        if not a.params:
            st.mem[ps(a.this, "o")] = T("nil"); return None
        if len(a.params) == 1 and "object const&" in a.params[0]:
            st.mem[ps(a.this, "o")] = ocont(E, st, a.a[0])
            E.emit("mp_ocopy", st, c, dst=a.this, src=a.a[0])
            return None
    if base.endswith("::object::object") and len(a.params) >= 1 and not (len(a.params) == 1 and "object const&" in a.params[0]):
        out = [] if plain(a.params[0]) else throwing(E, st, c, (EXC_STD,))
        E.emit("mp_object", st, c, dst=a.this, src=a.a[0], ptype=a.params[0], zone=a.a[1] if len(a.a) > 1 else None)
        if objs: st.mem[ps(a.this, "o")] = T("val", content(E, st, a.a[0]) if "basic_string" in a.params[0] else ocont(E, st, a.a[0]) if "object" in a.params[0] and "msgpack" in a.params[0] else T("value"))
        out.append((st, "ret", None))
        return out
    if m == "object_handle":
        E.emit("mp_handle_ctor", st, c, dst=a.this, params=a.params, args=a.a)
        if objs:
            if not a.params: v = T("nil")
            else: v = ocont(E, st, a.a[0])
            if a.params and a.params[0].endswith("&&"): st.mem[ps(a.a[0], "o")] = T("nil")
            st.mem[ps(a.this, "o")] = v
        return None
    if m == "operator=":
        E.emit("mp_assign", st, c, dst=a.this, src=a.a[0], params=a.params)
        if objs:
            k = "pk" if "sbuffer" in nm.cls else "o"
            v = st.mem.get(ps(a.a[0], "pk"), NULL) if k == "pk" else ocont(E, st, a.a[0])
            if k == "o" and a.params[0].endswith("&&") and "object_handle" in nm.cls: st.mem[ps(a.a[0], "o")] = T("nil")
            st.mem[ps(a.this, k)] = v
        return a.this
    if m in ("sbuffer", "basic_sbuffer"): forget_size(st, a.this)
    if objs and m in ("sbuffer", "basic_sbuffer") and len(a.params) == 1 and "sbuffer" in a.params[0]:
        st.mem[ps(a.this, "pk")] = st.mem.get(ps(a.a[0], "pk"), NULL)
        return None
    if m == "set" and "object_handle" in nm.cls:
        E.emit("mp_set", st, c, dst=a.this, src=a.a[0])
        if objs: st.mem[ps(a.this, "o")] = ocont(E, st, a.a[0])
        return None
    if m == "get" and "object_handle" in nm.cls:
        E.emit("mp_get", st, c, obj=a.this)
        return a.this if objs else T("hobj", a.this)
    if m == "clone":
        E.emit("mp_clone", st, c, dst=a.dest, src=a.a[0] if a.a else None)
        v = ocont(E, st, a.a[0]) if objs and a.a else None
        if a.dest is not None: E.havoc(st, a.dest, c.label("d"))
        if v is not None: st.mem[ps(a.dest, "o")] = v
        return None
    if m == "buffer":
        v = st.mem.get(ps(a.this, "mpv"))
        return T("mpbuf", a.this, v) if v is not None else T("mpbuf", a.this)
    if m in ("size", "data"):
        return T("mp", m, a.this)
    if m == "is_nil":
        if not objs: return fork_bool(E, st, c)
        v = ocont(E, st, a.this)
        if v.k == "nil": return TRUE
        if v.k == "val" or st.mem.get(ps(a.this, "nn")) is TRUE: return FALSE
        if ps(a.this, "o") not in st.mem: st.mem[ps(a.this, "o")] = v
        s2 = st.clone()
        st.mem[ps(a.this, "o")] = T("nil")
        s2.mem[ps(a.this, "nn")] = TRUE
        E.emit("mp_isnil", st, c, obj=a.this, o=v, val=True)
        E.emit("mp_isnil", s2, c, obj=a.this, o=v, val=False)
        st.note("%s: the object is nil" % c.where()); s2.note("%s: the object is not nil" % c.where())
        return [(st, "ret", TRUE), (s2, "ret", FALSE)]
    return result(E, st, c, a)


# ------------------------------------------------------------------ libc
def m_malloc(E, st, c):
    s2 = st.clone()
    h = fresh(E, st, c, "heap", "malloc")
    E.drop_object(st, h, None)
    E.emit("malloc", st, c, ptr=h, size=c.args[0])
    E.emit("malloc_fail", s2, c)
    s2.note("%s: malloc fails" % c.where())
    return [(st, "ret", h), (s2, "ret", NULL)]


def m_calloc(E, st, c):
    s2 = st.clone()
    h = fresh(E, st, c, "heap", "malloc")
    E.drop_object(st, h, None)
    a, b = c.args[0], c.args[1]
    E.emit("malloc", st, c, ptr=h, size=C(a.a[0] * b.a[0]) if isc(a) and isc(b) else b if a is C(1) else a if b is C(1) else T("op", "mul", a, b))
    E.emit("malloc_fail", s2, c)
    s2.note("%s: calloc fails" % c.where())
    return [(st, "ret", h), (s2, "ret", NULL)]


def m_realloc(E, st, c):
    s2 = st.clone()
    E.emit("realloc", st, c, old=c.args[0])
    h = fresh(E, st, c, "heap", "malloc")
    E.drop_object(st, h, None)
    E.emit("malloc", st, c, ptr=h, size=c.args[1])
    E.emit("malloc_fail", s2, c)
    s2.note("%s: realloc fails" % c.where())
    return [(st, "ret", h), (s2, "ret", NULL)]


def m_free(E, st, c):
    E.emit("free", st, c, ptr=c.args[0])
    return None


def m_new(E, st, c):
    h = fresh(E, st, c, "heap", "new")
    E.drop_object(st, h, None)
    E.emit("opnew", st, c, ptr=h)
    return h


def m_delete(E, st, c):
    E.emit("opdelete", st, c, ptr=c.args[0])
    return None


def errno_reset(st):
    st.mem.pop(T("g", "errno"), None)


def sysret(E, st, c, kind, ok=C(0), fail=C(-1), **kw):
    """two outcomes of a system call"""
    errno_reset(st)
    s2 = st.clone()
    E.emit(kind, st, c, ok=True, **kw)
    E.emit(kind, s2, c, ok=False, **kw)
    st.note("%s: %s succeeds" % (c.where(), c.nm.base))
    s2.note("%s: %s fails" % (c.where(), c.nm.base))
    return [(st, "ret", ok), (s2, "ret", fail)]


def m_sem_open(E, st, c):
    s2 = st.clone()
    h = fresh(E, st, c, "heap", "sem")
    errno_reset(st); errno_reset(s2)
    E.emit("sem_open", st, c, ok=True, ptr=h, name=cstr_content(E, st, c.args[0]), args=c.args)
    E.emit("sem_open", s2, c, ok=False, ptr=NULL, name=cstr_content(E, s2, c.args[0]), args=c.args)
    st.note("%s: sem_open succeeds" % c.where()); s2.note("%s: sem_open fails" % c.where())
    return [(st, "ret", h), (s2, "ret", NULL)]


def m_sem_wait(E, st, c):
    f = c.nm.base
    if not getattr(E, "split_errno", False): return sysret(E, st, c, "sem_wait", sem=c.args[0], fname=f, args=c.args)
    errno_reset(st)
    out = []
    for err in (0, 4, 22) if f == "sem_wait" else (0, 4, 22, 11) if f == "sem_trywait" else (0, 4, 22, 110):
        s = st.clone()
        if err: s.mem[T("g", "errno")] = C(err)
        E.emit("sem_wait", s, c, ok=not err, err=err, sem=c.args[0], fname=f, args=c.args)
        s.note("%s: %s %s" % (c.where(), f, "fails, errno %d" % err if err else "succeeds"))
        out.append((s, "ret", C(-1) if err else C(0)))
    return out


def m_sem_post(E, st, c): return sysret(E, st, c, "sem_post", sem=c.args[0])
def m_sem_close(E, st, c): return sysret(E, st, c, "sem_close", sem=c.args[0])


def m_sem_unlink(E, st, c): return sysret(E, st, c, "sem_unlink", name=cstr_content(E, st, c.args[0]))


def m_shm_open(E, st, c):
    s2 = st.clone()
    fd = fresh(E, st, c, "fd")
    st.rng[fd] = (0, None)
    errno_reset(st); errno_reset(s2)
    E.emit("shm_open", st, c, ok=True, fd=fd, name=cstr_content(E, st, c.args[0]), args=c.args)
    E.emit("shm_open", s2, c, ok=False, fd=C(-1), name=cstr_content(E, s2, c.args[0]), args=c.args)
    st.note("%s: shm_open succeeds" % c.where()); s2.note("%s: shm_open fails" % c.where())
    return [(st, "ret", fd), (s2, "ret", C(-1))]


def m_shm_unlink(E, st, c): return sysret(E, st, c, "shm_unlink", name=cstr_content(E, st, c.args[0]))


def m_mmap(E, st, c):
    s2 = st.clone()
    h = fresh(E, st, c, "map")
    st.assume(cmp_("eq", h, NULL), False)
    st.assume(cmp_("eq", h, C(-1)), False)
    E.emit("mmap", st, c, ok=True, ptr=h, args=c.args)
    E.emit("mmap", s2, c, ok=False, ptr=C(-1), args=c.args)
    st.note("%s: mmap succeeds" % c.where()); s2.note("%s: mmap fails" % c.where())
    return [(st, "ret", h), (s2, "ret", C(-1))]


def m_munmap(E, st, c): return sysret(E, st, c, "munmap", ptr=c.args[0], size=c.args[1])


def m_close(E, st, c):
    E.emit("fd_close", st, c, fd=c.args[0])
    return C(0)


def m_ftruncate(E, st, c): return sysret(E, st, c, "ftruncate", fd=c.args[0], size=c.args[1])


def m_fstat(E, st, c):
    buf = c.args[1]
    E.havoc(st, buf, c.label("s"))
    r = sysret(E, st, c, "fstat", fd=c.args[0], buf=buf)
    return r


def m_time(E, st, c):
    buf = c.args[1] if c.nm.base == "clock_gettime" else c.args[0]
    s = fresh(E, st, c, "int", tag="s")
    n = fresh(E, st, c, "int", tag="n")
    st.mem[buf] = s
    st.mem[at(buf, 8)] = n
    st.rng[s] = (0, None)
    st.rng[n] = (0, 999999999 if c.nm.base == "clock_gettime" else 999999)
    E.emit("gettime", st, c, buf=buf, sec=s, nsec=n, unit=1 if c.nm.base == "clock_gettime" else 1000, clk=c.args[0] if c.nm.base == "clock_gettime" else C(0))
    return C(0)


def m_errno(E, st, c):
    return T("g", "errno")


def m_memcpy(E, st, c):
    d, s, n = c.args[0], c.args[1], c.args[2]
    E.emit("memcpy", st, c, dst=d, src=s, n=n, fname=c.nm.base)
    if s.k == "mp" and s.a[0] == "data" and getattr(E, "objs", False):
        v = st.mem.get(ps(s.a[1], "pk"))
        for k in E.under(st, d): st.mem.pop(k, None)
        if v is not None and n is T("mp", "size", s.a[1]): st.mem[ps(d, "pk")] = v
        return d if c.ins.get("t") else None
    if isc(n) and not (E.shared(st, s) and E.shared(st, d)):
        E.copy_object(st, d, s, n.a[0])
    else:
        if not E.shared(st, d): E.havoc(st, d, c.label("m"))
        else:
            for k in E.under(st, d): st.mem.pop(k, None)
    return d if c.ins.get("t") else None


def m_memset(E, st, c):
    d, v, n = c.args[0], c.args[1], c.args[2]
    E.emit("memset", st, c, dst=d, val=v, n=n)
    for k in E.under(st, d, n.a[0] if isc(n) else None): st.mem.pop(k, None)
    if isc(v) and v.a[0] == 0 and isc(n) and d is base_of(d): st.hv[d] = T("zero")
    return d if c.ins.get("t") else None


# ------------------------------------------------------------------ exceptions
def m_throw(E, st, c):
    ti = c.args[1]
    k = (ti.a[0],) if ti.k == "g" else EXC_OTHER
    return [(st, "exc", k)]


def m_rethrow(E, st, c):
    k = st.caught[-1][0] if st.caught else EXC_STD
    return [(st, "exc", k)]


def m_end_catch(E, st, c):
    # the exception that is being handled, not one that is passing through a clean-up on its way out of the handler
    for n in range(len(st.caught) - 1, -1, -1):
        if not isc(st.caught[n][1]):
            st.caught = st.caught[:n] + st.caught[n + 1:]
            break
    else: st.caught = st.caught[:-1]
    return None


def m_terminate(E, st, c):
    E.emit("terminate", st, c, exc=st.caught[-1][0] if st.caught else None)
    return [(st, "stop", None)]


def m_typeid(E, st, c):
    v = c.args[0]
    return T("tid", v.a[0] if v.k == "g" else "?")


def m_ident(E, st, c):
    return c.args[-1]


def m_ident0(E, st, c):
    return c.args[0]


def m_abort(E, st, c):
    E.emit("abort", st, c)
    return [(st, "stop", None)]


def m_swap(E, st, c):
    a = A(c)
    if len(a.a) == 2:
        p = a.params[0]
        if any(k in p for k in ("std::queue", "unordered_map", "std::vector", "std::deque", "std::map", "std::list")):
            E.emit("swap", st, c, cont=a.a[0], other=a.a[1], move=False, cls="", targs=[])
            u, v = st.mem.pop(ps(a.a[0], "ne"), None), st.mem.pop(ps(a.a[1], "ne"), None)
            if v is not None: st.mem[ps(a.a[0], "ne")] = v
            if u is not None: st.mem[ps(a.a[1], "ne")] = u
            access(E, st, c, a.a[0], True, "container"); access(E, st, c, a.a[1], True, "container")
        else:
            u, v = E.load(st, a.a[0], "ptr", c.ins, c.frame), E.load(st, a.a[1], "ptr", c.ins, c.frame)
            E.store(st, a.a[0], v, c.ins, c.frame); E.store(st, a.a[1], u, c.ins, c.frame)
    return None


def m_sleep(E, st, c):
    E.emit("blocking", st, c, what=c.nm.base, timed=True)
    E.sync(st)
    return m_nop(E, st, c)


def m_minmax(E, st, c):
    a = A(c)
    p = a.params[0] if a.params else ""
    if len(a.a) != 2 or not p.endswith("&"): return result(E, st, c, a)
    x, y = E.load(st, a.a[0], "i64", c.ins, c.frame), E.load(st, a.a[1], "i64", c.ins, c.frame)
    lt = cmp_("slt", x, y)
    out = []
    for s, b in E.split(st, lt, c.ins, c.frame):
        pick = a.a[0] if (b == (c.nm.base == "std::min")) else a.a[1]
        out.append((s, "ret", pick))
    return out


FREE = {
    "std::operator+": m_opplus, "std::__cxx11::to_string": m_to_string, "std::to_string": m_to_string,
    "std::operator==": m_opeq, "std::operator!=": m_opeq, "__gnu_cxx::operator!=": m_opeq, "__gnu_cxx::operator==": m_opeq,
    "std::__detail::operator!=": m_opeq, "std::__detail::operator==": m_opeq, "std::_Rb_tree_iterator::operator!=": m_opeq, "std::_Rb_tree_iterator::operator==": m_opeq,
    "std::make_shared": m_make, "std::make_unique": m_make,
    "std::make_tuple": m_make_tuple, "std::make_pair": m_make_pair, "std::get": m_get, "std::tie": m_tie,
    "std::move": m_ident, "std::forward": m_ident, "std::addressof": m_ident, "std::__addressof": m_ident, "std::ref": m_nop,
    "std::swap": m_swap, "std::min": m_minmax, "std::max": m_minmax, "std::_Tuple_impl::_M_head": m_nop,
    "malloc": m_malloc, "calloc": m_calloc, "free": m_free, "realloc": m_realloc, "operator new": m_new, "operator new[]": m_new, "operator delete": m_delete, "operator delete[]": m_delete,
    "sem_open": m_sem_open, "sem_wait": m_sem_wait, "sem_timedwait": m_sem_wait, "sem_clockwait": m_sem_wait, "sem_trywait": m_sem_wait, "sem_post": m_sem_post, "sem_close": m_sem_close, "sem_unlink": m_sem_unlink,
    "shm_open": m_shm_open, "shm_unlink": m_shm_unlink, "mmap": m_mmap, "munmap": m_munmap, "close": m_close, "ftruncate": m_ftruncate, "fstat": m_fstat,
    "clock_gettime": m_time, "gettimeofday": m_time, "__errno_location": m_errno,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
    "__cxa_begin_catch": m_ident0, "__cxa_end_catch": m_end_catch, "__cxa_throw": m_throw, "__cxa_rethrow": m_rethrow,
    "__cxa_allocate_exception": m_new, "__cxa_free_exception": m_nop, "__clang_call_terminate": m_terminate, "std::terminate": m_terminate,
    "std::this_thread::sleep_for": m_sleep, "usleep": m_sleep, "sleep": m_sleep, "nanosleep": m_sleep, "std::this_thread::yield": m_nop,
    "abort": m_abort, "exit": m_abort, "std::abort": m_abort, "std::exit": m_abort,
}
def m_lifetime(E, st, c):
    E.forget_alloca(st, base_of(c.args[1]))
    return None


LLVM = {"llvm.lifetime.start": m_lifetime, "llvm.lifetime.end": m_lifetime, "llvm.expect": m_ident0, "llvm.expect.i1": m_ident0, "llvm.memcpy": m_memcpy, "llvm.memmove": m_memcpy, "llvm.memset": m_memset, "llvm.eh.typeid.for": m_typeid, "llvm.trap": m_abort}
