"""The registry of bound functions: what bind, unbind and bindNames do to it, and that nothing else changes it."""
from terms import *
from engine import Rule


def is_registry(ev):
    t = getattr(ev, "targs", None) or ()
    return len(t) > 1 and "std::function<" in t[1] and "object_handle" in t[1]


class Registry(Rule):
    name = "registry"

    def __init__(self):
        super().__init__()
        self.inserts = self.removes = self.lists = self.calls = 0
        self.conts = set()

    def handlers(self):
        h = {"insert": self.insert, "notinserted": self.notins, "elem": self.elem, "notfound": self.notfound, "erasekey": self.erasekey, "remove": self.remove,
             "iter_end": self.end, "iter_next": self.nxt, "unlock": self.unlock, "exit": self.exit, "usercall": self.ucall, "empty": self.empty}
        for k in ("clear", "swap", "contcopy", "contother", "contdtor"): h[k] = self.other
        return h

    # which interface function this root is
    def mode(self):
        r = self.E.root
        if r.startswith("root_bind"): return "bind"
        if r in ("unbind", "bindNames"): return r
        return None

    def name_of(self, ev):
        return T("ld", ps(T("param", self.param), "s")) if self.param else None

    param = None

    def begin(self, f, i):
        """the i-th argument of the root is the name"""
        self.param = f.args[i][0] if i is not None else None

    def ours(self, ev):
        if is_registry(ev):
            self.conts.add(ev.cont)
            return True
        return getattr(ev, "cont", None) in self.conts

    # ---------------------------------------------------------------- changes
    def insert(self, ev):
        st = ev.st
        if not self.ours(ev):
            if self.mode() == "bindNames": self.listed(ev)
            return
        self.inserts += 1
        self.ok("function registered", ev.where() + " " + self.E.root)
        if self.mode() != "bind":
            self.report(ev, "changed-elsewhere", "the registry of functions is added to outside of bind")
            return
        n = self.name_of(ev)
        if ev.key is not n: self.report(ev, "wrong-name", "the function is registered under %s, which is not the name that was given" % show(ev.key))
        if st.truth(T("isempty", n)) is not False: self.report(ev, "empty-name", "a function can be registered under an empty name")
        if ev.how in ("index", "insert_or_assign"):
            if st.rs.get("Rabs") is not n: self.report(ev, "replaced", "a function that was bound earlier can be replaced: the absence of the name is not checked while the same lock is held")
        if "Rins" in st.rs: self.report(ev, "twice", "bind registers more than once")
        st.rs["Rins"] = TRUE

    def notins(self, ev):
        if self.ours(ev): ev.st.rs["Rwhy"] = TRUE

    def notfound(self, ev):
        if not self.ours(ev): return
        if self.mode() == "bind": ev.st.rs["Rabs"] = ev.key
        if self.mode() == "unbind" and ev.key is self.name_of(ev): ev.st.rs["Rdone"] = TRUE

    def unlock(self, ev): ev.st.rs.pop("Rabs", None)

    def empty(self, ev):
        if self.ours(ev) and ev.result is True: ev.st.rs["Rdone"] = TRUE

    def erasekey(self, ev):
        if not self.ours(ev): return
        self.removes += 1
        self.ok("function removed", ev.where() + " " + self.E.root)
        n = self.name_of(ev)
        if self.mode() != "unbind": self.report(ev, "changed-elsewhere", "a function is removed from the registry outside of unbind")
        elif ev.key is not n: self.report(ev, "wrong-name", "%s is removed, which is not the name that was given" % show(ev.key))
        ev.st.rs["Rdone"] = TRUE

    def remove(self, ev):
        if not self.ours(ev): return
        st = ev.st
        self.removes += 1
        self.ok("function removed", ev.where() + " " + self.E.root)
        if self.mode() != "unbind":
            self.report(ev, "changed-elsewhere", "a function is removed from the registry outside of unbind")
            return
        n = self.name_of(ev)
        st.rs["Rdone"] = TRUE
        e = ev.elem
        if e is None or e.k != "sym": return
        if not self.named(st, e, n): self.report(ev, "wrong-name", "a function is removed that is not the one with the name that was given")

    def named(self, st, e, n):
        key = self.key(st, e)
        if key is n: return True
        return any(k.k == "streq" and v and n in k.a and key in k.a for k, v in st.facts.items())

    def key(self, st, e):
        v = st.mem.get(ps(e, "s"))
        return v if v is not None else T("ld", ps(e, "s"))

    def other(self, ev):
        if not self.ours(ev) or self.E.root == "dtor" or getattr(ev, "fresh", False): return
        if ev.kind == "contdtor" or (ev.kind == "clear" and self.in_uninit(ev)):
            # a local copy, or with the instance; uninit forgets the functions
            return
        self.report(ev, "changed-elsewhere", "the registry of functions is changed as a whole (%s)" % ev.kind)

    def in_uninit(self, ev):
        f = ev.frame
        while f is not None:
            if f.fn.nm.meth == "uninit": return True
            f = f.up
        return False

    # ---------------------------------------------------------------- bindNames
    def elem(self, ev):
        st = ev.st
        if not self.ours(ev): return
        m = self.mode()
        if m == "bind" and ev.how == "find" and getattr(ev, "key", None) is self.name_of(ev): st.rs["Rwhy"] = TRUE
        if m == "bindNames" and ev.how == "iter":
            self.pending(ev)
            st.rs["Rcur"] = ev.elem
            st.rs["Rit"] = TRUE

    def pending(self, ev):
        st = ev.st
        e = st.rs.pop("Rcur", None)
        if e is not None: self.report(ev, "not-listed", "the name of a bound function is left out of the list")

    def nxt(self, ev):
        if self.mode() == "bindNames" and self.ours(ev): self.pending(ev)

    def end(self, ev):
        if not self.ours(ev): return
        if self.mode() == "bindNames":
            self.pending(ev)
            ev.st.rs.pop("Rit", None)
            ev.st.rs["Rall"] = TRUE
        if self.mode() == "unbind": ev.st.rs["Rdone"] = TRUE

    def listed(self, ev):
        st = ev.st
        t = getattr(ev, "targs", None) or ()
        if not t or "basic_string" not in t[0]: return
        c = st.mem.get(ps(ev.elem, "s"))
        if c is None: c = T("ld", ps(ev.elem, "s")) if ev.src is None else st.mem.get(ps(ev.src, "s"), T("ld", ps(ev.src, "s")))
        e = st.rs.get("Rcur")
        self.lists += 1
        self.ok("name listed", ev.where())
        if e is not None and c is self.key(st, e):
            st.rs.pop("Rcur")
        elif c.k in ("lit", "ld", "cat"):
            self.report(ev, "extra-name", "%s is listed, which is not the name of the next bound function" % show(c))

    # ---------------------------------------------------------------- calls
    def ucall(self, ev):
        a = ev.call.args
        for x in a[:2]:
            b = base_of(x)
            if b.k == "sym" and b.a[2] == "elem" and len(b.a) > 3 and b.a[3] in self.conts:
                self.report(ev, "called-in-place", "a bound function is called inside of the registry, from which it can be removed meanwhile")
        self.calls += 1

    # ---------------------------------------------------------------- results
    def exit(self, ev):
        st = ev.st
        m = self.mode()
        if m is None or ev.how != "ret": return
        self.ok("end of %s" % m, self.E.root)
        # a part of the instance does not exist
        gone = any(v is True and k.k == "cmp" and k.a[0] == "eq" and any(x is C(0) for x in k.a[1:]) and any(x.k == "ld" for x in k.a[1:]) for k, v in st.facts.items())
        if m == "bind" and ev.val is not None:
            for v in self.values(st, ev.val):
                if v and "Rins" not in st.rs: self.report(ev, "false-success", "bind reports success although nothing was registered", where=self.E.root)
                if not v and "Rins" in st.rs: self.report(ev, "false-failure", "bind reports failure although the function was registered", where=self.E.root)
                if not v and "Rins" not in st.rs and "Rwhy" not in st.rs and not gone and st.truth(T("isempty", self.name_of(ev))) is not True:
                    self.report(ev, "refused", "bind refuses a name that is neither empty nor bound", where=self.E.root)
        elif m == "unbind":
            if "Rdone" not in st.rs and not gone and st.truth(T("isempty", self.name_of(ev))) is not True: self.report(ev, "not-removed", "unbind returns although the function may still be bound", where=self.E.root)
        elif m == "bindNames":
            if "Rcur" in st.rs or "Rit" in st.rs: self.report(ev, "not-listed", "the names of some bound functions are not listed", where=self.E.root)

    def values(self, st, val):
        t = st.truth(val)
        return [t] if t is not None else [True, False]


class Kept(Rule):
    """the object that contains the registry is made once per instance"""
    name = "registry-kept"

    def handlers(self): return {"new": self.new}

    def new(self, ev):
        st = ev.st
        if not ev.type.split("<")[0].strip().endswith("CallDispatcher"): return
        self.ok("registry created", ev.where())
        if "Rnew" in st.rs: self.report(ev, "lost", "the registry is replaced by an empty one; functions that were bound are lost")
        st.rs["Rnew"] = TRUE
