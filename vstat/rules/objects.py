"""Who keeps the memory that a msgpack object refers to."""
from terms import *
from engine import Rule
from models import ocont


def fresh_zone(v):
    """a zone that cannot be the one that the object was made in, unless it is the same term"""
    return isc(v) or v.k == "sym"


class Owners(Rule):
    """an object that outlives the place where it was made is kept together with the zone that holds its memory, or is cloned"""
    name = "owners"

    def __init__(self):
        super().__init__()
        self.handles = 0

    def handlers(self):
        return {"mp_object": self.made, "mp_ocopy": self.copied, "mp_handle_ctor": self.handle, "mp_get": self.get, "mp_set": self.set, "mp_assign": self.assign, "mp_clone": self.clone,
                "mp_next": self.next, "q_lock": self.next, "leave": self.leave}

    def home(self, st, x):
        for a, z in st.rs.get("H", frozenset()):
            if a is x: return z
        if x.k == "tup": return T("lit", "message")
        if x in st.rs.get("HH", frozenset()): return T("handle", x)
        return None

    def origin(self, st, x):
        """home, also of plain copies of an object"""
        for _ in range(4):
            h = self.home(st, x)
            if h is not None: return h
            v = ocont(self.E, st, x)
            if v.k == "ld" and v.a[0].k == "ps" and v.a[0].a[0].k == "tup": return T("lit", "message")
            x = self.E.copied_from(st, x, base_of(x))
            if x is None: break
        return None

    def put(self, st, x, z):
        H = frozenset(e for e in st.rs.get("H", frozenset()) if e[0] is not x)
        H = H | {(x, z)} if z is not None else H
        if H: st.rs["H"] = H
        else: st.rs.pop("H", None)

    def made(self, ev):
        t = ev.ptype
        if ev.zone is not None: self.put(ev.st, ev.dst, ev.zone)
        elif "basic_string" in t or "char*" in t.replace(" ", "") or "char const*" in t or "vector" in t: self.put(ev.st, ev.dst, T("lit", "text"))
        else: self.put(ev.st, ev.dst, None)

    def copied(self, ev): self.put(ev.st, ev.dst, self.origin(ev.st, ev.src))

    def next(self, ev):
        """what belongs to the previous message is over"""
        for k in ("H", "HH", "HZ"): ev.st.rs.pop(k, None)

    def leave(self, ev):
        st, d = ev.st, ev.frame.fid
        dead = lambda a: base_of(a).k == "al" and base_of(a).a[0] == d
        for k in ("H", "HZ"):
            if k in st.rs:
                st.rs[k] = frozenset(e for e in st.rs[k] if not dead(e[0]))
                if not st.rs[k]: del st.rs[k]
        if "HH" in st.rs:
            st.rs["HH"] = frozenset(a for a in st.rs["HH"] if not dead(a))
            if not st.rs["HH"]: del st.rs["HH"]

    def get(self, ev):
        if ev.obj is not None and ev.obj.k != "sym" or (ev.obj is not None and ev.frame.up is None): ev.st.rs["HH"] = ev.st.rs.get("HH", frozenset()) | {ev.obj}

    def clone(self, ev):
        if ev.dst is not None: self.put(ev.st, ev.dst, None)
        self.handles += 1
        self.ok("object cloned into memory of its own", ev.where())

    def assign(self, ev):
        if ev.params and "object_handle" in ev.params[0]: self.put(ev.st, ev.dst, None)
        elif ev.params and ev.params[0].rstrip(" &").replace(" const", "").endswith("::object"): self.put(ev.st, ev.dst, self.origin(ev.st, ev.src))

    def what(self, h):
        if h.k == "handle": return "another handle"
        if h is T("lit", "message"): return "the decoded message"
        if h is T("lit", "text"): return "the value that it was made from"
        return "the zone %s" % show(h)

    def handle(self, ev):
        st = ev.st
        if len(ev.args) < 2 or not ev.params or not ev.params[0].rstrip(" &").replace(" const", "").endswith("::object"): return
        self.handles += 1
        self.ok("object kept with a zone", ev.where())
        h = self.origin(st, ev.args[0])
        z = st.mem.get(ev.args[1])
        if z is None and isc(ev.args[1]): z = ev.args[1]
        self.put(st, ev.dst, None)
        if z is not None: st.rs["HZ"] = frozenset(e for e in st.rs.get("HZ", frozenset()) if e[0] is not ev.dst) | {(ev.dst, z)}
        if h is None or z is None or h is z: return
        if fresh_zone(z):
            self.report(ev, "dangling", "the object refers to memory of %s, but the handle that is to keep it owns %s" % (self.what(h), "none" if isc(z) else "another zone"))

    def set(self, ev):
        st = ev.st
        h = self.origin(st, ev.src)
        if h is None or (h.k == "handle" and h.a[0] is ev.dst): return
        self.ok("object put into a handle", ev.where())
        if any(a is ev.dst and z is h for a, z in st.rs.get("HZ", frozenset())): return
        self.report(ev, "dangling", "the object refers to memory of %s, which the handle that it is put into does not keep" % self.what(h))
