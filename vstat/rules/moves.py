"""Moving an instance: what it owns goes along and refers to the new place."""
from terms import *
from engine import Rule


def heap(v):
    return type(v) is T and v.k == "sym" and v.a[2] in ("heap", "own")


class Moved(Rule):
    """shape of the memory of two instances before and after one is moved into the other"""
    name = "move"

    def __init__(self, src, dst):
        super().__init__()
        self.src, self.dst = src, dst
        self.moves = 0
        self.running = False

    def handlers(self):
        return {"opnew": self.new, "opdelete": self.delete, "exit": self.exit}

    def new(self, ev):
        ev.st.rs["Vn"] = ev.st.rs.get("Vn", frozenset()) | {ev.ptr}
        ev.st.rs["Vd"] = ev.st.rs.get("Vd", frozenset()) - {ev.ptr}

    def delete(self, ev):
        st = ev.st
        self.ok("object deleted", ev.where())
        if ev.ptr in st.rs.get("Vd", frozenset()) and ev.ptr in st.rs.get("Vm", frozenset()):
            self.report(ev, "deleted-twice", "an object is deleted by the moved instance and by the one it was moved into")
        st.rs["Vd"] = st.rs.get("Vd", frozenset()) | {ev.ptr}

    def words(self, st, o):
        return {k: v for k, v in st.mem.items() if (k is o or (k.k == "at" and k.a[0] is o)) and heap(v)}

    def reach(self, st, o):
        """heap objects that can be reached from object o"""
        by = {}
        for k, v in st.mem.items():
            if heap(v): by.setdefault(base_of(k), []).append(v)
        seen, todo = set(), [o]
        while todo:
            for v in by.get(todo.pop(), ()):
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return seen

    def snap(self, st):
        """remembered in the state just before the move"""
        off = lambda k, o: k.a[1] if k.k == "at" else 0
        st.rs["Vs"] = frozenset((off(k, self.src), v) for k, v in self.words(st, self.src).items())
        st.rs["Vt"] = frozenset((off(k, self.dst), v) for k, v in self.words(st, self.dst).items()) if self.dst is not self.src else frozenset()

    def exit(self, ev):
        st = ev.st
        if self.step == "move" and ev.how == "ret": self.moved(ev)
        elif self.step == "end" and ev.how == "ret":
            for v in sorted(st.rs.get("Vm", frozenset()) - st.rs.get("Vd", frozenset()), key=lambda v: v.id):
                self.report(ev, "leak", "an object that a moved instance owned is never deleted", where="veigar::Veigar")

    def field(self, k):
        return self.E.fullname(k).split("/")[-1]

    def moved(self, ev):
        st = ev.st
        if st.truth(cmp_("eq", self.src, self.dst)) is True and self.src is not self.dst: return
        src, dst = self.src, self.dst
        self.moves += 1
        before = dict(st.rs.get("Vs", ()))
        deleted = st.rs.get("Vd", frozenset())
        new = st.rs.get("Vn", frozenset())
        st.rs["Vm"] = frozenset(v for v in list(before.values()) + list(dict(st.rs.get("Vt", ())).values()) if v in new)
        now = {(k.a[1] if k.k == "at" else 0): v for k, v in self.words(st, dst).items()}
        left = {(k.a[1] if k.k == "at" else 0): v for k, v in self.words(st, src).items()} if src is not dst else {}
        for off, v in sorted(before.items()):
            f = self.field(at(dst, off))
            self.ok("part of an instance transferred", f)
            if v in deleted: self.report(ev, "moved-deleted", "moving an instance deletes what it owned (%s)" % f, where=f)
            elif now.get(off) is not v: self.report(ev, "not-transferred", "%s of the instance that is moved does not become part of the target" % f, where=f)
            if v in left.values(): self.report(ev, "still-owned", "the instance that was moved still owns its %s" % f, where=f)
        rd, rs = self.reach(st, dst), self.reach(st, src) if src is not dst else set()
        for off, v in sorted(st.rs.get("Vt", frozenset()), key=lambda x: x[0]):
            f = self.field(at(dst, off))
            if v in new:
                self.ok("former part of the target released", f)
                if v not in deleted and v not in rd and v not in rs: self.report(ev, "leak", "what the target owned before (%s) is not released" % f, where=f)
        if src is dst: return
        for k, v in list(st.mem.items()):
            b = base_of(k)
            if v is src and (b in rd or b is dst): self.stale(ev, k, "of the target refers to the instance that was moved")
            elif v is dst and (b in rs or b is src): self.stale(ev, k, "of the instance that was moved refers to the target")
            elif (v is dst and b in rd) or (v is src and b in rs): self.ok("reference of a part to its instance", self.field(k))

    def stale(self, ev, k, msg):
        f = self.field(k)
        self.ok("reference of a part to its instance", f)
        self.report(ev, "stale-reference-running" if self.running else "stale-reference", "%s %s" % (f, msg) + (", which its threads use" if self.running else ""), where=f.rsplit("::", 1)[0] if self.running else f)
