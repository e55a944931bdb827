"""Path-sensitive dataflow analysis (property simulation) over the resolved IR of the library.

Abstract states = memory cells + branch facts + lockset + rule automata.  Calls to repository code are
analysed in their calling context, library classes (std, msgpack, libc) through the models of models.py.
Loops run to a fixpoint over the (finite) abstract states.  No path is handed to a solver."""
from terms import *
from ir import BrokenAnalysis, TooLarge
import sys
sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ("fid", "fn", "up", "site", "label")

    def __init__(self, fid, fn, up, site):
        self.fid, self.fn, self.up, self.site = fid, fn, up, site

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f.fn.nm.base)
            f = f.up
        return out

    def stack(self):
        f, out = self, []
        site = None
        while f is not None:
            out.append((f.fn, site))
            site = f.site
            f = f.up
        return out  # innermost first: (function, instruction in that function that leads to the next inner frame)

    def has(self, fn):
        f = self
        while f is not None:
            if f.fn is fn: return True
            f = f.up
        return False


class State:
    __slots__ = ("mem", "facts", "rng", "vol", "hv", "locks", "rs", "envs", "exc", "caught", "made", "trace", "fds")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.rng = {}
        self.vol = frozenset()
        self.hv = {}
        self.locks = ()
        self.rs = {}
        self.envs = [{}]
        self.exc = None
        self.caught = ()
        self.made = frozenset()
        self.trace = None

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.vol = self.vol
        s.hv = dict(self.hv)
        s.locks = self.locks
        s.rs = dict(self.rs)
        s.envs = list(self.envs)
        s.envs[-1] = dict(s.envs[-1])
        s.exc = self.exc
        s.caught = self.caught
        s.made = self.made
        s.trace = self.trace
        return s

    # ---- facts
    def truth(self, t):
        """None / True / False"""
        if isc(t): return bool(t.a[0])
        if t.k == "not":
            r = self.truth(t.a[0])
            return None if r is None else not r
        if t.k == "and":
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a is False or b is False: return False
            return True if a and b else None
        if t.k == "or":
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a or b: return True
            return False if a is False and b is False else None
        r = self.facts.get(t)
        if r is not None: return r
        if t.k == "cmp":
            p, a, b = t.a
            if isc(b) and p == "eq":
                lo, hi = self.range(a)
                c = b.a[0]
                if lo == hi == c: return True
                if (lo is not None and c < lo) or (hi is not None and c > hi): return False
            elif p == "slt":
                la, ha = self.range(a)
                lb, hb = self.range(b)
                if ha is not None and lb is not None and ha < lb: return True
                if la is not None and hb is not None and la >= hb: return False
            elif p == "eq":
                if self.facts.get(T("cmp", "slt", a, b)) or self.facts.get(T("cmp", "slt", b, a)): return False
            if p == "slt":
                if self.facts.get(T("cmp", "slt", b, a)): return False
                e = cmp_("eq", a, b)
                if self.facts.get(e): return False
        return None

    def range(self, t):
        if isc(t): return (t.a[0], t.a[0])
        r = self.rng.get(t)
        if r: return r
        if is_bool(t): return (0, 1)
        if t.k == "op":
            n, a, b = t.a
            if n == "add":
                (la, ha), (lb, hb) = self.range(a), self.range(b)
                return (None if la is None or lb is None else la + lb, None if ha is None or hb is None else ha + hb)
            if n == "sub":
                (la, ha), (lb, hb) = self.range(a), self.range(b)
                lo = None if la is None or hb is None else la - hb
                hi = None if ha is None or lb is None else ha - lb
                lt, gt = self.facts.get(T("cmp", "slt", a, b)), self.facts.get(T("cmp", "slt", b, a))
                if gt: lo = 1 if lo is None else max(lo, 1)
                elif lt is False: lo = 0 if lo is None else max(lo, 0)
                if lt: hi = -1 if hi is None else min(hi, -1)
                elif gt is False: hi = 0 if hi is None else min(hi, 0)
                return (lo, hi)
            if n in ("srem", "urem") and isc(b) and b.a[0] > 0:
                la, ha = self.range(a)
                m = b.a[0] - 1
                if n == "urem" or (la is not None and la >= 0): return (0, m)
                return (-m, m)
            if n in ("sdiv", "udiv") and isc(b) and b.a[0] > 0:
                la, ha = self.range(a)
                return (None if la is None else int(la / b.a[0]), None if ha is None else int(ha / b.a[0]))
            if n == "mul" and isc(b) and b.a[0] > 0:
                la, ha = self.range(a)
                return (None if la is None else la * b.a[0], None if ha is None else ha * b.a[0])
        if t.k == "len": return (0, None)
        return (None, None)

    def assume(self, t, val):
        """False if contradictory"""
        r = self.truth(t)
        if r is not None: return r == val
        if t.k == "not": return self.assume(t.a[0], not val)
        if t.k == "and" and val: return self.assume(t.a[0], True) and self.assume(t.a[1], True)
        if t.k == "or" and not val: return self.assume(t.a[0], False) and self.assume(t.a[1], False)
        if t.k == "and":
            if self.truth(t.a[0]): return self.assume(t.a[1], False)
            if self.truth(t.a[1]): return self.assume(t.a[0], False)
        if t.k == "or":
            if self.truth(t.a[0]) is False: return self.assume(t.a[1], True)
            if self.truth(t.a[1]) is False: return self.assume(t.a[0], True)
        self.facts[t] = val
        if t.k == "cmp":
            p, a, b = t.a
            if p == "eq" and isc(b):
                c = b.a[0]
                if val: self.rng[a] = (c, c)
                else:
                    lo, hi = self.range(a)
                    if lo == c: lo = c + 1
                    if hi == c: hi = c - 1
                    if lo is not None and lo == hi: self.rng[a] = (lo, hi)
                    elif (lo, hi) != self.range(a): self.rng[a] = (lo, hi)
            elif p == "eq" and val:
                (la, ha), (lb, hb) = self.range(a), self.range(b)
                lo = la if lb is None else lb if la is None else max(la, lb)
                hi = ha if hb is None else hb if ha is None else min(ha, hb)
                if (lo, hi) != (None, None):
                    self.rng[a] = self.rng[b] = (lo, hi)
            elif p == "slt":
                if not val: a, b = b, a  # b <= a
                d = 1 if val else 0
                la, ha = self.range(a)
                lb, hb = self.range(b)
                if hb is not None and (ha is None or ha > hb - d): ha = hb - d
                if la is not None and (lb is None or lb < la + d): lb = la + d
                for x, l, h in ((a, la, ha), (b, lb, hb)):
                    if not isc(x) and (l, h) != (None, None):
                        if l is not None and h is not None and l > h: return False
                        self.rng[x] = (l, h)
        return True

    # ---- renaming / gc
    def rename(self, m):
        cache = {}
        f = lambda t: subst(t, m, cache)
        self.mem = {f(k): f(v) for k, v in self.mem.items()}
        self.facts = {f(k): v for k, v in self.facts.items()}
        self.rng = {f(k): v for k, v in self.rng.items()}
        self.hv = {f(k): f(v) for k, v in self.hv.items()}
        self.vol = frozenset(f(k) for k in self.vol)
        self.locks = subst_any(self.locks, m, cache)
        self.rs = {k: subst_any(v, m, cache) for k, v in self.rs.items()}
        self.envs = [{k: f(v) for k, v in e.items()} for e in self.envs]
        self.caught = subst_any(self.caught, m, cache)
        if self.exc is not None: self.exc = subst_any(self.exc, m, cache)

    def drop_facts(self, s):
        """forget what is known about a symbol"""
        self.facts = {k: v for k, v in self.facts.items() if s not in k.syms}
        self.rng = {k: v for k, v in self.rng.items() if s not in k.syms}

    def reach(self, rules=True):
        live = set()
        for e in self.envs:
            for v in e.values():
                live |= v.syms
        syms_any(self.locks, live)
        if rules:
            for v in self.rs.values(): syms_any(v, live)
        if self.exc is not None: syms_any(self.exc, live)
        syms_any(self.caught, live)
        pend = list(self.mem.items())
        while True:
            rest = []
            n = len(live)
            for k, v in pend:
                if k.syms <= live:
                    live |= v.syms
                else:
                    rest.append((k, v))
            pend = rest
            if len(live) == n: break
        return live

    def gc(self):
        live = self.reach()
        if any(not (k.syms <= live) for k in self.mem):
            self.mem = {k: v for k, v in self.mem.items() if k.syms <= live}
        self.hv = {k: v for k, v in self.hv.items() if k.syms <= live}
        self.facts = {k: v for k, v in self.facts.items() if k.syms <= live}
        self.rng = {k: v for k, v in self.rng.items() if k.syms <= live}
        self.vol = frozenset(k for k in self.vol if k in self.mem)

    def key(self):
        self.gc()
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.rng.items()), frozenset(self.hv.items()), self.vol,
                self.locks, frozenset(self.rs.items()), tuple(frozenset(e.items()) for e in self.envs), self.exc, self.caught)

    # ---- memory
    def note(self, text):
        self.trace = (self.trace, text)

    def trace_list(self, n=60):
        out, t = [], self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Ev:
    """an event offered to the rules"""
    def __init__(self, kind, E, st, call=None, frame=None, ins=None, **kw):
        self.kind, self.E, self.st = kind, E, st
        self.call = call
        self.frame = frame or (call.frame if call else None)
        self.ins = ins or (call.ins if call else None)
        self.__dict__.update(kw)

    def where(self):
        return self.frame.fn.where(self.ins)

    def func(self):
        return self.frame.fn.nm.base

    def ownfunc(self):
        f = self.frame
        while f is not None and not self.E.P.own(f.fn): f = f.up
        return f.fn.nm.base if f else "?"


class Call:
    __slots__ = ("E", "fn", "nm", "args", "ins", "frame", "aty", "vals")

    def __init__(self, E, fn, args, ins, frame):
        self.E, self.fn, self.args, self.ins, self.frame = E, fn, args, ins, frame
        self.nm = fn.nm if fn else None
        self.aty = ins.get("aty", [])

    def where(self):
        return self.frame.fn.where(self.ins)

    def label(self, tag=""):
        return "%d:%d%s" % (self.frame.fid, self.ins["i"], tag)


class Engine:
    def __init__(self, P, rules, primitives=None, opaque=(), max_states=60000, join_limit=400):
        import models
        self.P = P
        self.rules = rules
        self.models = models
        self.primitives = primitives or {}
        self.opaque = set(opaque)
        self.fids = {}
        self.frames = []
        self.tags = {}       # address term -> list of (struct, field name, field type)
        self.tagbase = {}
        self.symsite = {}    # label -> text
        self.steps = 0
        self.blocks_done = set()
        self.funcs_done = set()
        self.calls_done = set()
        self.max_states = max_states
        self.join_limit = join_limit
        self.handlers = {}
        for r in rules:
            r.E = self
            for k, h in r.handlers().items():
                self.handlers.setdefault(k, []).append(h)
        self.widened = 0
        self.nstates = 0
        self.unknown = {}
        self.root = None
        self._live = {}
        self.wd, self.wlo = {}, {}
        self._used = {}
        self.heap_shared = False
        self.loops = None        # summaries of counting loops
        self.memrules = [r for r in rules if hasattr(r, "mload")]
        self.gc_rules = [r for r in rules if hasattr(r, "gc")]

    # ---------------------------------------------------------------- events
    def emit(self, kind, st, call=None, **kw):
        hs = self.handlers.get(kind)
        if not hs: return
        ev = Ev(kind, self, st, call, **kw)
        for h in hs: h(ev)

    # ---------------------------------------------------------------- frames
    def frame(self, fn, up, site):
        key = (up.fid if up else -1, site["i"] if site else -1, fn.name)
        fid = self.fids.get(key)
        if fid is None:
            fid = len(self.fids)
            self.fids[key] = fid
        fr = Frame(fid, fn, up, site)
        return fr

    def fresh(self, st, label, kind, *attrs, desc=None):
        """a symbol for this site; the one of an earlier execution is renamed"""
        if desc: self.symsite.setdefault(label, desc)
        s = T("sym", label, 0, kind, *attrs)
        pre = [x for x in st.reach() if x.k == "sym" and x.a[0] == label and x.a[1] == 0] if label in st.made else ()
        for x in pre:
            old = T("sym", label, 1, *x.a[2:])
            st.drop_facts(old)
            self.emit("rename", st, sym=x, old=old)
            st.rename({x: old})
        st.made = st.made | {label}
        return s

    # ---------------------------------------------------------------- values
    def val(self, o, st, frame):
        t = o[0]
        if t == "i":
            return st.envs[-1].get(o[1], UNDEF)
        if t == "c": return C(o[1])
        if t == "a": return st.envs[-1].get(("a", o[1]), UNDEF)
        if t == "null" or t == "zero": return NULL
        if t == "fn": return T("fn", o[1])
        if t == "g": return T("g", o[1])
        if t == "undef": return UNDEF
        if t == "gep": return self.gep(self.val(o[1], st, frame), o[2], st, frame)
        if t == "ce":
            if o[1] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"): return self.val(o[2][0], st, frame)
            vs = [self.val(x, st, frame) for x in o[2]]
            if len(vs) == 2: return op(o[1], vs[0], vs[1])
            return UNDEF
        if t == "agg": return T("agg", *[self.val(x, st, frame) for x in o[1]])
        if t == "fp": return T("fp", o[1])
        return UNDEF

    def gep(self, cur, steps, st, frame):
        for s in steps:
            if s[0] == "f":
                cur = at(cur, s[3])
                self.tag(cur, s[1], s[2])
            else:
                i = self.val(s[1], st, frame)
                if isc(i): cur = at(cur, i.a[0] * s[2])
                else: cur = T("ix", cur, i, s[2])
        return cur

    def tag(self, addr, struct, idx):
        if "veigar" not in struct or "veigar_msgpack" in struct: return
        sd = self.P.structs.get(struct)
        if not sd or idx >= len(sd["fields"]): return
        f = sd["fields"][idx]
        if not f[0] or f[0] == "<base>": return
        n = struct.split(".", 1)[1]
        import re
        n = re.sub(r"\.\d+$", "", n)
        e = (n, f[0], f[3] or f[1])
        l = self.tags.setdefault(addr, [])
        if e not in l:
            l.append(e)
            b, o = (addr.a[0], addr.a[1]) if addr.k == "at" else (addr, 0)
            self.tagbase.setdefault(b, {}).setdefault(o, l)

    def fullname(self, addr):
        """names of the field at addr and of the fields of the same object that contain it, outermost first"""
        a = addr
        while a.k in ("ps", "tup", "ix"): a = a.a[0]
        b, o = (a.a[0], a.a[1]) if a.k == "at" else (a, 0)
        out = []
        for o2, l in sorted(self.tagbase.get(b, {}).items()):
            if o2 > o: continue
            for cls, f, t in l:
                if o2 == o: out.append(cls + "::" + f); continue
                sd = self.P.struct_of(self.models.strip_all(t))
                if sd and o2 + sd["size"] > o: out.append(cls + "::" + f)
        return "/".join(out) if out else self.nm(addr)

    def owner(self, addr):
        """name of the outermost field that contains addr"""
        return self.fullname(addr).split("/")[0]

    def nm(self, addr, want=None):
        """class-level name of an address: Class::field of the innermost tagged field"""
        a = addr
        while a is not None:
            l = self.tags.get(a)
            if l:
                c = [x for x in l if want is None or want(x)]
                if c: return c[-1][0] + "::" + c[-1][1]
            if a.k in ("ps", "tup", "ix"): a = a.a[0]
            elif a.k == "at" and self.tags.get(a.a[0]) is None: a = None
            elif a.k == "at": a = None
            elif a.k == "sym" and len(a.a) > 3 and type(a.a[3]) is T and a.a[2] == "elem":
                return self.nm(a.a[3]) + "[]"
            else: a = None
        return show(addr)

    # ---------------------------------------------------------------- memory
    def shared(self, st, addr):
        b = base_of(addr)
        return not (b.k == "al" or (not self.heap_shared and b.k == "sym" and b.a[2] == "heap"))

    def load(self, st, addr, ty, call_or_ins, frame, quiet=False):
        for r in self.memrules:
            v = r.mload(st, addr, ty, call_or_ins, frame)
            if v is not None: return v
        v = st.mem.get(addr)
        sh = self.shared(st, addr)
        if sh and not quiet and self.handlers.get("load"):
            self.emit("load", st, frame=frame, ins=call_or_ins, addr=addr, ty=ty)
        if v is not None: return v
        b = base_of(addr)
        h = st.hv.get(b)
        if h is not None:
            if h.k == "zero": return NULL
            return T("ld", addr, h)
        src = self.copied_from(st, addr, b)
        if src is not None: return self.load(st, src, ty, call_or_ins, frame, True)
        if b.k == "al":
            return T("uninit", addr)
        if not sh or ty == "ptr" or ty is None:
            return T("ld", addr)
        if self.stable(addr): return T("ld", addr)
        v = self.fresh(st, "L%d:%d" % (frame.fid, call_or_ins["i"]), "int", addr)
        st.mem[addr] = v
        st.vol = st.vol | {addr}
        return v

    def stable(self, addr):
        """memory that no other thread changes while it is looked at: queue elements owned by the path"""
        b = base_of(addr)
        return b.k == "sym" and b.a[2] in ("elem", "own")

    def store(self, st, addr, v, ins, frame):
        for r in self.memrules:
            if r.mstore(st, addr, v, ins, frame): return
        if v.k == "agg":
            off = 0
            for x in v.a:
                self.store(st, at(addr, off), x, ins, frame)
                off += 8
            return
        if addr.k == "ix" or (addr.k == "at" and addr.a[0].k == "ix"):
            arr = addr.a[0] if addr.k == "ix" else addr.a[0].a[0]
            for k in [k for k in st.mem if k is not addr and (k.k == "ix" and k.a[0] is arr)]:
                del st.mem[k]
        old = st.mem.get(addr)
        st.mem[addr] = v
        if self.shared(st, addr):
            if st.locks: st.vol = st.vol | {addr}
            if self.handlers.get("store"):
                self.emit("store", st, frame=frame, ins=ins, addr=addr, val=v, old=old)

    def under(self, st, addr, size=None):
        """cells of the object at addr (of the given size, or everything of the same base if unknown)"""
        b = base_of(addr)
        o0 = addr.a[1] if addr.k == "at" else 0
        if addr.k in ("tup", "ix", "ps"):
            return [k for k in st.mem if self.prefix(k, addr)]
        out = []
        for k in st.mem:
            if base_of(k) is not b: continue
            x = k
            while x.k in ("ps", "tup", "ix"): x = x.a[0]
            if x.k == "at" and x.a[0] is not b: continue
            o = x.a[1] if x.k == "at" else 0
            if x is not b and x.k != "at": continue
            if o >= o0 and (size is None or o < o0 + size): out.append(k)
        return out

    def prefix(self, k, addr):
        while True:
            if k is addr: return True
            if k.k in ("at", "ix", "tup", "ps"): k = k.a[0]
            else: return False

    def rebase(self, k, src, dst):
        """address k inside the object at src, moved to dst"""
        if k is src: return dst
        if k.k in ("ps", "tup", "ix"):
            return T(k.k, self.rebase(k.a[0], src, dst), *k.a[1:])
        so = src.a[1] if src.k == "at" else 0
        sb = src.a[0] if src.k == "at" else src
        if k is sb: return at(dst, 0 - so)
        if k.k == "at" and k.a[0] is sb: return at(dst, k.a[1] - so)
        if k.k == "at": return at(self.rebase(k.a[0], src, dst), k.a[1])
        return k

    def copy_object(self, st, dst, src, size):
        cells = [(self.rebase(k, src, dst), st.mem[k]) for k in self.under(st, src, size)]
        for k in self.under(st, dst, size): del st.mem[k]
        for k, v in cells: st.mem[k] = v
        b = base_of(src)
        if b.k != "al" or b in st.hv:
            # what is not known of the source is read from it when needed
            st.mem[T("ps", dst, "cpy")] = T("cpm", src, size if size is not None else 1 << 30)

    def copied_from(self, st, addr, b):
        """the address this cell of a copied object was copied from"""
        if addr.k in ("ps", "tup", "ix"):
            s = self.copied_from(st, addr.a[0], b)
            return None if s is None else T(addr.k, s, *addr.a[1:])
        best = None
        for o in (b,) if addr is b else (addr, b):
            m = st.mem.get(T("ps", o, "cpy"))
            if m is not None: best = (o, m)
        if best is None:
            for k, v in st.mem.items():
                if k.k == "ps" and k.a[1] == "cpy" and base_of(k) is b and k.a[0].k == "at" and k.a[0].a[0] is (addr.a[0] if addr.k == "at" else None):
                    if k.a[0].a[1] <= addr.a[1] < k.a[0].a[1] + v.a[1]: best = (k.a[0], v)
        if best is None: return None
        o, m = best
        a0 = o.a[1] if o.k == "at" else 0
        a1 = addr.a[1] if addr.k == "at" else 0
        if not (a0 <= a1 < a0 + m.a[1]): return None
        return at(m.a[0], a1 - a0)

    def havoc(self, st, addr, label):
        for k in self.under(st, addr): del st.mem[k]
        b = base_of(addr)
        st.hv[b] = self.fresh(st, label + "h", "hv")

    def drop_object(self, st, addr, size):
        for k in self.under(st, addr, size): del st.mem[k]

    def forget_alloca(self, st, t):
        if t in st.hv: del st.hv[t]
        for k in [k for k in st.mem if base_of(k) is t]: del st.mem[k]

    def sync(self, st):
        """another thread may run: forget what was read from memory it may write"""
        for k in st.vol: st.mem.pop(k, None)
        st.vol = frozenset()

    # ---------------------------------------------------------------- liveness
    def live_out(self, fn):
        """per block: ssa ids live at its entry; and non-escaping scalar allocas live at its entry"""
        r = self._live.get(fn)
        if r is not None: return r
        n = len(fn.blocks)
        succ = [[] for _ in range(n)]
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        alls = {}
        for b in fn.blocks:
            for i in b:
                if i["o"] == "alloca": alls[i["i"]] = True

        def ops(o, out):
            if o[0] == "i": out.append(o[1])
            elif o[0] == "gep":
                ops(o[1], out)
                for s in o[2]:
                    if s[0] != "f": ops(s[1], out)
            elif o[0] in ("ce",):
                for x in o[2]: ops(x, out)
            elif o[0] == "agg":
                for x in o[1]: ops(x, out)
            return out

        def uses(i):
            out = []
            for k in ("a", "in", "cl"):
                for x in i.get(k, ()):
                    if k == "in": continue
                    if k == "cl": continue
                    ops(x, out)
            for k in ("p", "f", "c"):
                if k in i and isinstance(i[k], list): ops(i[k], out)
            for s in i.get("s", ()):
                if s[0] != "f": ops(s[1], out)
            return out
        preds = [[] for _ in range(n)]
        for bi, b in enumerate(fn.blocks):
            t = b[-1]
            if t["o"] == "br": succ[bi] = list(t["d"])
            elif t["o"] == "switch": succ[bi] = [t["dd"]] + [c[1] for c in t["cs"]]
            elif t["o"] == "invoke": succ[bi] = [t["nd"], t["ud"]]
            for s in succ[bi]: preds[s].append(bi)
        esc = set()
        aload = [set() for _ in range(n)]   # upward exposed loads of allocas
        akill = [set() for _ in range(n)]
        for bi, b in enumerate(fn.blocks):
            for i in b:
                if i["o"] == "phi":
                    for o, p in i["in"]:
                        for u in ops(o, []):
                            phiuse[bi].setdefault(p, set()).add(u)
                            if u in alls: aload[bi].add(u)
                    defs[bi].add(i["i"])
                    continue
                us = uses(i)
                for u in us:
                    if u not in defs[bi]: use[bi].add(u)
                    if u in alls:
                        if i["o"] == "store" and i["a"][1] == ["i", u] and i["a"][0] != ["i", u] and self.scalar_store(i):
                            akill[bi].add(u)
                        elif u not in akill[bi]:
                            d = self.defines(i, u)
                            if d: akill[bi].add(u)
                            else: aload[bi].add(u)
                defs[bi].add(i["i"])
        live = [set() for _ in range(n)]
        al = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                o = set()
                ao = set()
                for s in succ[bi]:
                    o |= live[s]
                    o |= phiuse[s].get(bi, set())
                    ao |= al[s]
                nl = use[bi] | (o - defs[bi])
                na = aload[bi] | (ao - akill[bi])
                if nl != live[bi]: live[bi] = nl; ch = True
                if na != al[bi]: al[bi] = na; ch = True
        scal = set(alls)
        # phi inputs must survive the edge: treat as live at entry of the phi's block
        live_in = [live[b] | set().union(*phiuse[b].values()) if phiuse[b] else live[b] for b in range(n)]
        r = (live_in, al, scal, preds, succ)
        self._live[fn] = r
        return r

    def used(self, fn, i):
        """is the result of instruction i looked at"""
        u = self._used.get(fn)
        if u is None:
            u = self._used[fn] = set()

            def ops(o):
                if type(o) is list:
                    if len(o) == 2 and o[0] == "i": u.add(o[1])
                    else:
                        for x in o: ops(x)
            for b in fn.blocks:
                for j in b:
                    for k, v in j.items():
                        if type(v) is list: ops(v)
        return i["i"] in u

    def scalar_store(self, i):
        return not (i.get("ot") or "").startswith(("%", "{", "["))

    def defines(self, i, u):
        """instruction starts a new life of alloca u: lifetime marker, constructor, returned object"""
        if i["o"] not in ("call", "invoke") or i["f"][0] != "fn" or not i["a"]: return False
        fn = self.P.funcs.get(i["f"][1])
        if fn is None: return False
        b = fn.name
        if b.startswith("llvm.lifetime.end"): return False
        if b.startswith("llvm.lifetime"): return i["a"][1] == ["i", u]
        if sum(1 for a in i["a"] if a == ["i", u]) != 1: return False
        if b.startswith(("llvm.memcpy", "llvm.memset")): return i["a"][0] == ["i", u]
        if fn.args and fn.args[0][2] == "sret" and i["a"][0] == ["i", u]: return True
        if len(fn.args) > 1 and fn.args[1][2] == "sret" and i["a"][1] == ["i", u]: return True
        return i["a"][0] == ["i", u] and fn.nm.cls and fn.nm.meth == fn.nm.cls.split("::")[-1]

    # ---------------------------------------------------------------- execution
    def run_root(self, fn, args, st=None, root=None):
        """analyse a root function; returns its exit states"""
        st = st or State()
        self.root = root or fn.nm.base
        for r in self.rules: r.start(st, self.root)
        fr = self.frame(fn, None, None)
        outs = self.exec_function(fn, args, st, fr)
        for s, k, v in outs:
            self.emit("exit", s, frame=fr, ins=None, how=k, val=v)
            if k == "exc":
                self.emit("uncaught", s, frame=fr, ins=None, exc=v)
        return outs

    def exec_function(self, fn, args, st, frame):
        self.funcs_done.add(fn.name)
        env = {("a", i): a for i, a in enumerate(args)}
        st.envs.append(env)
        live_in, alive, scal, preds, succ = self.live_out(fn)
        hasargs = True
        exits = {}
        outs = []
        seen = {}
        work = [(0, -1, st)]
        while work:
            bi, prev, st = work.pop()
            if len(preds[bi]) > 1 or bi == 0:
                # trim
                e = st.envs[-1]
                li = live_in[bi]
                st.envs[-1] = {k: v for k, v in e.items() if type(k) is tuple or k in li or k in scal}
                dead = [a for a in scal if a not in alive[bi]]
                for a in dead:
                    t = e.get(a)
                    if t is not None:
                        self.forget_alloca(st, t)
                        e2 = st.envs[-1]
                        if a in e2 and a not in li: del e2[a]
                for r in self.gc_rules: r.gc(st)
                if len(preds[bi]) > 1: self.widen(st, frame, bi)
                k = (st.key(), prev if fn.blocks[bi][0]["o"] == "phi" else None)
                s = seen.setdefault(bi, set())
                if k in s: continue
                s.add(k)
                self.nstates += 1
                if len(s) > self.join_limit:
                    if hasattr(self, "debug_join"): self.debug_join(fn, bi, s)
                    raise TooLarge("too many abstract states at %s block %d (root %s)" % (fn.nm.base, bi, self.root))
                if self.nstates > self.max_states:
                    raise BrokenAnalysis("state budget exceeded in root %s" % self.root)
            if self.loops is not None and self.loops.wants(fn, bi, prev):
                r = self.loops.summarise(self, fn, bi, prev, st.clone(), frame)
                if r is not None:
                    for x in r:
                        if x[0] == "br": work.append((x[1], x[3], x[2]))
                        else: outs.append(x)
                    continue
                self.loops.rule.unsummarised(st)
            self.blocks_done.add((fn.name, bi))
            for r in self.exec_block(fn, bi, prev, st, frame):
                if r[0] == "br":
                    work.append((r[1], bi, r[2]))
                else:
                    outs.append(r)
        # leave the frame
        res = []
        seen2 = set()
        fid = frame.fid
        for r in outs:
            kind, st, v = r
            st.envs.pop()
            st.envs[-1] = dict(st.envs[-1])
            dead = [k for k in st.mem if base_of(k).k == "al" and base_of(k).a[0] == fid]
            for k in dead: del st.mem[k]
            for k in [k for k in st.hv if k.k == "al" and k.a[0] == fid]: del st.hv[k]
            if kind == "stop": continue
            if kind == "exc": st.exc = None
            st.envs[-1]["#ret"] = v if type(v) is T else (T("exc", v) if v else NULL)
            key = (kind, v, st.key())
            del st.envs[-1]["#ret"]
            if key in seen2: continue
            seen2.add(key)
            res.append((st, kind, v))
        return res

    WIDEN = 24

    def widen(self, st, frame, bi):
        """a local counter that has taken many values at this block stands for all of them from then on"""
        fid = frame.fid
        wd = self.wd.setdefault((fid, bi), {})
        todo = []
        for k, v in st.mem.items():
            if k.k != "al" or k.a[0] != fid: continue
            s = wd.get(k)
            if s is True:
                if not (v.k == "sym" and v.a[0] == "W%d:%d:%d" % (fid, bi, k.a[1]) and v.a[1] == 0) and self.numeric(v): todo.append(k)
            elif v.k == "op" and v.a[0] == "add" and isc(v.a[2]):
                # symbolic start, constant steps
                d = wd.setdefault((k, v.a[1]), set())
                d.add(v.a[2])
                if len(d) > self.WIDEN:
                    wd[k] = True
                    todo.append(k)
            elif isc(v):
                if s is None: wd[k] = {v}
                else:
                    s.add(v)
                    if len(s) > self.WIDEN:
                        lo = min(x.a[0] for x in s)
                        wd[k] = True
                        self.wlo[(fid, bi, k)] = lo if st.mem[k].a[0] > lo else None
                        todo.append(k)
        for k in todo:
            self.widened += 1
            w = self.fresh(st, "W%d:%d:%d" % (fid, bi, k.a[1]), "int")
            st.mem[k] = w
            lo = self.wlo.get((fid, bi, k))
            if lo is not None: st.rng[w] = (lo, None)

    def numeric(self, v):
        return isc(v) or v.k == "op" or (v.k == "sym" and v.a[2] == "int")

    def exec_block(self, fn, bi, prev, st, frame):
        blk = fn.blocks[bi]
        res = []
        # phis first (parallel)
        idx = 0
        newv = {}
        while blk[idx]["o"] == "phi":
            for o, p in blk[idx]["in"]:
                if p == prev:
                    newv[blk[idx]["i"]] = self.val(o, st, frame)
            idx += 1
        st.envs[-1].update(newv)
        todo = [(idx, st)]
        while todo:
            idx, st = todo.pop()
            while True:
                i = blk[idx]
                o = i["o"]
                self.steps += 1
                env = st.envs[-1]
                if o == "alloca":
                    env[i["i"]] = T("al", frame.fid, i["i"], i.get("n", "t"))
                elif o == "load":
                    env[i["i"]] = self.load(st, self.val(i["a"][0], st, frame), i["t"], i, frame)
                elif o == "store":
                    self.store(st, self.val(i["a"][1], st, frame), self.val(i["a"][0], st, frame), i, frame)
                elif o == "getelementptr":
                    env[i["i"]] = self.gep(self.val(i["p"], st, frame), i["s"], st, frame)
                elif o in ("call", "invoke"):
                    outs = self.exec_call(i, st, frame)
                    nxt = []
                    for s, k, v in outs:
                        if k == "stop": continue
                        if k == "ret":
                            if "t" in i: s.envs[-1][i["i"]] = v if v is not None else UNDEF
                            if o == "invoke": res.append(("br", i["nd"], s))
                            else: nxt.append(s)
                        else:
                            if o == "invoke":
                                s.exc = v
                                for r in self.unwind(fn, i["ud"], s, frame): res.append(r)
                            else:
                                res.append(("exc", s, v))
                    if o == "invoke" or not nxt: break
                    for s in nxt[1:]: todo.append((idx + 1, s))
                    st = nxt[0]
                elif o == "br":
                    if "c" not in i:
                        res.append(("br", i["d"][0], st))
                    else:
                        c = self.val(i["c"], st, frame)
                        for s, b in self.split(st, c, i, frame):
                            res.append(("br", i["d"][0 if b else 1], s))
                    break
                elif o == "ret":
                    v = self.val(i["a"][0], st, frame) if i.get("a") else None
                    res.append(("ret", st, v))
                    break
                elif o == "icmp":
                    env[i["i"]] = cmp_(i["pred"], self.val(i["a"][0], st, frame), self.val(i["a"][1], st, frame))
                elif o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
                    a, b = self.val(i["a"][0], st, frame), self.val(i["a"][1], st, frame)
                    a, b = self.known(st, a), self.known(st, b)
                    env[i["i"]] = op(o, a, b)
                    if self.handlers.get("arith"):
                        self.emit("arith", st, frame=frame, ins=i, x=a, y=b, opname=o)
                elif o in ("zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
                    env[i["i"]] = self.val(i["a"][0], st, frame)
                    if o in ("zext", "sext") and self.handlers.get("ext"):
                        self.emit("ext", st, frame=frame, ins=i, x=env[i["i"]], opname=o)
                elif o == "trunc":
                    v = self.val(i["a"][0], st, frame)
                    if self.handlers.get("trunc"):
                        self.emit("trunc", st, frame=frame, ins=i, x=v)
                    if i["t"] == "i1":
                        if isc(v): v = C(v.a[0] & 1)
                        elif not is_bool(v): v = not_(cmp_("eq", v, C(0)))
                    elif isc(v):
                        w = int(i["t"][1:])
                        x = v.a[0] & ((1 << w) - 1)
                        if x >> (w - 1): x -= 1 << w
                        v = C(x)
                    elif not is_bool(v):
                        v = T("tr", int(i["t"][1:]), v)
                    env[i["i"]] = v
                elif o == "extractvalue":
                    v = self.val(i["a"][0], st, frame)
                    ix = i["idx"][0]
                    env[i["i"]] = v.a[ix] if v.k == "agg" and ix < len(v.a) else T("xv", v, ix)
                elif o == "insertvalue":
                    v = self.val(i["a"][0], st, frame)
                    x = self.val(i["a"][1], st, frame)
                    l = list(v.a) if v.k == "agg" else []
                    ix = i["idx"][0]
                    while len(l) <= ix: l.append(UNDEF)
                    l[ix] = x
                    env[i["i"]] = T("agg", *l)
                elif o == "select":
                    c = self.val(i["a"][0], st, frame)
                    ss = self.split(st, c, i, frame)
                    for s, b in ss:
                        s.envs[-1][i["i"]] = self.val(i["a"][1 if b else 2], s, frame)
                    if not ss: break
                    for s, _ in ss[1:]: todo.append((idx + 1, s))
                    st = ss[0][0]
                elif o == "switch":
                    c = self.known(st, self.val(i["c"], st, frame))
                    done = False
                    for cv, b in i["cs"]:
                        t = cmp_("eq", c, C(cv))
                        tr = st.truth(t)
                        if tr is False: continue
                        if tr is None:
                            s = st.clone()
                            self.cur, self.curins = frame, i
                            if self.emit_assume(s, t, True):
                                s.note("%s: case %d" % (fn.where(i), cv))
                                res.append(("br", b, s))
                            if not self.emit_assume(st, t, False):
                                done = True
                                break
                            continue
                        res.append(("br", b, st))
                        done = True
                        break
                    if not done: res.append(("br", i["dd"], st))
                    break
                elif o == "landingpad":
                    env[i["i"]] = T("agg", T("excptr"), st.caught[-1][1] if st.caught else C(0))
                elif o == "resume":
                    e = st.caught[-1][0] if st.caught else ("std",)
                    st.caught = st.caught[:-1]
                    res.append(("exc", st, e))
                    break
                elif o == "unreachable":
                    break
                elif o == "atomicrmw":
                    a = self.val(i["a"][0], st, frame)
                    self.emit("atomic", st, frame=frame, ins=i, addr=a, opname=i.get("rmw"))
                    env[i["i"]] = self.fresh(st, "A%d:%d" % (frame.fid, i["i"]), "int", a)
                elif o == "cmpxchg":
                    env[i["i"]] = T("agg", self.fresh(st, "A%d:%d" % (frame.fid, i["i"]), "int"), self.fresh(st, "B%d:%d" % (frame.fid, i["i"]), "bool"))
                elif o in ("fence",):
                    pass
                else:
                    if "t" in i: env[i["i"]] = self.fresh(st, "U%d:%d" % (frame.fid, i["i"]), "int")
                idx += 1
        return res

    def known(self, st, t):
        r = st.rng.get(t)
        if r and r[0] is not None and r[0] == r[1] and not isc(t): return C(r[0])
        return t

    def split(self, st, c, ins, frame):
        """fork on a condition; the feasible (state, truth) pairs"""
        if c.k in ("undef", "uninit"):
            s2 = st.clone()
            return [(st, True), (s2, False)]
        if not is_bool(c) and not isc(c): c = not_(cmp_("eq", c, C(0)))
        t = st.truth(c)
        if t is not None: return [(st, t)]
        # compound conditions are split on their atoms
        if c.k in ("and", "or") or (c.k == "not" and c.a[0].k in ("and", "or")):
            inner = c.a[0] if c.k == "not" else c
            out = []
            for s, _ in self.split(st, inner.a[0], ins, frame):
                for s2, _ in self.split(s, inner.a[1], ins, frame):
                    out.append((s2, s2.truth(c)))
            return out
        out = []
        s2 = st.clone()
        self.cur, self.curins = frame, ins
        ok = self.emit_assume(st, c, True)
        if ok:
            st.note("%s: %s" % (frame.fn.where(ins), show(c)))
            out.append((st, True))
        if self.emit_assume(s2, c, False):
            s2.note("%s: not %s" % (frame.fn.where(ins), show(c)))
            out.append((s2, False))
        return out

    def emit_assume(self, st, c, val):
        if not st.assume(c, val): return False
        if self.handlers.get("assume"): self.emit("assume", st, cond=c, val=val, frame=self.cur, ins=self.curins)
        for r in self.rules:
            if not r.feasible(st): return False
        return True

    # ---------------------------------------------------------------- exceptions
    def catches(self, ti, exc):
        """does a handler for type-info ti catch exc: True / False / None (maybe)"""
        k = exc[0]
        if ti is None: return True
        if k == ti: return True
        std = k in ("std", "bad_alloc") or k.startswith("_ZTISt") or k.startswith("_ZTIN14veigar_msgpack")
        if ti == "_ZTISt9exception": return std
        if ti == "_ZTISt9bad_alloc": return k == "bad_alloc"
        if k == "std" and (ti.startswith("_ZTISt") or ti.startswith("_ZTIN14veigar_msgpack")): return None
        if k == "std" and ti.startswith("_ZTISt"): return None
        if k.startswith("_ZTISt") and ti in ("_ZTISt11logic_error", "_ZTISt13runtime_error"): return None
        return False

    def unwind(self, fn, ud, st, frame):
        """successor(s) of an exception that reaches landing pad block ud"""
        blk = fn.blocks[ud]
        lp = next(i for i in blk if i["o"] == "landingpad")
        exc = st.exc
        st.exc = None
        out = []
        for kind, o in lp["cl"]:
            if kind != "catch": continue
            ti = None if o[0] == "null" else o[1] if o[0] in ("g",) else None
            m = self.catches(ti, exc)
            if m is False: continue
            s = st if m else st.clone()
            s.caught = s.caught + ((exc, T("tid", ti or "*")),)
            s.note("%s: exception (%s) caught" % (fn.where(lp), exc[0]))
            self.emit("caught", s, frame=frame, ins=lp, exc=exc)
            out.append(("br", ud, s))
            if m: return out
        if lp["cleanup"]:
            st.caught = st.caught + ((exc, C(0)),)
            out.append(("br", ud, st))
        else:
            out.append(("exc", st, exc))
        return out

    # ---------------------------------------------------------------- calls
    def exec_call(self, i, st, frame):
        f = i["f"]
        args = [self.val(a, st, frame) for a in i["a"]]
        if f[0] != "fn":
            v = self.val(f, st, frame)
            if v.k == "fn" and v.a[0] in self.P.funcs:
                fn = self.P.funcs[v.a[0]]
            else:
                c = Call(self, None, args, i, frame)
                return self.models.indirect(self, st, c, v)
        else:
            fn = self.P.funcs[f[1]]
        return self.invoke(fn, args, i, st, frame)

    def invoke(self, fn, args, i, st, frame):
        c = Call(self, fn, args, i, frame)
        nm = fn.nm
        prim = self.primitives.get(nm.base)
        if prim is not None:
            if self.handlers.get("primcall"): self.emit("primcall", st, c)
            return self.wrap(prim(self, st, c), st)
        own = self.P.own(fn) or (not fn.decl and nm.base in self.models.INLINED)
        if own and nm.base not in self.opaque and not frame.has(fn):
            return self.inline(fn, args, i, st, frame)
        if self.handlers.get("anycall"): self.emit("anycall", st, c)
        m = self.models.lookup(self, fn)
        if m is not None:
            self.calls_done.add((frame.fn.name, i["i"]))
            return self.wrap(m(self, st, c), st)
        self.unknown[nm.base] = self.unknown.get(nm.base, 0) + 1
        return self.wrap(self.models.unknown(self, st, c), st)

    def inline(self, fn, args, i, st, frame):
        fr = self.frame(fn, frame, i)
        self.emit("enter", st, frame=fr, ins=i, fn=fn, args=args)
        res = self.exec_function(fn, args, st, fr)
        if self.handlers.get("leave"):
            for s, k, v in res: self.emit("leave", s, frame=fr, ins=i, fn=fn, how=k, val=v, args=args)
        return res

    def wrap(self, r, st):
        if r is None: return [(st, "ret", None)]
        if type(r) is T: return [(st, "ret", r)]
        return r


class Rule:
    """base class of the rules: an automaton fed with the events of all paths"""
    name = ""

    def __init__(self):
        self.violations = {}
        self.obligations = {}
        self.E = None

    def handlers(self):
        return {}

    def start(self, st, root):
        pass

    def feasible(self, st):
        return True

    def ok(self, kind, where):
        self.obligations.setdefault(kind, set()).add(where)

    def report(self, ev, kind, msg, where=None):
        w = where or (ev.frame.fn.where(ev.ins) if ev.frame else "?")
        key = (kind, w, ev.ownfunc() if ev.frame else "?")
        if key in self.violations: return
        stack = []
        f = ev.frame
        site = ev.ins
        while f is not None:
            stack.append("%s (%s)" % (f.fn.nm.base, f.fn.where(site) if site else f.fn.where()))
            site = f.site
            f = f.up
        self.violations[key] = {"rule": self.name, "kind": kind, "where": w, "function": key[2], "message": msg,
                                "root": self.E.root, "callstack": stack, "path": ev.st.trace_list()}
