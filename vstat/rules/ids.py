"""Call ids: what they are composed of, and where the parts come from."""
import re
from terms import *
from engine import Rule
from rules.ipc import flat

CONV = re.compile(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z%])")
TRUE_RANDOM = ("std::random_device", "getrandom", "getentropy", "arc4random", "uuid_generate")
WEAK = {"rand": "rand()", "rand_r": "rand_r()", "random": "random()", "lrand48": "lrand48()", "time": "time()", "clock": "clock()"}
RMW = ("fetch_add", "fetch_sub", "operator++", "operator--", "operator+=", "operator-=")
LOSSY = ("and", "urem", "srem", "lshr", "ashr", "udiv", "sdiv")


def pieces(t):
    """literal texts, and (term, conversion) for every other part"""
    out = []
    for x in flat(t):
        if isinstance(x, str): out.append(x); continue
        if x.k == "tos": out.append((x.a[0], "d")); continue
        if x.k == "fmt" and x.a[0].k == "lit":
            f, args, pos = x.a[0].a[0], list(x.a[1:]), 0
            for m in CONV.finditer(f):
                if m.start() > pos: out.append(f[pos:m.start()])
                pos = m.end()
                if m.group(4) == "%": out.append("%"); continue
                if not args: continue
                a = args.pop(0)
                if m.group(4) == "s": out += pieces(a.a[0]) if a.k == "cstr" else [(a, "s")]
                else: out.append((a, "x" if m.group(4) in "xX" else "d"))
            if pos < len(f): out.append(f[pos:])
            continue
        out.append((x, "s"))
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str): res[-1] += x
        elif x != "": res.append(x)
    return res


def syms(t, out):
    if t.k == "sym": out.add(t)
    for x in t.a:
        if type(x) is T: syms(x, out)
    return out


def bits(t, d=0):
    """bits of a symbol that the value depends on: {symbol: mask}"""
    if t.k == "sym": return {t: 0xffffffffffffffff}
    if t.k == "tr": return {k: v & ((1 << t.a[0]) - 1) for k, v in bits(t.a[1]).items()}
    if t.k == "op":
        n, a, b = t.a
        if n == "and" and isc(b): return {k: v & b.a[0] for k, v in bits(a).items()}
        if n == "or" and isc(b): return {k: v & ~b.a[0] for k, v in bits(a).items()}
        if n in ("urem", "srem") and isc(b) and b.a[0] > 0: return {k: v & ((1 << max(b.a[0] - 1, 0).bit_length()) - 1) for k, v in bits(a).items()}
        if n == "lshr" and isc(b): return {k: (v >> b.a[0]) << b.a[0] for k, v in bits(a).items()}
        r = {}
        for x in (a, b):
            for k, v in bits(x).items(): r[k] = r.get(k, 0) | v
        return r
    r = {}
    for x in t.a:
        if type(x) is T:
            for k, v in bits(x).items(): r[k] = r.get(k, 0) | v
    return r


class Entropy(Rule):
    """random values used on the way"""
    name = "call-ids"

    def __init__(self):
        super().__init__()
        self.true_random = set()      # labels
        self.any_true = False
        self.weak = {}

    def handlers(self): return {"anycall": self.call}

    def call(self, ev):
        b = ev.call.nm.base if ev.call.nm else ""
        if any(b.startswith(x) for x in TRUE_RANDOM): self.any_true = True
        if b in WEAK: self.weak[b] = ev.where()

    def bits(self, E, t):
        """random bits in a text; None = not understood"""
        extra, opaque = 0, False
        have = {}
        for p in pieces(t):
            if isinstance(p, str): continue
            x, conv = p
            if x.k == "sub":
                m, o = self.bits(E, x.a[0])
                c = x.a[-1]
                extra += min(m, 4 * c.a[0]) if isc(c) and c.a[0] >= 0 else m
                opaque = opaque or o
                continue
            if conv == "s": opaque = True; continue
            for s, m in bits(x).items():
                d = E.symsite.get(s.a[0], "")
                if any(k in d for k in TRUE_RANDOM): w = 32
                elif "mersenne_twister" in d or "uniform_int" in d or "linear_congruential" in d: w = 32 if self.any_true else 0
                elif d.split(" ")[0] in WEAK: w = 0
                else: opaque = True; continue
                have[s] = have.get(s, 0) | (m & ((1 << w) - 1))
        return extra + sum(bin(v).count("1") for v in have.values()), opaque


class CallId(Entropy):
    """the function that makes a call id"""

    def __init__(self, user):
        super().__init__()
        self.user = user            # content of the caller's string
        self.rmw = {}
        self.fields = set()         # instance ids used
        self.counters = set()
        self.kinds = set()

    def handlers(self):
        h = super().handlers()
        h.update({"rmw": self.onrmw, "atomic": self.onatomic, "store": self.store, "exit": self.exit})
        return h

    def onrmw(self, ev):
        w = int(ev.ty[1:]) if ev.ty and ev.ty[0] == "i" and ev.ty[1:].isdigit() else 0
        if ev.opname.startswith("compare_exchange"):
            ev.st.rs["cas"] = ev.st.rs.get("cas", frozenset()) | {ev.addr}
            return
        self.rmw[ev.res.a[0]] = (ev.addr, ev.opname, ev.val, w)

    def onatomic(self, ev): pass

    def store(self, ev):
        v = ev.val
        if v.k == "op" and v.a[0] in ("add", "sub") and isc(v.a[2]) and v.a[2].a[0] and self.place(v.a[1]) is ev.addr and any(k == "mutex" for k, m in ev.st.locks):
            ev.st.rs["inc"] = ev.st.rs.get("inc", frozenset()) | {ev.addr}

    def place(self, t):
        """the variable a value was loaded from"""
        if t.k == "ld": return t.a[0]
        if t.k == "sym" and len(t.a) > 3 and type(t.a[3]) is T: return t.a[3]
        return None

    def number(self, st, t):
        """None: not understood; '' good; otherwise what is wrong"""
        while t.k == "op" and t.a[0] in ("add", "sub", "xor") and isc(t.a[2]): t = t.a[1]
        if t.k == "tr":
            r = self.number(st, t.a[1])
            return r if r != "" else "its number is cut to %d bits, after %d calls the ids repeat" % (t.a[0], 1 << t.a[0])
        if t.k == "op" and t.a[0] in LOSSY and isc(t.a[2]):
            r = self.number(st, t.a[1])
            return r if r != "" else "different numbers are mapped to the same one (%s)" % t.a[0]
        if t.k == "sym" and t.a[0] in self.rmw:
            addr, o, val, w = self.rmw[t.a[0]]
            self.counters.add(addr)
            if o == "load":
                return "" if addr in st.rs.get("cas", ()) else "its number is read without being advanced in the same step, two calls may get the same one"
            if o not in RMW: return None if o != "exchange" else "its number is not advanced"
            if val is not None and isc(val) and val.a[0] == 0 and not o.startswith("operator++") and not o.startswith("operator--"): return "its number is not advanced"
            if w and w < 64: return "its number has %d bits and wraps around" % w
            return ""
        p = self.place(t)
        if p is not None:
            self.counters.add(p)
            if p in st.rs.get("inc", ()): return ""
            return "its number is read without being advanced in the same step, two calls may get the same one"
        if isc(t): return "its number is constant"
        return None

    def exit(self, ev):
        st = ev.st
        if ev.how != "ret": return
        v = st.mem.get(ps(T("param", self.dest), "s"))
        where = ev.where() if ev.ins else self.E.root
        self.ok("composition of a call id", where)
        if v is None: return
        ps_ = pieces(v)
        num = inst = user = unclear = False
        for n, p in enumerate(ps_):
            if isinstance(p, str): continue
            x, conv = p
            if x.k == "sub" and x.a[0].k == "ld":
                c = x.a[-1]
                if isc(c) and 0 <= c.a[0] < 16: self.report(ev, "little-entropy", "the call id contains only %d characters of the id of the instance" % c.a[0], where=self.E.root)
                x = x.a[0]
            if x is self.user: user = True; self.kinds.add("name of the function"); continue
            if conv == "s":
                if x.k == "ld" and x.a[0].k == "ps" and base_of(x.a[0]).k != "param" or (x.k == "ld" and x.a[0].k == "ps" and base_of(x.a[0]) is T("param", "this")):
                    inst = True
                    self.fields.add(x.a[0].a[0])
                    self.kinds.add("instance")
                else: unclear = True
                continue
            b, opaque = self.bits(self.E, T("tos", x))
            if b >= 16:
                self.kinds.add("random")
                st.rs["rnd"] = st.rs.get("rnd", 0) + b
                continue
            r = self.number(st, x)
            if r is None: unclear = True; continue
            num = True
            self.kinds.add("number")
            if r: self.report(ev, "number", "two calls may get the same id: " + r, where=self.E.root)
            digit = "0123456789abcdefABCDEF" if conv == "x" else "0123456789"
            for q, side in ((ps_[n - 1] if n else None, -1), (ps_[n + 1] if n + 1 < len(ps_) else None, 0)):
                if q is None: continue
                if isinstance(q, str):
                    if q[side] in digit: self.report(ev, "ambiguous", "the number of the call id is not separated from the text next to it by a character that is no digit ('%s')" % q, where=self.E.root)
                elif q[0] is self.user:
                    self.report(ev, "ambiguous", "the number of the call id and the name of the function are not separated: different numbers and names give the same id", where=self.E.root)
        rnd = st.rs.get("rnd", 0)
        if rnd >= 64: return
        if not num and not unclear: self.report(ev, "no-number", "the call id has no number that differs from call to call", where=self.E.root)
        if not inst and not unclear: self.report(ev, "no-instance", "the call id does not contain the id of the instance: calls of different instances may have the same one", where=self.E.root)


class InstanceId(Entropy):
    """what the instance id is set to"""

    def __init__(self, fields, counters):
        super().__init__()
        self.fields = fields         # offsets of the string in the object that init creates
        self.names = set()
        self.counters = counters
        self.found = 0

    def handlers(self):
        h = super().handlers()
        h.update({"exit": self.exit, "atomic": self.onatomic})
        return h

    def onatomic(self, ev):
        if self.step == "init" and ev.opname in ("store", "operator=", "exchange") and ev.addr is not None and self.E.fullname(ev.addr) in self.counters:
            ev.st.rs["reset"] = ev.where()

    def exit(self, ev):
        st = ev.st
        if self.step == "ctor" and ev.how == "ret":
            st.rs["early"] = any(k.k == "ps" and k.a[1] == "s" and self.E.fullname(k.a[0]) in self.names and not (v.k == "lit" or v.k == "ld") for k, v in st.mem.items())
        if self.step == "init" and st.rs.get("early") and st.rs.get("reset"):
            self.report(ev, "counter-reset", "initialisation starts the numbers again, but the id of the instance stays the same: ids of the time before are repeated", where=st.rs["reset"])
        if self.step == "init" and ev.how == "ret" and ev.val is not None and st.truth(ev.val) is True:
            for k, v in st.mem.items():
                if k.k == "ps" and k.a[1] == "s" and self.E.fullname(k.a[0]) in self.names:
                    if self.nstep > 1 and st.rs.get("reset") and st.rs.get("iid") is v:
                        self.report(ev, "counter-reset", "a repeated initialisation starts the numbers again, but the id of the instance stays the same: ids of the time before are repeated", where=st.rs["reset"])
                    st.rs["iid"] = v
            st.rs.pop("reset", None)
        if self.step != "init" or ev.how != "ret" or ev.val is None or st.truth(ev.val) is not True: return
        n = 0
        for k, v in st.mem.items():
            if k.k == "ps" and k.a[1] == "s" and self.E.fullname(k.a[0]) in self.names:
                n += 1
                self.one(ev, k, v)
        self.found += n

    def one(self, ev, k, v):
        self.ok("origin of the instance id", self.E.fullname(k.a[0]))
        b, opaque = self.bits(self.E, v)
        if b >= 64: return
        if opaque:
            if self.weak and not self.any_true: self.report(ev, "predictable", "the id of an instance is made with %s, which yields the same values in other processes" % ", ".join(WEAK[w] for w in sorted(self.weak)), where=sorted(self.weak.values())[0])
            loads = [x for x in flat(v) if not isinstance(x, str) and x.k == "ld" and base_of(x.a[0]).k == "g"]
            if loads and all(c.startswith("global") for c in self.counters) and self.counters: return
            if loads: self.report(ev, "shared-id", "the id of an instance is a value that all instances of the process share", where=self.E.root)
            elif all(isinstance(x, str) or (x.k == "ld" and base_of(x.a[0]).k == "param") for x in flat(v)): self.report(ev, "not-unique", "the id of an instance is made of %s, other instances may have the same one" % show(v), where=self.E.root)
            return
        if self.weak: self.report(ev, "predictable", "the id of an instance is made with %s, which yields the same values in other processes" % ", ".join(WEAK[w] for w in sorted(self.weak)), where=sorted(self.weak.values())[0])
        else: self.report(ev, "little-entropy", "the id of an instance has only %d random bits" % b, where=self.E.root)
