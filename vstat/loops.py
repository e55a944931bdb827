"""Summaries of counting loops: induction variables and sums over an array replace the repeated execution of the body."""
from terms import *
from affine import Lin


CACHE = {}


def loops_of(fn):
    """header -> blocks of its natural loop"""
    r = CACHE.get(fn.name)
    if r is not None: return r
    n = len(fn.blocks)
    succ = []
    for b in fn.blocks:
        t = b[-1]
        succ.append(list(t["d"]) if t["o"] == "br" else [t["dd"]] + [c[1] for c in t["cs"]] if t["o"] == "switch" else [t["nd"], t["ud"]] if t["o"] == "invoke" else [])
    pred = [[] for _ in range(n)]
    for b in range(n):
        for s in succ[b]: pred[s].append(b)
    full = set(range(n))
    dom = [full for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            ps_ = [dom[p] for p in pred[b]]
            d = set.intersection(*ps_) | {b} if ps_ else {b}
            if d != dom[b]: dom[b] = d; ch = True
    out = {}
    for b in range(n):
        for s in succ[b]:
            if s in dom[b]:
                body = out.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in body: continue
                    body.add(x)
                    w += pred[x]
    CACHE[fn.name] = out
    return out


class Summarizer:
    """rule: supplies the linear view of terms (lin, term), the sums it knows (prefix) and what a loop does to its own state (loop)"""
    def __init__(self, rule):
        self.rule = rule
        self.done = {}       # (function, header) -> how it was summarised
        self.given_up = set()

    def wants(self, fn, bi, prev):
        l = loops_of(fn)
        return bi in l and prev not in l[bi]

    def region(self, E, fn, hd, prev, st, frame, body):
        back, exits = [], []
        work = [(hd, prev, st)]
        steps = 0
        while work:
            bi, pv, s = work.pop()
            steps += 1
            if steps > 400: return None
            if bi != hd and bi in E_loops(fn) and pv not in E_loops(fn)[bi]:
                r = self.summarise(E, fn, bi, pv, s, frame)
                if r is None: return None
                res = r
            else:
                E.blocks_done.add((fn.name, bi))
                res = [(("br", x[1], x[2], bi) if x[0] == "br" else x) for x in E.exec_block(fn, bi, pv, s, frame)]
            for x in res:
                if x[0] != "br": exits.append(x)
                elif x[1] == hd: back.append(x[2])
                elif x[1] in body: work.append((x[1], x[3], x[2]))
                else: exits.append(x)
        return back, exits

    def summarise(self, E, fn, hd, prev, st, frame):
        """successors after the loop as ("br", block, state, predecessor) or function exits; None if not recognised"""
        R = self.rule
        body = loops_of(fn)[hd]
        if fn.blocks[hd][0]["o"] == "phi": return self.giveup(fn, hd)
        pre = st
        M = set()
        tag = "%d:%d" % (frame.fid, hd)
        R.mute += 1
        try:
            for _ in range(6):
                s0 = pre.clone()
                X = {}
                for n, c in enumerate(sorted(M, key=lambda c: c.id)):
                    X[c] = T("sym", "LC%s:%d" % (tag, n), 0, "int")     # displacement since the loop was entered
                    s0.mem[c] = op("add", pre.mem[c], X[c])
                start = dict(s0.mem)
                rs0 = dict(s0.rs)
                r = self.region(E, fn, hd, prev, s0, frame, body)
                if r is None: return self.giveup(fn, hd)
                back, exits = r
                new = {c for b in back for c in pre.mem if b.mem.get(c) is not start.get(c)}
                if new <= M: break
                M |= new
            else: return self.giveup(fn, hd)
            if not back:
                pass
            elif len({tuple(sorted((c.id, b.mem.get(c).id if b.mem.get(c) is not None else -1) for c in M)) for b in back}) > 1 or len({repr(R.own(b)) for b in back}) > 1:
                return self.giveup(fn, hd)
            else:
                B = back[0]
                k = T("sym", "LK" + tag, 0, "int")
                L = R.lin
                ind, acc, tmp = {}, {}, set()
                for c in M:
                    v = B.mem.get(c)
                    if v is None: tmp.add(c); continue
                    d = L(v) - L(pre.mem[c]) - L(X[c])
                    if d.const is not None: ind[c] = d.const
                    elif any(x in v.syms for x in (X[c],)) and X[c] not in d.m: acc[c] = d
                    else: tmp.add(c)
                sub = {X[c]: Lin(0, {k: 1}).scale(ind[c]) for c in ind}
                final = {}
                for c in ind: final[c] = R.term(L(pre.mem[c]) + sub[X[c]])
                for c, d in acc.items():
                    s = R.total(pre, d, sub, k)
                    if s is None: tmp.add(c)
                    else: final[c] = R.term(L(pre.mem[c]) + s)
                own = R.loop(pre, B, sub, k)
                s1 = pre.clone()
                s1.rs.update(own)
                for c, t in final.items(): s1.mem[c] = t
                for n, c in enumerate(sorted(tmp, key=lambda c: c.id)): s1.mem[c] = T("sym", "LT%s:%d" % (tag, n), 0, "int")
                s1.rng[k] = (0, None)
                s1.rs["counts"] = s1.rs.get("counts", ()) + (k,)      # kept alive
                # what has to hold for another iteration
                base = dict(s1.facts)
                r = self.region(E, fn, hd, prev, s1.clone(), frame, body)
                if r is None: return self.giveup(fn, hd)
                b2 = r[0]
                if not b2: cont = None
                else:
                    cont = {t: v for t, v in b2[0].facts.items() if t not in base}
                    for b in b2[1:]: cont = {t: v for t, v in cont.items() if b.facts.get(t) == v}
        finally:
            R.mute -= 1
        out = []
        r = self.region(E, fn, hd, prev, pre.clone(), frame, body)
        if r is None: return self.giveup(fn, hd)
        out += r[1]
        if back and cont is not None:
            s2 = s1
            s2.rng[k] = (1, None)
            m = {k: op("add", k, C(-1))}
            cache = {}
            for t, v in cont.items(): s2.facts[subst(t, m, cache)] = v
            for t, v in cont.items():
                # a counter that starts on one side of a bound and has not met it is still on that side
                if v or t.k != "cmp" or t.a[0] != "eq": continue
                d = R.lin(t.a[1]) - R.lin(t.a[2])
                c = d.m.get(k, 0)
                if not c or d.c % c or any(x % c for x in d.m.values()): continue
                d = Lin(d.c // abs(c), {z: x // abs(c) for z, x in d.m.items()})
                d0 = Lin(d.c, {z: x for z, x in d.m.items() if z is not k})
                if c > 0 and R.q(pre, d0.scale(-1)): s2.facts[T("cmp", "slt", C(0), R.term(d))] = False
                if c < 0 and R.q(pre, d0): s2.facts[T("cmp", "slt", R.term(d), C(0))] = False
            s2.note("%s: loop, %s iterations" % (fn.where(fn.blocks[hd][0]), show(k)))
            if R.feasible(s2):
                r = self.region(E, fn, hd, prev, s2, frame, body)
                if r is None: return self.giveup(fn, hd)
                out += r[1]
        self.done[(fn.nm.base, fn.where(fn.blocks[hd][0]))] = "%d counters, %d sums" % (len(ind), len([c for c in acc if c in final])) if back else "no iteration"
        return out

    def giveup(self, fn, hd):
        self.given_up.add("%s at %s" % (fn.nm.base, fn.where(fn.blocks[hd][0])))
        return None


def E_loops(fn): return loops_of(fn)
