"""Hash-consed abstract values."""


class T:
    __slots__ = ("k", "a", "syms", "id", "__weakref__")
    _tab = {}
    _n = 0

    def __new__(cls, k, *a):
        key = (k, a)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k = k
            t.a = a
            if k == "sym":
                t.syms = frozenset((t,))
            else:
                s = None
                for x in a:
                    if type(x) is T and x.syms:
                        s = x.syms if s is None else (s | x.syms)
                t.syms = s if s is not None else _E
            t.id = T._n
            T._n += 1
            T._tab[key] = t
        return t

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_E = frozenset()


def C(n):
    return T("c", n)


NULL = C(0)
TRUE = C(1)
FALSE = C(0)
UNDEF = T("undef")


def isc(t):
    return t.k == "c"


def show(t, d=0):
    if type(t) is not T: return str(t)
    if d > 8: return "…"
    k, a = t.k, t.a
    if k == "c": return str(a[0])
    if k in ("fn", "g"): return "&" + a[0][:40]
    if k == "al": return "%%%s/%s" % (a[2], a[0])
    if k == "sym": return "$" + a[0] + ("'" * a[1])
    if k == "at": return "%s+%d" % (show(a[0], d + 1), a[1])
    if k == "ld": return "*(%s)" % show(a[0], d + 1)
    if k == "param": return "arg:" + a[0]
    return "%s(%s)" % (k, ",".join(show(x, d + 1) for x in a))


def at(base, off):
    if off == 0:
        return base
    if base.k == "at":
        o = base.a[1] + off
        return base.a[0] if o == 0 else T("at", base.a[0], o)
    return T("at", base, off)


def base_of(addr):
    """innermost base of an address: strips offsets, indices, tuple components, pseudo cells"""
    while addr.k in ("at", "ix", "tup", "ps"):
        addr = addr.a[0]
    return addr


def ps(addr, tag):
    return T("ps", addr, tag)


def subst(t, m, cache):
    """substitute symbols per m (dict T->T); cache shared per substitution"""
    if not t.syms: return t
    hit = False
    for s in m:
        if s in t.syms:
            hit = True
            break
    if not hit: return t
    r = cache.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.k == "sym":
        r = T("sym", *[subst(x, m, cache) if type(x) is T else x for x in t.a])
    else:
        r = T(t.k, *[subst(x, m, cache) if type(x) is T else x for x in t.a])
    cache[t] = r
    return r


def subst_any(x, m, cache):
    if type(x) is T: return subst(x, m, cache)
    if type(x) is tuple: return tuple(subst_any(y, m, cache) for y in x)
    if type(x) is frozenset: return frozenset(subst_any(y, m, cache) for y in x)
    if type(x) is dict: return {subst_any(k, m, cache): subst_any(v, m, cache) for k, v in x.items()}
    return x


def syms_any(x, out):
    if type(x) is T:
        out |= x.syms
    elif type(x) in (tuple, frozenset, list):
        for y in x: syms_any(y, out)
    elif type(x) is dict:
        for k, v in x.items():
            syms_any(k, out); syms_any(v, out)
    return out


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


def cmp_(pred, a, b):
    """canonical comparison: (eq|slt|ult) possibly wrapped in not"""
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        ux, uy = x & ((1 << 64) - 1), y & ((1 << 64) - 1)
        r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
             "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[pred]
        return TRUE if r else FALSE
    if pred in ("ne", "sge", "sle", "uge", "ule"):
        return not_(cmp_(NEG[pred], a, b))
    if pred == "sgt": return cmp_("slt", b, a)
    if pred == "ugt": return cmp_("ult", b, a)
    if pred == "ult" and isc(a) and a.a[0] == 0 and b.k == "len": return not_(T("isempty", b.a[0]))
    if pred == "ult" and isc(b) and b.a[0] == 1 and a.k == "len": return T("isempty", a.a[0])
    if pred == "eq":
        if a is b: return TRUE
        if isc(a): a, b = b, a
        if isc(b):
            if b.a[0] == 0 and a.k == "len": return T("isempty", a.a[0])
            # boolean carried in an integer
            if is_bool(a):
                if b.a[0] == 0: return not_(a)
                if b.a[0] in (1, -1): return a
                return FALSE
            if b.a[0] == 0 and never_null(a): return FALSE
            if a.k == "op" and a.a[0] == "add" and isc(a.a[2]):
                return cmp_("eq", a.a[1], C(b.a[0] - a.a[2].a[0]))
            if a.k == "op" and a.a[0] == "sub" and isc(a.a[1]) and is_bool(a.a[2]):
                return cmp_("eq", a.a[2], C(a.a[1].a[0] - b.a[0]))
        elif b.id < a.id:
            a, b = b, a
        if a.k == "iter" and b.k == "iter":
            return FALSE if (a.a[1] is not b.a[1] and ("end" in (a.a[1], b.a[1]))) else (TRUE if a is b else T("cmp", "eq", a, b))
        if distinct_bases(a, b): return FALSE
        if a.k == "tid" and b.k == "tid" and "?" not in (a.a[0], b.a[0]): return FALSE
        return T("cmp", "eq", a, b)
    if pred in ("slt", "ult") and a is b: return FALSE
    if pred == "ult" and isc(b) and b.a[0] == 0: return FALSE
    if pred == "ult" and isc(b) and b.a[0] == 1: return cmp_("eq", a, C(0))
    if pred == "ult" and isc(a) and a.a[0] == 0: return not_(cmp_("eq", b, C(0)))
    return T("cmp", pred, a, b)


def distinct_bases(a, b):
    fa = a.k in ("al", "g", "fn") or (a.k == "sym" and a.a[2] == "heap")
    fb = b.k in ("al", "g", "fn") or (b.k == "sym" and b.a[2] == "heap")
    return fa and fb and a is not b


def never_null(a):
    if a.k in ("al", "g", "fn", "iter", "cstr", "lam", "ps", "tup"): return True
    if a.k == "at": return True
    if a.k == "param": return True
    if a.k == "sym" and a.a[2] in ("heap", "elem", "nn"): return True
    return False


def is_bool(t):
    return t.k in ("cmp", "not", "bool", "streq", "isempty", "and", "or") or (t.k == "sym" and t.a[2] == "bool")


def not_(b):
    if isc(b): return FALSE if b.a[0] else TRUE
    if b.k == "not": return b.a[0]
    return T("not", b)


def op(name, a, b):
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        if name == "add": return C(x + y)
        if name == "sub": return C(x - y)
        if name == "mul": return C(x * y)
        if name == "and": return C(x & y)
        if name == "or": return C(x | y)
        if name == "xor": return C(x ^ y)
        if name in ("sdiv", "udiv") and y: return C(int(x / y) if abs(x) < 2**52 else x // y)
        if name in ("srem", "urem") and y: return C(x - y * int(x / y) if abs(x) < 2**52 else x % y)
        if name == "shl" and 0 <= y < 64: return C(x << y)
        if name in ("lshr", "ashr") and 0 <= y < 64: return C(x >> y)
    if name in ("add", "mul", "and", "or", "xor") and isc(a):
        a, b = b, a
    if isc(b):
        c = b.a[0]
        if c == 0 and name in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
        if c == 0 and name in ("mul", "and"): return C(0)
        if c == 1 and name in ("mul", "sdiv", "udiv"): return a
        if name == "sub": return op("add", a, C(-c))
        if name == "add" and a.k == "op" and a.a[0] == "add" and isc(a.a[2]):
            return op("add", a.a[1], C(a.a[2].a[0] + c))
        if name == "xor" and is_bool(a) and c in (1, -1): return not_(a)
        if name == "and" and is_bool(a) and (c & 1): return a
    if name == "sub" and b.k == "op" and b.a[0] == "mul" and isc(b.a[2]) and b.a[1].k == "op" and b.a[1].a[0] in ("sdiv", "udiv") and b.a[1].a[1] is a and b.a[1].a[2] is b.a[2]:
        return op("srem" if b.a[1].a[0] == "sdiv" else "urem", a, b.a[2])      # x - x / k * k
    if is_bool(a) and is_bool(b):
        if name == "and": return T("and", a, b)
        if name == "or": return T("or", a, b)
        if name == "xor" and a is b: return FALSE
    if name in ("add", "mul", "and", "or", "xor") and not isc(b) and b.id < a.id:
        a, b = b, a
    return T("op", name, a, b)
