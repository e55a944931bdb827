"""Formatted texts: constant formats whose conversions agree with the arguments; argument lists used once; buffers of the size given."""
import re
from terms import *
from engine import Rule
from affine import lin
from rules.ids import CONV
import models

LIBC = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "asprintf": 1, "syslog": 1, "wprintf": 0, "fwprintf": 1, "swprintf": 2,
        "__printf_chk": 1, "__fprintf_chk": 2, "__sprintf_chk": 3, "__snprintf_chk": 4}
VLIBC = {"vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vdprintf": 1, "vasprintf": 1, "vsyslog": 1, "vwprintf": 0, "vfwprintf": 1, "vswprintf": 2,
         "__vsnprintf_chk": 4, "__vsprintf_chk": 3}
BUFSIZE = {"snprintf": (0, 1, 1), "vsnprintf": (0, 1, 1), "swprintf": (0, 1, 4), "vswprintf": (0, 1, 4)}      # buffer, size, bytes per unit
WID = {None: "i32", "hh": "i32", "h": "i32", "l": "i64", "ll": "i64", "q": "i64", "j": "i64", "z": "i64", "t": "i64"}


def wants(fmt):
    """types of the arguments the conversions of a format take; None for an invalid conversion"""
    out = []
    pos = 0
    for m in re.finditer("%", fmt):
        if m.start() < pos: continue
        c = CONV.match(fmt, m.start())
        if not c: return out + [("?", fmt[m.start():m.start() + 6])]
        pos = c.end()
        w, p, l, k = c.groups()
        if w == "*": out.append(("i32", c.group(0)))
        if p == "*": out.append(("i32", c.group(0)))
        if k == "%": continue
        if k in "diouxX": out.append((WID.get(l, "?"), c.group(0)))
        elif k == "c": out.append(("i32", c.group(0)))
        elif k in "aAeEfFgG": out.append(("x86_fp80" if l == "L" else "double", c.group(0)))
        elif k in "sp": out.append(("ptr", c.group(0)))
        elif k == "m": continue
        else: out.append(("?", c.group(0)))
    return out


def mismatch(fmt, types):
    ws = wants(fmt)
    for n, (w, conv) in enumerate(ws):
        if w == "?": return "the conversion '%s' is not supported" % conv
        if n >= len(types): return "the format \"%s\" takes %d arguments, %d are given" % (fmt.strip(), len(ws), len(types))
        if types[n] != w: return "the conversion '%s' takes %s, the argument is %s" % (conv, NAMES.get(w, w), NAMES.get(types[n], types[n]))
    if len(types) > len(ws): return "the format \"%s\" takes %d arguments, %d are given" % (fmt.strip(), len(ws), len(types))
    return ""


NAMES = {"i32": "a 32-bit integer", "i64": "a 64-bit integer", "ptr": "a pointer", "double": "a floating-point number"}


class Sites:
    """which functions take a format and variable arguments"""
    def __init__(self, P):
        self.P = P
        self.own = {f.name: len(f.args) - 1 for f in P.funcs.values() if not f.decl and P.own(f) and f.d.get("vararg") and f.args}

    def fmtpos(self, f):
        if f.name in self.own: return self.own[f.name]
        return LIBC.get(f.nm.base) if f.decl else None

    def all(self):
        for f in self.P.funcs.values():
            if f.decl or not self.P.own(f): continue
            for i in f.instrs():
                if i["o"] in ("call", "invoke") and i["f"][0] == "fn":
                    g = self.P.funcs[i["f"][1]]
                    k = self.fmtpos(g)
                    if k is not None: yield f, i, g, k


class Formats(Rule):
    """formats as they reach the calls"""
    name = "formats"

    def __init__(self, sites):
        super().__init__()
        self.sites = sites
        self.texts = {}               # formats kept in strings
        self.visited = {}             # (function, instruction) -> kinds of formats seen

    def handlers(self):
        return {"primcall": self.call, "anycall": self.call, "enter": self.enter}

    def enter(self, ev):
        self.site(ev, ev.fn, ev.args, ev.frame.up)

    def call(self, ev):
        if ev.call.fn is not None: self.site(ev, ev.call.fn, ev.call.args, ev.call.frame)

    def site(self, ev, f, args, frame):
        k = self.sites.fmtpos(f)
        if k is None or frame is None or k >= len(args): return
        i = ev.ins
        where = frame.fn.where(i)
        s = models.cstr_content(self.E, ev.st, args[k])
        key = (frame.fn.name, i["i"])
        if s.k == "lit":
            self.visited.setdefault(key, set()).add("constant")
            self.ok("format and arguments", where)
            m = mismatch(s.a[0], (i.get("aty") or [])[k + 1:])
            if m: self.report(ev, "mismatch", m, where=where)
            if args[k].k == "cstr":
                t = self.texts.setdefault(key, set())
                t.add(s)
                if len(t) > 1 or models.TEXT.a[0] in s.a[0]: self.report(ev, "variable-format", "the format is a text put together at run time", where=where)
            return
        x = args[k]
        const = x.k == "g" or (x.k == "at" and x.a[0].k == "g")
        self.visited.setdefault(key, set()).add("constant" if const else "other")
        if const: return
        if x.k in ("undef", "uninit", "param"): return          # a parameter of the root: decided where it is called from
        if x.k == "sym" and x.a[0].startswith("W"): return
        self.report(ev, "variable-format", "the format is no constant: %s" % show(s), where=where)


class Lists(Rule):
    """a list of variable arguments is read once after each va_start / va_copy; buffers have the size that is given"""
    name = "formats"

    def __init__(self):
        super().__init__()
        self.n = 0

    def handlers(self):
        return {"anycall": self.call, "malloc": self.malloc}

    def malloc(self, ev):
        d = dict(ev.st.rs.get("sz", ()))
        d[ev.ptr] = ev.size
        ev.st.rs["sz"] = frozenset(d.items())

    def call(self, ev):
        c, st = ev.call, ev.st
        if c.fn is None: return
        b = c.nm.base
        used = st.rs.get("va", frozenset())
        if b.startswith("llvm.va_start"): st.rs["va"] = used - {c.args[0]}
        elif b.startswith("llvm.va_copy"):
            if c.args[1] in used: self.report(ev, "list-reused", "the list of arguments is copied after it has been read")
            st.rs["va"] = used - {c.args[0]}
        elif b.startswith("llvm.va_end"):
            if not (c.args[0].k == "param"): st.rs["va"] = used | {c.args[0]}
        elif b in VLIBC:
            a = c.args[VLIBC[b] + 1]
            self.n += 1
            self.ok("list of arguments read", ev.where())
            if a in used: self.report(ev, "list-reused", "the list of arguments is read again after it has been read: its position is indeterminate")
            st.rs["va"] = used | {a}
            self.size(ev, b)
        elif b in BUFSIZE: self.size(ev, b)

    def size(self, ev, b):
        if b not in BUFSIZE: return
        kb, ks, unit = BUFSIZE[b]
        st, args = ev.st, ev.call.args
        have = dict(st.rs.get("sz", ())).get(args[kb])
        if have is None: return
        self.ok("size of the text buffer", ev.where())
        d = lin(have) - lin(args[ks]).scale(unit)
        if d.const is None or d.const < 0:
            self.report(ev, "buffer-size", "the text is written into a buffer of %r bytes, but %r are announced" % (lin(have), lin(args[ks]).scale(unit)))
