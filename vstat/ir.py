"""Builds the LLVM IR of /repo's current sources (compiler front end only, nothing is executed),
dumps it with engine/irdump and offers it as a resolved program: functions, call sites, types."""
import hashlib, json, os, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSTAT_REPO", "/repo")
BUILD = os.environ.get("VSTAT_BUILD", os.path.join(VERIF, "build"))
FLAGS = ["-DUNICODE", "-D_UNICODE", "-DVEIGAR_STATIC", "-DNDEBUG", "-std=gnu++11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w",
         "-fno-discard-value-names", "-emit-llvm", "-c"]


class BrokenAnalysis(Exception):
    """The analysis lost its anchors (or the sources do not compile): no verdict."""


class TooLarge(BrokenAnalysis):
    """The code has too many abstract states: nothing is decided."""


class TimeUp(BaseException): pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise BrokenAnalysis("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-3000:]))
    return p.stdout


def _cfg(*a):
    return _run(["llvm-config-18"] + list(a)).decode().split()


def irdump_binary():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cxx = [f for f in _cfg("--cxxflags") if not f.startswith("-std=") and f != "-fno-exceptions"]
        tmp = out + ".%d" % os.getpid()
        _run(["g++", "-O1", "-std=c++17"] + cxx + [src, "-o", tmp] + _cfg("--ldflags", "--libs", "--link-shared"))
        os.replace(tmp, out)
    return out


def source_files():
    s = os.path.join(REPO, "src")
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith(".cpp"))


def tree_hash():
    h = hashlib.sha1()
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "engine")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:16]


def dump_json():
    key = tree_hash()
    out = os.path.join(BUILD, "ir-%s.json" % key)
    if os.path.exists(out):
        return out
    tool = irdump_binary()
    work = os.path.join(BUILD, "w-%s-%d" % (key, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        srcs = source_files() + [os.path.join(VERIF, "engine", "inst.cpp")]
        if len(srcs) < 3:
            raise BrokenAnalysis("no sources found under %s/src" % REPO)
        objs = []
        jobs = []
        for i, s in enumerate(srcs):
            o = os.path.join(work, "%02d_%s.bc" % (i, os.path.basename(s)))
            objs.append(o)
            jobs.append(["clang++-18"] + FLAGS + ["-I" + os.path.join(REPO, "include"), s, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, jobs))
        _run(["llvm-link"] + objs + ["-o", os.path.join(work, "all.bc")])
        data = _run([tool, os.path.join(work, "all.bc")])
        tmp = out + ".%d" % os.getpid()
        open(tmp, "wb").write(data)
        os.replace(tmp, out)
    finally:
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)
    return out


OPEN, CLOSE = "<([{", ">)]}"


def split_top(s, sep=","):
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("->", i):
            cur += "->"; i += 2; continue
        if c in OPEN: depth += 1
        elif c in CLOSE: depth -= 1
        if c == sep and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_tmpl(s):
    out, depth, i = [], 0, 0
    while i < len(s):
        c = s[i]
        m = re.match(r"operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)", s[i:])
        if m and depth == 0:
            out.append(m.group(0)); i += len(m.group(0)); continue
        if c == "<": depth += 1
        elif c == ">" and not s.startswith("->", i - 1): depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return "".join(out)


def tmpl_args(s):
    """template arguments of the last component of a qualified name"""
    s = s.strip()
    if not s.endswith(">"):
        return []
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ">": depth += 1
        elif s[i] == "<":
            depth -= 1
            if depth == 0:
                return split_top(s[i + 1:-1])
    return []


class Name:
    """parsed demangled name"""
    __slots__ = ("dem", "qual", "base", "cls", "clsfull", "meth", "params", "const", "ret", "ftmpl")

    def __init__(self, dem):
        self.dem = dem
        s = dem.replace("[abi:cxx11]", "")
        self.const = False
        self.params = None
        self.ret = ""
        # find parameter list: last top-level (...) group
        t = s
        while True:
            m = re.search(r"\s(const|volatile|&|&&)$|\s?\[clone [^\]]*\]$", t)
            if not m: break
            if "const" in m.group(0): self.const = True
            t = t[:m.start()]
        if t.endswith(" &&") or t.endswith(" &"):
            t = t.rsplit(" ", 1)[0]
        head = t
        if t.endswith(")"):
            depth = 0
            for i in range(len(t) - 1, -1, -1):
                if t[i] == ")": depth += 1
                elif t[i] == "(":
                    depth -= 1
                    if depth == 0:
                        if not t[:i].endswith("operator"):
                            head = t[:i]
                            self.params = split_top(t[i + 1:-1])
                        break
        # strip the return type: last depth-0 space before the qualified name
        depth, cut = 0, 0
        i = 0
        opm = None
        while i < len(head):
            c = head[i]
            if head.startswith("operator", i) and depth == 0 and (i == 0 or head[i - 1] in ": "):
                opm = i
                break
            if c in OPEN: depth += 1
            elif c in CLOSE and not head.startswith("->", i - 1): depth -= 1
            elif c == " " and depth == 0:
                cut = i + 1
            i += 1
        self.ret = head[:cut].strip()
        self.qual = head[cut:]
        q = strip_tmpl(self.qual)
        self.base = q
        # split scope::method on the last top-level '::'
        full = self.qual
        k = self._last_scope(full)
        self.clsfull = full[:k] if k >= 0 else ""
        last = full[k + 2:] if k >= 0 else full
        self.cls = strip_tmpl(self.clsfull)
        self.meth = strip_tmpl(last)
        self.ftmpl = last

    @staticmethod
    def _last_scope(s):
        depth = 0
        best = -1
        i = 0
        while i < len(s):
            if s.startswith("operator", i) and depth == 0 and (i == 0 or s[i - 1] == ":"):
                break
            c = s[i]
            if c in OPEN: depth += 1
            elif c in CLOSE and not s.startswith("->", i - 1): depth -= 1
            elif depth == 0 and s.startswith("::", i):
                best = i
                i += 1
            i += 1
        return best

    def cls_targs(self):
        return tmpl_args(self.clsfull)

    def fn_targs(self):
        return tmpl_args(self.ftmpl)


class Func:
    __slots__ = ("name", "d", "nm", "blocks", "decl", "nounwind", "noreturn", "args", "ret", "file", "line", "preds", "succ", "_live", "linkage",
                 "defs", "_allocalive", "simple", "argnames")

    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.nm = Name(d["dem"])
        self.decl = d["decl"]
        self.nounwind = d["nounwind"]
        self.noreturn = d["noreturn"]
        self.args = d["args"]
        self.ret = d["ret"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.linkage = d["linkage"]
        self.blocks = d.get("blocks", [])
        self.argnames = [a[0] for a in self.args]
        self._live = None
        self._allocalive = None
        self.defs = None

    def where(self, ins=None):
        f = self.file
        l = self.line
        if ins is not None:
            f = ins.get("file", f); l = ins.get("l", l)
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%s" % (f, l)

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i


class Program:
    def __init__(self):
        self.json_path = dump_json()
        d = json.load(open(self.json_path))
        self.structs = d["structs"]
        self.globals = d["globals"]
        self.funcs = {n: Func(n, f) for n, f in d["functions"].items()}
        self.bybase = {}
        for f in self.funcs.values():
            self.bybase.setdefault(f.nm.base, []).append(f)

    def own(self, f):
        """functions whose source is the repository's (library code, its templates and lambdas)"""
        if f.decl: return False
        b = f.nm.base
        return b.startswith(("veigar::", "vinst::")) and not b.startswith("veigar_msgpack")

    def find(self, base, defined=True):
        return [f for f in self.bybase.get(base, []) if not (defined and f.decl)]

    def one(self, base):
        fs = self.find(base)
        if len(fs) != 1:
            raise BrokenAnalysis("expected exactly one definition of %s, found %d" % (base, len(fs)))
        return fs[0]

    def struct_of(self, qname):
        for p in ("class.", "struct."):
            if p + qname in self.structs:
                return self.structs[p + qname]
        return None

    def globstr(self, g):
        return self.globals.get(g, {}).get("str")


if __name__ == "__main__":
    t = time.time()
    P = Program()
    print(len(P.funcs), time.time() - t)
    for f in P.funcs.values():
        if P.own(f):
            print(f.nm.base, "|", f.nm.cls, "|", f.nm.meth, "|", f.nm.params, "|", f.nm.ret)
