"""Mechanical extraction: clang JSON AST of the real /repo sources.

Nothing is rewritten: every run parses the working tree's files with the
build's own macro settings and hands the typed AST to the VC generator.
What the extraction drops: comments, `#pragma omp` (OpenMP is parsed with the
pragmas off, i.e. the parallel loops are given their sequential semantics) and
the bodies of system headers.
"""
import json
import os
import re
import subprocess

REPO = os.environ.get("DV_REPO", "/repo")
SRC = os.path.join(REPO, "xcsf")
BASE_FLAGS = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "include"), "-I/opt/vp/cmake/include", "-w", "-std=gnu11"]
PAR = ["-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE"]


class ExtractionError(Exception):
    pass


# ---------------------------------------------------------------- types
class CType:
    __slots__ = ("k", "name", "to", "n", "size")

    def __init__(self, k, name=None, to=None, n=None, size=None):
        self.k = k        # int double ptr struct arr fn void
        self.name = name
        self.to = to
        self.n = n
        self.size = size

    def __repr__(self):
        if self.k == "ptr":
            return repr(self.to) + "*"
        if self.k == "arr":
            return "%r[%s]" % (self.to, self.n)
        return "%s:%s" % (self.k, self.name) if self.name else self.k

    @property
    def is_scalar_num(self):
        return self.k in ("int", "double")


INTS = {
    "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1,
    "unsigned char": 1, "signed char": 1, "short": 2, "unsigned short": 2,
    "bool": 1, "_Bool": 1, "size_t": 8, "uint32_t": 4, "int32_t": 4,
    "uint64_t": 8, "int64_t": 8, "long long": 8, "unsigned long long": 8,
    "uint8_t": 1, "time_t": 8, "unsigned": 4, "cJSON_bool": 4, "__int128": 16,
    "ssize_t": 8, "wchar_t": 4, "uint16_t": 2,
}
UNSIGNED = {"unsigned int", "unsigned long", "unsigned char", "unsigned short",
            "bool", "_Bool", "size_t", "uint32_t", "uint64_t", "uint8_t",
            "unsigned long long", "unsigned", "uint16_t"}


def parse_type(q, typedefs=None):
    q = re.sub(r"\b(const|volatile|restrict|__restrict|register|static)\b", " ", q)
    q = re.sub(r"\s+", " ", q).strip()
    if "(*)" in q or "(*" in q:
        m = re.search(r"\(\*\s*\)\s*\[", q)
        if m:  # pointer to array
            inner = q.replace("(*)", "")
            return CType("ptr", to=parse_type(inner, typedefs))
        m = re.search(r"\(\*\s*\[(\d+)\]\)", q)
        if m:
            return CType("arr", to=CType("ptr", to=CType("fn")), n=int(m.group(1)))
        return CType("ptr", to=CType("fn", name=q))
    if q.endswith(")"):
        return CType("fn", name=q)
    m = re.match(r"^(.*?)((?:\[[^\]]*\])+)$", q)
    if m:
        dims = re.findall(r"\[([^\]]*)\]", m.group(2))
        t = parse_type(m.group(1), typedefs)
        for d in reversed(dims):
            t = CType("arr", to=t, n=int(d) if d.strip().isdigit() else None)
        return t
    if q.endswith("*"):
        return CType("ptr", to=parse_type(q[:-1], typedefs))
    if q == "void":
        return CType("void")
    if q in ("double", "float", "long double"):
        return CType("double", name=q, size=4 if q == "float" else 8)
    if q in INTS:
        return CType("int", name=q, size=INTS[q])
    if q.startswith("struct "):
        return CType("struct", name=q[7:].strip())
    if q.startswith("union "):
        return CType("struct", name=q[6:].strip())
    if q.startswith("enum "):
        return CType("int", name="int", size=4)
    if q == "cJSON":
        return CType("struct", name="cJSON")
    if q in ("FILE",):
        return CType("struct", name="_IO_FILE")
    if typedefs and q in typedefs and typedefs[q] != q:
        return parse_type(typedefs[q], typedefs)
    return CType("struct", name=q)


class Unit:
    """One translation unit."""

    def __init__(self, path, funcs, structs, gvars, typedefs):
        self.path = path
        self.funcs = funcs      # name -> node (definitions)
        self.structs = structs  # tag -> [(field, CType)]
        self.gvars = gvars      # id -> node ; and name -> node
        self.typedefs = typedefs


def _fill_lines(n, cur):
    # clang elides repeated line numbers; propagate in document order
    stack = [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, dict):
            continue
        for key in ("loc",):
            l = x.get(key)
            if isinstance(l, dict):
                if "expansionLoc" in l:
                    l = l["expansionLoc"]
                if "line" in l:
                    cur[0] = l["line"]
                if "file" in l:
                    cur[1] = l["file"]
        r = x.get("range")
        if isinstance(r, dict):
            b = r.get("begin", {})
            if "expansionLoc" in b:
                b = b["expansionLoc"]
            if "line" in b:
                cur[0] = b["line"]
            if "file" in b:
                cur[1] = b["file"]
            x["_line"] = cur[0]
            x["_file"] = cur[1]
            e = r.get("end", {})
            if "expansionLoc" in e:
                e = e["expansionLoc"]
        inner = x.get("inner")
        if inner:
            stack.extend(reversed(inner))


_cache = {}


def load(fname, flags=None):
    flags = PAR if flags is None else flags
    key = (fname, tuple(flags))
    if key in _cache:
        return _cache[key]
    path = os.path.join(SRC, fname)
    if not os.path.exists(path):
        raise ExtractionError("source file missing: " + path)
    cmd = ["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only"] + BASE_FLAGS + list(flags) + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=SRC)
    if p.returncode != 0:
        raise ExtractionError("clang failed on %s: %s" % (fname, p.stderr.decode()[-800:]))
    tu = json.loads(p.stdout)
    funcs, structs, gvars, typedefs = {}, {}, {}, {}
    cur = [0, ""]
    raw_structs = {}
    for d in tu["inner"]:
        k = d.get("kind")
        if k == "TypedefDecl":
            t = d["type"]
            q = t.get("desugaredQualType", t["qualType"])
            typedefs[d["name"]] = q
        # track positions without descending into system decls
        if k == "FunctionDecl":
            hasbody = any(c.get("kind") == "CompoundStmt" for c in d.get("inner", []))
            _fill_lines(d, cur)
            if hasbody and "/usr/" not in (d.get("_file") or ""):
                funcs[d["name"]] = d
        elif k == "RecordDecl" and d.get("completeDefinition") and d.get("name"):
            _fill_lines(d, cur)
            raw_structs[d["name"]] = d
        elif k == "VarDecl":
            _fill_lines(d, cur)
            # a tentative/extern declaration must not hide the definition
            if d["name"] not in gvars or any(True for _ in d.get("inner", [])):
                gvars[d["name"]] = d
            gvars[d["id"]] = d
        else:
            _fill_lines(d, cur)
    for tag, d in raw_structs.items():
        fl = []
        for f in d.get("inner", []):
            if f.get("kind") == "FieldDecl":
                t = f["type"]
                fl.append((f.get("name", ""), parse_type(t.get("desugaredQualType", t["qualType"]), typedefs)))
        structs[tag] = fl
    u = Unit(path, funcs, structs, gvars, typedefs)
    _cache[key] = u
    return u


class Program:
    """Union of several translation units; static functions are looked up in
    the requesting unit first."""

    def __init__(self, files, flags=None):
        self.units = [load(f, flags) for f in files]
        self.files = list(files)
        self.structs = {}
        self.funcs = {}
        self.where = {}
        for f, u in zip(files, self.units):
            self.structs.update(u.structs)
            for n, d in u.funcs.items():
                if n not in self.funcs or d.get("_file", "").endswith(".c") or "storageClass" not in d:
                    self.funcs.setdefault(n, d)
                    self.where.setdefault(n, u)
        self.gvars = {}
        for u in self.units:
            for k, v in u.gvars.items():
                old = self.gvars.get(k)
                if old is None or (not old.get("inner") and v.get("inner")):
                    self.gvars[k] = v
        self.typedefs = {}
        for u in self.units:
            self.typedefs.update(u.typedefs)

    def func(self, name, unit=None):
        if unit is not None and name in unit.funcs:
            return unit.funcs[name], unit
        if name in self.funcs:
            return self.funcs[name], self.where[name]
        return None, None

    def sizeof(self, t):
        if t.k in ("int", "double"):
            return t.size
        if t.k == "ptr":
            return 8
        if t.k == "arr":
            if t.n is None:
                return None
            s = self.sizeof(t.to)
            return None if s is None else s * t.n
        if t.k == "struct":
            off = 0
            al = 1
            fl = self.structs.get(t.name)
            if fl is None:
                return None
            for _, ft in fl:
                s = self.sizeof(ft)
                a = self.alignof(ft)
                if s is None:
                    return None
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al
        return None

    def alignof(self, t):
        if t.k == "arr":
            return self.alignof(t.to)
        if t.k == "struct":
            return max([1] + [self.alignof(ft) for _, ft in self.structs.get(t.name, [])])
        return self.sizeof(t) or 1


def node_type(n, typedefs=None):
    t = n["type"]
    return parse_type(t.get("desugaredQualType", t["qualType"]), typedefs)


def all_c_files():
    return sorted(f for f in os.listdir(SRC) if f.endswith(".c"))
