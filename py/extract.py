"""Mechanical extraction: real Rust source + contract file (.vspec) -> one Verus file.

The executable text of every function under contract is the text found in /repo's working tree on
this run; contracts (requires/ensures, loop invariants, ghost statements) are spliced in at
positions computed from the syntax tree (rsx).  All rewrites applied are the ones listed in
REWRITES; every application is counted and reported in the evidence.
"""
import copy, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

REWRITES = {
    "attr": "attributes and doc attributes on extracted items are dropped",
    "for-slice": "`for p in &xs` / `xs.iter()` -> index loop over the same slice (`for i in 0..xs.len() { let p = &xs[i]; .. }`)",
    "for-zip": "`for (p, q) in xs.iter().zip(ys.iter())` -> index loop over both slices up to the shorter length (its definition)",
    "for-map": "`for p in map` -> index loop over the entry list of the map (shim `entries`)",
    "for-iter": "`for p in &mut it` -> `while let Some(p) = it.next()` (its definition)",
    "while-let": "`while let P = E {B}` -> `loop { match E { P => {B} _ => break } }` (its definition)",
    "while-let-chain": "`while` condition kept",
    "fmt-drop": "`format!(..)` -> an arbitrary String (text and argument evaluation dropped: message text only)",
    "fmt-keep": "`format!(..)` -> its arguments are still evaluated, the rendered text becomes an arbitrary String",
    "print": "`println!/eprintln!` -> no-op shim (arguments dropped)",
    "vec": "`vec![]` -> `Vec::new()`",
    "map_or_else": "`o.map_or_else(|| A, |p| B)` -> `match o { None => A, Some(p) => B }` (its definition)",
    "map_or": "`o.map_or(A, |p| B)` -> `match o { None => A, Some(p) => B }` (A evaluated eagerly; A is a value)",
    "opt-map": "`o.map(|p| B)` on an Option -> `match o { None => None, Some(p) => Some(B) }` (its definition)",
    "and_then": "`r.and_then(|p| B)` -> `match r { Ok(p) => B, Err(e) => Err(e) }` (Option: its definition likewise)",
    "for-values-mut": "`for p in m.values_mut()` -> a loop over the keys of the map with `let p = &mut m[key]`",
    "map_err": "`r.map_err(|p| B)` -> `match r { Ok(v) => Ok(v), Err(p) => Err(B) }` (its definition)",
    "slice": "`&s[a..b]` on str/slices -> shim `slice(s, a, b)` whose precondition is that the real expression does not panic",
    "subst": "textual substitutions listed in the contract file (path/operation -> contract-bearing shim)",
    "macro": "macro_rules! calls expanded at the call site from the macro text in the source",
    "truncate": "`E as u8` -> `#[verifier::truncate] (E as u8)`: the cast means the low bits",
    "write": "`write!/writeln!` -> shim `put(buffer, text)` with the text the format string and its arguments denote",
    "any": "`xs.iter().any(|p| B)` -> loop over the same slice which computes the disjunction (B has no effects)",
    "chain": "iterator chains `source.map(|p| B)..collect()` (map, filter, filter_map, flat_map) -> the loop they denote; sources other than slices are materialised first by a shim",
    "cat": "`a + &b` on strings -> shim `cat(a, &b)`",
    "outline": "a loop -> a function of the module with the loop as its body (the variables it uses are passed as references, an error it returns is returned by the caller)",
    "hoist": "functions declared inside a function body -> functions of the module (their text is not changed)",
    "inherent": "methods of trait implementations are verified as inherent methods of the type",
    "format": "`format!` -> the text the format string and its arguments denote",
    "method": "calls of std methods -> calls of the shim with the assumed contract (table `methods` of the contract file)",
    "starts_with": "`s.starts_with(|p| B)` -> B of the first character, false without one (its definition)",
    "vis": "extracted types, their fields and constants are made `pub` (contracts mention them)",
    "raw-ident": "raw identifiers `r#x` renamed `x_` (the verifier mishandles raw identifiers)",
    "panic": "`panic!(..)` -> call with precondition `false` (must be unreachable)",
}


def rust_str(tok):
    """The value of a string literal, or None."""
    tok = tok.strip()
    m = re.fullmatch(r'r(#*)"(.*)"\1', tok, re.S)
    if m:
        return m.group(2)
    if not (tok.startswith('"') and tok.endswith('"')):
        return None
    t = tok[1:-1]
    out = ""
    i = 0
    while i < len(t):
        if t[i] == "\\":
            c = t[i + 1]
            if c == "\n":
                i += 2
                while i < len(t) and t[i] in " \t\n\r":
                    i += 1
                continue
            if c == "u":
                j = t.index("}", i)
                out += chr(int(t[i + 3:j].replace("_", ""), 16))
                i = j + 1
                continue
            if c == "x":
                out += chr(int(t[i + 2:i + 4], 16))
                i += 4
                continue
            out += {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}[c]
            i += 2
        else:
            out += t[i]
            i += 1
    return out


def rust_lit(s):
    out = '"'
    for c in s:
        if c in '\\"':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32 or ord(c) > 126:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


class Lost(Exception):
    """An anchor of the contract file cannot be found in the current source (undecided, not a violation)."""


def rsx_bin():
    p = os.path.join(VERIF, "build", "rsx", "release", "rsx")
    if not os.path.exists(p):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, "build", "rsx"), CARGO_NET_OFFLINE="true")
        subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(VERIF, "rsx"), env=env, check=True)
    return p


def blank_comments(data):
    """Comments become blanks (same length), so that positions stay valid."""
    tok = re.compile(rb"""//[^\n]*|/\*.*?\*/|\b[bc]?r(\#*)".*?"\1|"(?:\\.|[^"\\])*"|'(?:\\(?:u\{[^}]*\}|x..|.)|[^\\'\n]{1,4})'""", re.S)
    def f(m):
        t = m.group(0)
        if t.startswith(b"//") or t.startswith(b"/*"):
            return re.sub(rb"[^\n]", b" ", t)
        return t
    return tok.sub(f, data)


class Source:
    def __init__(self, path, data=None):
        self.path = path
        self.data = open(path, "rb").read() if data is None else data
        if data is not None:
            tmp = os.path.join(VERIF, "build", "tmp-%d-%d.rs" % (os.getpid(), threading.get_ident()))
            os.makedirs(os.path.dirname(tmp), exist_ok=True)
            open(tmp, "wb").write(data)
            path = tmp
        out = subprocess.run([rsx_bin(), path], stdout=subprocess.PIPE, check=True).stdout
        if data is not None:
            os.unlink(path)
        j = json.loads(out)
        if not j["ok"]:
            raise Lost("cannot parse %s: %s" % (self.path, j["error"]))
        self.nodes = j["nodes"]
        self.data = blank_comments(self.data)
        self.children = {}
        for n in self.nodes:
            self.children.setdefault(n["p"], []).append(n)

    def text(self, r):
        return self.data[r[0]:r[1]].decode()

    def descend(self, n):
        for c in self.children.get(n["id"], []):
            yield c
            yield from self.descend(c)

    def items(self, parent=None):
        for n in self.children.get(parent, []):
            yield n

    def is_test(self, n):
        return any("cfg" in a["t"] and "test" in a["t"] for a in n.get("attrs", []))

    def functions(self):
        """name -> node, for free functions and methods (Type::name), tests excluded."""
        out = {}
        def walk(parent, prefix):
            for n in self.children.get(parent, []):
                if n["k"] == "Fn":
                    if not self.is_test(n):
                        out[prefix + n["name"]] = n
                elif n["k"] == "Impl":
                    for m in self.children.get(n["id"], []):
                        if m["k"] == "Method":
                            nm = n["name"].replace(" ", "")
                            out[prefix + nm + "::" + m["name"]] = m
                            m["impl"] = n
                elif n["k"] == "Mod" and not self.is_test(n):
                    walk(n["id"], prefix + n["name"] + "::")
        walk(None, "")
        return out


def parse_vspec(path):
    """-> list of (header words, body text)"""
    secs = []
    cur = None
    for line in open(path):
        if line.startswith("@@"):
            cur = [line[2:].strip(), []]
            secs.append(cur)
        elif line.startswith("@#"):
            continue
        elif cur is not None:
            cur[1].append(line)
    return [(h, "".join(b)) for h, b in secs]


class FnSpec:
    def __init__(self):
        self.contract = ""
        self.ret = None
        self.entry = ""
        self.exit = ""
        self.loops = {}
        self.after = []
        self.before = []
        self.external = False
        self.attrs = ""
        self.sig_subst = []
        self.subst = []


class LoopSpec:
    def __init__(self):
        self.inv = ""
        self.kind = None
        self.start = ""
        self.end = ""
        self.post = ""
        self.pre = ""
        self.outline = None
        self.attr = ""
        self.type = ""


class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-6]
        self.fns = {}           # "module::fn" -> FnSpec
        self.out = []           # ordered pieces: ("raw", text) | ("take", module, source, [names])
        self.fmt = "drop"
        self.options = set()
        self.substs = []        # (module or None, python regex, replacement)
        self.expected = {}      # module -> list of known function names (for new-helper detection)
        self.sources = {}
        self.known = {}
        self.consts = {}
        self.methods = {}       # method calls rendered as calls of shims
        self.binops = []
        self.truncate = set()
        self.defaultloop = {}   # module -> invariant for loops without one
        self.auto = {}          # module -> list of (parameter regex or None, requires, ensures)
        for h, body in self.load(path):
            w = h.split()
            if w[0] == "include":
                pass
            elif w[0] == "raw":
                self.out.append(("raw", body))
            elif w[0] == "fmt":
                self.fmt = w[1]
            elif w[0] == "option":
                self.options |= set(w[1:])
            elif w[0] == "module":      # module NAME FILE   (body: use lines)
                self.out.append(("module", w[1], w[2], body))
            elif w[0] == "endmodule":
                self.out.append(("endmodule",))
            elif w[0] == "take":        # take NAME NAME ... (types, consts, fns) inside the current module
                self.out.append(("take", w[1:]))
            elif w[0] == "takefns":     # all functions not yet taken of the current module
                self.out.append(("takefns", w[1:], body))
            elif w[0] == "subst":
                for l in body.splitlines():
                    if l.strip():
                        a, b = l.split(" ==> ")
                        self.substs.append((w[1] if len(w) > 1 else None, a.strip(), b.strip("\n")))
            elif w[0] == "methods":     # NAME/ARGS ==> TEMPLATE with $R and $1..
                for l in body.splitlines():
                    if l.strip():
                        a, b = l.split(" ==> ")
                        nm, k = a.strip().split("/")
                        self.methods[(nm, int(k))] = b.strip()
            elif w[0] == "binops":      # OP RIGHT-REGEX ==> TEMPLATE with $L and $R
                for l in body.splitlines():
                    if l.strip():
                        a, b = l.split(" ==> ")
                        op, rx = a.strip().split(" ", 1)
                        self.binops.append((op, rx.strip(), b.strip()))
            elif w[0] == "truncate":     # casts to these types drop bits on purpose
                self.truncate |= set(w[1:])
            elif w[0] == "defaultloop":
                self.defaultloop[w[1]] = body
            elif w[0] == "auto":     # auto MODULE requires|ensures|decreases PARAMETER-REGEX
                self.auto.setdefault(w[1], []).append((w[2], " ".join(w[3:]), body))
            elif w[0] == "const":
                self.consts[w[1]] = (body, "")
            elif w[0] == "constattr":
                self.consts[w[1]] = self.consts[w[1]][:2] + (body,)
            elif w[0] == "constproof":
                self.consts[w[1]] = (self.consts[w[1]][0], body)
            elif w[0] == "fn":
                f = self.fns.setdefault(w[1], FnSpec())
                rest = w[2:]
                if not rest:
                    f.contract = body
                elif rest[0] == "ret":
                    f.ret = rest[1]
                    f.contract = body
                elif rest[0] == "external":
                    f.external = True
                    f.contract = body
                    if len(rest) > 1: f.ret = rest[1]
                elif rest[0] == "attr":
                    f.attrs = body
                elif rest[0] == "entry":
                    f.entry = body
                elif rest[0] == "exit":
                    f.exit = body
                elif rest[0] == "after":
                    f.after.append((" ".join(rest[1:]), body))
                elif rest[0] == "before":
                    f.before.append((" ".join(rest[1:]), body))
                elif rest[0] == "sig":
                    f.sig_subst += [tuple(x.split(" ==> ")) for x in body.splitlines() if x.strip()]
                elif rest[0] == "subst":
                    f.subst += [tuple(x.split(" ==> ")) for x in body.splitlines() if x.strip()]
                elif rest[0] == "loop":
                    l = f.loops.setdefault(rest[1], LoopSpec())
                    what = rest[2]
                    if what == "inv": l.inv = body
                    elif what == "kind": l.kind = rest[3]
                    elif what == "start": l.start = body
                    elif what == "attr": l.attr = body
                    elif what == "end": l.end = body
                    elif what == "post": l.post = body
                    elif what == "pre": l.pre = body
                    elif what == "type": l.type = ": " + body.strip()
                    elif what == "outline": l.outline = (" ".join(rest[3:]), body)
                    else: raise ValueError(h)
                else:
                    raise ValueError(h)
            else:
                raise ValueError("bad section " + h)

    def load(self, path):
        out = []
        for h, b in parse_vspec(path):
            if h.split()[0] == "include":
                ws = h.split()
                sub = self.load(os.path.join(os.path.dirname(path), ws[1]))
                for w in ws[2:]:
                    k, v = w.split("=")
                    sub = [(re.sub(r"\b%s\b" % k, v, a), re.sub(r"\b%s\b" % k, v, c)) for a, c in sub]
                out += sub
            else:
                out.append((h, b))
        return out


class Extractor:
    def __init__(self, unit, repo=None, overrides=None):
        self.u = unit
        self.repo = repo or REPO
        self.overrides = overrides or {}
        self.counts = {}
        self.dropped = []
        self.contracted = []
        self.uncontracted = []
        self.external = []
        self.missing = []
        self.used_after = set()
        self.inner, self.renames, self.hoisted = [], [], []
        self.vacuity = None      # name of the function/loop in which assert(false) is planted
        self.points = []         # vacuity points
        self.lines = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def plant(self, pt):
        """Vacuity twin: an assertion which has to fail (its precondition would be contradictory)."""
        if self.vacuity == "all" or (self.vacuity and pt in self.vacuity):
            return "\n/*@@vac %s*/ assert(false);\n" % pt
        return ""

    def source(self, f):
        if f not in self.u.sources:
            p = os.path.join(self.repo, f)
            if f.startswith("gen:") and f not in self.overrides:
                import gencode
                data, log = gencode.text(f[4:])
                if data is None:
                    raise Lost("no code was generated for %s: %s" % (f, log[-300:]))
                self.u.sources[f] = Source(f, data)
            elif f in self.overrides:
                self.u.sources[f] = Source(f, self.overrides[f])
            else:
                if not os.path.exists(p):
                    raise Lost("source file %s is missing" % f)
                self.u.sources[f] = Source(p)
        return self.u.sources[f]

    # -- rendering ---------------------------------------------------------------------------
    def render(self, src, node_list, a, b):
        """text of [a,b) with rule output substituted for the top-most nodes that have a rule"""
        out = []
        pos = a
        for n in node_list:
            s, e = n["r"]
            if s < pos or e > b:
                continue
            t = self.rule(src, n)
            if t is not None:
                out.append(src.data[pos:s].decode())
                out.append(t)
                pos = e
        out.append(src.data[pos:b].decode())
        return "".join(out)

    def rspan(self, src, n, r):
        """render a sub-span of node n"""
        return self.render(src, self.subnodes(src, n), r[0], r[1])

    def subnodes(self, src, n):
        if "_sub" not in n:
            n["_sub"] = list(src.descend(n))
        return n["_sub"]

    def rule(self, src, n):
        k = n["k"]
        fs = self.cur
        R = lambda r: self.rspan(src, n, r)
        for pat, rep in self.node_rules.get(k, []):
            t = pat(self, src, n, R)
            if t is not None:
                return t
        if k == "Fn":
            return self.hoist(src, n)
        if k == "Path" and self.renames:
            for a, b, old, new in self.renames:
                if n["path"] == old and a <= n["r"][0] and n["r"][1] <= b:
                    return new
        if k == "MacroCall":
            return self.macro_rule(src, n, R)
        if k == "For":
            return self.for_rule(src, n, R)
        if k in ("While", "Loop"):
            return self.loop_rule(src, n, R)
        if k == "MethodCall":
            m = n["method"]
            tmpl = self.u.methods.get((m, len(n["args"])))
            if tmpl and not any(self.closure(src, n, a) for a in n["args"]):
                self.count("method")
                t = tmpl.replace("$R", R(n["recv"]))
                for i, a in enumerate(n["args"]):
                    t = t.replace("$%d" % (i + 1), R(a))
                return t
            if m == "starts_with" and len(n["args"]) == 1:
                c0 = self.closure(src, n, n["args"][0])
                if c0 and len(c0["inputs"]) == 1:
                    self.count("starts_with")
                    return "(match crate::textfn::first(&%s) { None => false, Some(c__) => { let %s = c__; %s } })" % (
                        R(n["recv"]), src.text(c0["inputs"][0]), R(c0["body"]))
            if m == "map_or_else" and len(n["args"]) == 2:
                c0, c1 = self.closure(src, n, n["args"][0]), self.closure(src, n, n["args"][1])
                if c0 and c1 and len(c1["inputs"]) == 1:
                    self.count("map_or_else")
                    return "(match %s { None => %s, Some(%s) => %s })" % (
                        R(n["recv"]), R(c0["body"]), src.text(c1["inputs"][0]), R(c1["body"]))
            if m == "all" and len(n["args"]) == 1 and src.text(n["recv"]).rstrip().endswith(".chars()"):
                c1 = self.closure(src, n, n["args"][0])
                if c1 and len(c1["inputs"]) == 1:
                    self.count("any")
                    e = re.sub(r"\.\s*chars\(\)\s*$", "", R(n["recv"]).rstrip()).rstrip()
                    L = fs.loops.get("any%d" % self.any_counter) or LoopSpec()
                    self.any_counter += 1
                    return ("{ let mut all__ = true; let itA__ = crate::shim::chars(&%s); for iA__ in 0..itA__.len()\n%s\n{ let %s = itA__[iA__]; "
                            "if !(%s) { all__ = false; } %s } %s all__ }" % (e, L.inv, src.text(c1["inputs"][0]), R(c1["body"]), L.end, L.post))
            if m == "fold" and len(n["args"]) == 2:
                t = self.chain_rule(src, n, R)
                if t is not None:
                    return t
            if m == "any" and len(n["args"]) == 1 and src.text(n["recv"]).rstrip().endswith(".iter()"):
                c1 = self.closure(src, n, n["args"][0])
                if c1 and len(c1["inputs"]) == 1:
                    self.count("any")
                    e = re.sub(r"\.\s*iter\(\)\s*$", "", R(n["recv"]).rstrip()).rstrip()
                    L = fs.loops.get("any%d" % self.any_counter) or LoopSpec()
                    self.any_counter += 1
                    return ("{ let mut any__ = false; let itA__ = &%s; for iA__ in 0..itA__.len()\n%s\n{ let %s = &itA__[iA__]; "
                            "if %s { any__ = true; } %s } any__ }" % (e, L.inv, src.text(c1["inputs"][0]), R(c1["body"]), L.end))
            if m in ("collect",) and not n["args"]:
                t = self.chain_rule(src, n, R)
                if t is not None:
                    return t
            if m == "map_or" and len(n["args"]) == 2:
                c1 = self.closure(src, n, n["args"][1])
                if c1:
                    self.count("map_or")
                    return "(match %s { None => %s, Some(%s) => %s })" % (
                        R(n["recv"]), R(n["args"][0]), src.text(c1["inputs"][0]), R(c1["body"]))
            if m == "map" and len(n["args"]) == 1:
                c1 = self.closure(src, n, n["args"][0])
                if c1 and re.search(r"\.\s*(get|last|first|peek|next|as_ref|ok)\(([^()]|\([^()]*\))*\)$", src.text(n["recv"]).rstrip()) or c1 and "owned" in self.u.options and re.fullmatch(r"\w+\.(r#)?\w+", src.text(n["recv"]).strip()):
                    self.count("opt-map")
                    return "(match %s { None => None, Some(%s) => Some(%s) })" % (
                        R(n["recv"]), src.text(c1["inputs"][0]), R(c1["body"]))
            if m == "and_then" and len(n["args"]) == 1:
                c1 = self.closure(src, n, n["args"][0])
                mm = re.search(r"\.\s*(\w+)\(([^()]|\([^()]*\))*\)$", src.text(n["recv"]).rstrip())
                if c1 and mm and mm.group(1) in ("canonicalize", "metadata", "strip_prefix", "ok_or", "ok_or_else"):
                    self.count("and_then")
                    return "(match %s { Ok(%s) => %s, Err(e__) => Err(e__) })" % (R(n["recv"]), src.text(c1["inputs"][0]), R(c1["body"]))
                if c1 and mm and mm.group(1) in ("get", "last", "first", "peek", "next", "parent", "file_name", "ok"):
                    self.count("and_then")
                    return "(match %s { Some(%s) => %s, None => None })" % (R(n["recv"]), src.text(c1["inputs"][0]), R(c1["body"]))
            if m == "map_err" and len(n["args"]) == 1:
                c1 = self.closure(src, n, n["args"][0])
                if c1:
                    self.count("map_err")
                    return "(match %s { Ok(v__) => Ok(v__), Err(%s) => Err(%s) })" % (
                        R(n["recv"]), src.text(c1["inputs"][0]), R(c1["body"]))
        if k == "Reference" and not n["mut"]:
            inner = self.at(src, n, n["expr"], "Index")
            if inner:
                rg = self.at(src, inner, inner["index"], "Range")
                if rg and not rg["closed"]:
                    self.count("slice")
                    base = R(inner["expr"])
                    if rg["start"] and rg["end"]:
                        return "crate::shim::slice(&%s, %s, %s)" % (base, R(rg["start"]), R(rg["end"]))
                    if rg["end"]:
                        return "crate::shim::slice(&%s, 0, %s)" % (base, R(rg["end"]))
                    if rg["start"]:
                        return "crate::shim::slice_from(&%s, %s)" % (base, R(rg["start"]))
        if k == "Index":
            rg = self.at(src, n, n["index"], "Range")
            if rg and not rg["closed"]:
                self.count("slice")
                base = R(n["expr"])
                if rg["start"] and rg["end"]:
                    return "crate::shim::slice(&%s, %s, %s)" % (base, R(rg["start"]), R(rg["end"]))
                if rg["end"]:
                    return "crate::shim::slice(&%s, 0, %s)" % (base, R(rg["end"]))
                if rg["start"]:
                    return "crate::shim::slice_from(&%s, %s)" % (base, R(rg["start"]))
        if k == "Cast" and n["ty"] in self.u.truncate:
            self.count("truncate")
            return "(#[verifier::truncate] (%s as %s))" % (self.rspan(src, n, n["expr"]), n["ty"])
        if k == "Binary":
            for op, rx, t in self.u.binops:
                if n["op"] == op and re.fullmatch(rx, src.text(n["right"]).strip(), re.S):
                    self.count("method")
                    return t.replace("$L", R(n["left"])).replace("$R", R(n["right"]))
        if k == "Binary" and n["op"] == "+" and self.at(src, n, n["right"], "Reference"):
            self.count("cat")
            return "crate::shim::cat(%s, %s)" % (R(n["left"]), R(n["right"]))
        if k == "Stmt":
            return self.stmt_rule(src, n)
        return None

    # -- iterator chains -----------------------------------------------------------------------
    def chain_rule(self, src, n, R):
        """`source.stage(closure)...collect()` -> the loop it denotes."""
        sink = re.sub(r"\s", "", n.get("turbofish") or "")
        stages = []
        cur = self.at(src, n, n["recv"], "MethodCall")
        while cur is not None and cur["method"] in ("map", "filter_map", "flat_map", "filter"):
            c = self.closure(src, cur, cur["args"][0])
            if not c or len(c["inputs"]) != 1:
                return None
            stages.insert(0, (cur["method"], src.text(c["inputs"][0]), c))
            last = cur
            cur = self.at(src, cur, cur["recv"], "MethodCall")
        fold = None
        if n["method"] == "fold":
            fold = self.closure(src, n, n["args"][1])
            if not fold or len(fold["inputs"]) != 2:
                return None
            if not stages:
                last = n
        if not stages and not fold:
            return None
        enum = False
        if cur is not None and cur["method"] == "enumerate":
            enum = True
            last = cur
            cur = self.at(src, cur, cur["recv"], "MethodCall")
        k = self.chain_counter
        self.chain_counter += 1
        self.count("chain")
        out = "out%d__" % k
        kind = "String" if sink == "::<String>" else "Vec"
        if kind == "Vec" and not (sink == "" or sink.startswith("::<Vec<")):
            return None
        sub = [0]
        def loop(node, rng, body):
            """loop over a source expression"""
            key = "chain%d" % k + (".%d" % sub[0] if sub[0] else "")
            var = "C%d_%d" % (k, sub[0])
            sub[0] += 1
            L = self.cur.loops.get(key) or LoopSpec()
            self.used_chains.add(key)
            pt = "%s#%s" % (self.curname, key)
            self.points.append(pt)
            v = self.plant(pt)
            f = lambda t: t.replace("$IT", "it" + var).replace("$I", "i" + var).replace("$OUT", out)
            m = node["method"] if node is not None else None
            if m == "iter":
                return "let it%s = &%s; %s for i%s in 0..it%s.len()\n%s\n{%s%s let v__ = %s&it%s[i%s]%s; %s %s}" % (
                    var, R(node["recv"]), f(L.pre + L.attr), var, var, f(L.inv), v, f(L.start), "(i%s, " % var if enum else "", var, var, ")" if enum else "", body("v__"), f(L.end)) + f(L.post)
            if m == "into_iter" and "owned" in self.u.options and not enum:
                # the elements are taken out of the vector one after another, from its front
                f = lambda t: t.replace("$IT", "all" + var).replace("$REST", "it" + var + "@").replace("$I", "(all%s.len() - it%s@.len())" % (var, var)).replace("$OUT", out)
                return "let mut it%s = %s; let ghost all%s = it%s@; %s while it%s.len() > 0\n%s\n{%s%s let v__ = it%s.remove(0); %s %s}" % (
                    var, R(node["recv"]), var, var, f(L.pre + L.attr), var, f(L.inv), v, f(L.start), var, body("v__"), f(L.end)) + f(L.post)
            if m in ("split", "chars", "into_iter", "values", "keys"):
                call = "crate::shim::%s(%s)" % ({"into_iter": "owned"}.get(m, m), ", ".join(
                    [("&" if m in ("split", "chars") else "") + R(node["recv"])] + [R(a) for a in node["args"]]))
                return "let it%s = %s; %s for i%s in 0..it%s.len()\n%s\n{%s%s let v__ = %sit%s[i%s]%s; %s %s}" % (
                    var, call, f(L.pre + L.attr), var, var, f(L.inv), v, f(L.start), "(i%s, " % var if enum else "", var, var, ")" if enum else "", body("v__"), f(L.end)) + f(L.post)
            return "let mut it%s = %s; %s loop\n%s\n{%s%s match it%s.next() { Some(v__) => { %s %s } None => { break; } } }" % (
                var, R(rng), f(L.pre + L.attr), f(L.inv), v, f(L.start), var, body("v__"), f(L.end)) + f(L.post)
        def run(i):
            def body(v):
                if i == len(stages):
                    if fold:
                        acc, p = src.text(fold["inputs"][0]), src.text(fold["inputs"][1])
                        return "%s = { let %s = %s; let %s = %s; %s };" % (out, acc, out, p, v, R(fold["body"]))
                    return ("crate::shim::push_to_%s(&mut %s, %s);" if kind == "String" or "push" not in self.u.options else "%.0s%s.push(%s);") % (kind.lower(), out, v)
                m, p, c = stages[i]
                B = R(c["body"])
                if m == "map":
                    return "let v__ = { let %s = %s; %s }; %s" % (p, v, B, run(i + 1)("v__"))
                if m == "filter_map":
                    return "match { let %s = %s; %s } { Some(v__) => { %s } None => { } }" % (p, v, B, run(i + 1)("v__"))
                if m == "filter":
                    return "if { let %s = &%s; %s } { %s }" % (p, v, B, run(i + 1)(v))
                inner = self.at(src, c, c["body"], "MethodCall")
                return "let %s = %s; %s" % (p, v, loop(inner, c["body"], run(i + 1)))
            return body
        rng = last["recv"]
        if fold:
            return "{ let mut %s = %s; %s %s }" % (out, R(n["args"][0]), loop(cur, rng, run(0)), out)
        L0 = self.cur.loops.get("chain%d" % k)
        return "{ let mut %s%s = %s::new(); %s %s }" % (out, L0.type if L0 else "", kind, loop(cur, rng, run(0)), out)

    node_rules = {}

    def at(self, src, n, r, kind):
        for c in self.subnodes(src, n):
            if c["r"] == r and c["k"] == kind:
                return c
        return None

    def closure(self, src, n, r):
        return self.at(src, n, r, "Closure")

    def macro_rule(self, src, n, R):
        name = n["name"].replace(" ", "")
        if name == "format" and self.u.fmt == "string":
            self.count("format")
            return re.sub(r"crate::shim::(lit|show|cat)\(", r"crate::textfn::f\1(", self.text_parts(src, n, R, n["args"]))
        if name == "format":
            if self.u.fmt == "drop":
                self.count("fmt-drop")
                return "crate::shim::fmt_any()"
            self.count("fmt-keep")
            parts = []
            for a in (n["args"] or [])[1:]:
                parts.append("crate::shim::shown(&(%s));" % R(a))
            return "{ %s crate::shim::fmt_any() }" % " ".join(parts)
        if name in ("println", "eprintln", "print", "eprint"):
            self.count("print")
            return "crate::shim::%s()" % name
        if name == "vec":
            if n["args"] is None:
                return None  # `vec![x; n]`: left for the substitutions
            if not n["args"]:
                self.count("vec")
                return "Vec::new()"
            return "crate::shim::vec%d(%s)" % (len(n["args"]), ", ".join(R(a) for a in n["args"]))
        if name == "panic" or name == "unreachable":
            self.count("panic")
            return "crate::shim::never()"
        if name == "matches":
            return None
        m = self.macros.get(name)
        if m is not None and n["args"] is not None:
            self.count("macro")
            return self.expand_macro(src, m, n)
        if name in ("write", "writeln") and n["args"] and self.u.fmt == "text":
            return self.write_macro(src, n, R, name)
        return None

    def text_parts(self, src, n, R, args, newline=False):
        """The text a format string and its arguments denote, as shim calls."""
        parts = []
        buf = ""
        fmt = rust_str(src.text(args[0])) if args else ""
        if fmt is None:
            raise Lost("%s: format string" % self.curname)
        rest = [R(a) for a in args[1:]]
        i = 0
        while i < len(fmt):
            c = fmt[i]
            if fmt.startswith("{{", i) or fmt.startswith("}}", i):
                buf += c
                i += 2
            elif c == "{":
                j = fmt.index("}", i)
                nm = fmt[i + 1:j].strip()
                if not re.fullmatch(r"\w*", nm):
                    raise Lost("%s: format specification {%s}" % (self.curname, nm))
                if buf:
                    parts.append("crate::shim::lit(%s)" % rust_lit(buf))
                    buf = ""
                if nm == "":
                    if not rest:
                        raise Lost("format arguments")
                    parts.append("crate::shim::show(&(%s))" % rest.pop(0))
                else:
                    parts.append("crate::shim::show(&(%s))" % nm)
                i = j + 1
            else:
                buf += c
                i += 1
        if newline:
            buf += "\n"
        if buf or not parts:
            parts.append("crate::shim::lit(%s)" % rust_lit(buf))
        if rest:
            raise Lost("format arguments")
        t = parts[0]
        for q in parts[1:]:
            t = "crate::shim::cat(%s, %s)" % (t, q)
        return t

    def write_macro(self, src, n, R, name):
        self.count("write")
        return "crate::shim::put(%s, %s)" % (R(n["args"][0]), self.text_parts(src, n, R, n["args"][1:], name == "writeln"))

    macros = {}

    def expand_macro(self, src, m, n):
        pats, tmpl = m
        args = [self.rspan(src, n, a) for a in n["args"]]
        if len(args) != len(pats):
            raise Lost("macro arity")
        text = tmpl
        for p, a in sorted(zip(pats, args), key=lambda x: -len(x[0])):
            text = re.sub(re.escape("$" + p) + r"\b", lambda _: a, text)
        text = re.sub(r"format!\(\"[^\"]*\", [^;]*?\.code_str\(\)\)", "crate::shim::fmt_any()", text)
        return text

    def load_macros(self, src):
        self.macros = {}
        for n in src.items():
            if n["k"] == "Macro" and n["name"]:
                t = src.text(n["r"])
                mm = re.match(r"macro_rules!\s*\w+\s*\{\s*\((.*?)\)\s*=>\s*\{(.*)\};?\s*\}\s*$", t, re.S)
                if mm:
                    pats = re.findall(r"\$(\w+):\w+", mm.group(1))
                    tmpl = re.sub(r"//[^\n]*", "", mm.group(2))
                    self.macros[n["name"]] = (pats, tmpl)

    def stmt_rule(self, src, n):
        fs = self.cur
        if not (fs.after or fs.before):
            return None
        raw = re.sub(r"//[^\n]*", "", src.text(n["r"]))
        norm = re.sub(r"\s+", " ", raw).strip()
        pre = post = ""
        hit = False
        for i, (pat, body) in enumerate(fs.after):
            if re.match(pat, norm):
                post += "\n" + body
                self.used_after.add((self.curname, "after", i))
                hit = True
        for i, (pat, body) in enumerate(fs.before):
            if re.match(pat, norm):
                pre += body
                self.used_after.add((self.curname, "before", i))
                hit = True
        if not hit:
            return None
        inner = self.render(src, self.subnodes(src, n), n["r"][0], n["r"][1])
        if post and not inner.rstrip().endswith((";", "}")):
            inner += ";"
        return pre + inner + post

    def loopspec(self, n):
        idx = self.loop_counter
        self.loop_counter += 1
        # numeric key
        l = self.cur.loops.get(str(idx)) or self.cur.loops.get("rest")
        d = self.u.defaultloop.get(self.curmodule)
        if d and self.auto_active and (l is None or (l.inv == "" and l.kind is not None)):
            l = copy.copy(l) if l else LoopSpec()
            l.inv = d
        return idx, l

    def body_inner(self, src, n, L, idx):
        b = n["body"]
        inner = self.render(src, self.subnodes(src, n), b[0] + 1, b[1] - 1)
        pt = "%s#loop%d" % (self.curname, idx)
        self.points.append(pt)
        v = self.plant(pt)
        return v, inner

    def for_rule(self, src, n, R):
        k = self.loop_counter
        return "/*@@loop %d*/ %s /*@@pool*/" % (k, self.for_rule_(src, n, R).replace("$IT", "__it%d" % k).replace("$I", "__i%d" % k))

    def for_rule_(self, src, n, R):
        idx, L = self.loopspec(n)
        expr = src.text(n["expr"]).strip()
        pat = src.text(n["pat"])
        rg = self.at(src, n, n["expr"], "Range") or None
        e = R(n["expr"])
        if rg is None and expr.startswith("(") :
            for c in self.subnodes(src, n):
                if c["k"] == "Range" and c["r"][0] >= n["expr"][0] and c["r"][1] <= n["expr"][1]:
                    rg = c
                    break
        v, inner = self.body_inner(src, n, L, idx)
        inv = L.inv if L else ""
        st = L.start if L else ""
        en = L.end if L else ""
        pre = L.pre + L.attr if L else ""
        post = L.post if L else ""
        kind = (L.kind if L else None) or ("range" if rg is not None else "valmut" if expr.endswith(".values_mut()") else "mapval" if expr.endswith(".values()") else "slice")
        lab = ""
        if kind == "range":
            if pat.strip() == "_":
                pat = "__k%d" % idx
            return "%s for %s in %s\n%s\n{%s%s%s%s}%s" % (pre, pat, e, inv, v, st, inner, en, post)
        if kind == "iter":
            self.count("for-iter")
            itn = re.sub(r"^&\s*mut\s+", "", e)
            return "%s loop\n%s\n{ match %s.next() { Some(%s) => {%s%s%s%s} None => { break; } } }%s" % (pre, inv, itn, pat, v, st, inner, en, post)
        it = "__it%d" % idx
        iv = "__i%d" % idx
        if kind == "valmut":
            self.count("for-values-mut")
            m = re.match(r"^(.*)\.values_mut\(\)$", expr, re.S)
            if not m: raise Lost("values_mut")
            return ("let %s = %s.keys_();\n%s let mut %s: usize = 0; while %s < %s.len()\n%s\n{%s %s += 1; let %s = %s.value_mut_(&%s[%s - 1]);\n%s%s%s}%s" %
                    (it, m.group(1), pre, iv, iv, it, inv, v, iv, pat, m.group(1), it, iv, st, inner, en, post))
        if kind in ("map", "mapval", "set"):
            self.count("for-map")
            fnm = {"map": "entries", "mapval": "values", "set": "elements"}[kind]
            if kind == "mapval":
                e = re.sub(r"\.values\(\)$", "", e.strip())
                return ("let %s = (%s).values_();\n%s let mut %s: usize = 0; while %s < %s.len()\n%s\n{%s %s += 1; let %s = %s[%s - 1];\n%s%s%s}%s" %
                        (it, e, pre, iv, iv, it, inv, v, iv, pat, it, iv, st, inner, en, post))
            en_pat = ""
            m = re.match(r"^(.*)\.iter\(\)\s*\.enumerate\(\)$", e.strip(), re.S)
            if m:
                mm = re.match(r"^\(\s*(\w+)\s*,\s*(.*)\)$", pat, re.S)
                if not mm: raise Lost("enumerate pattern")
                en_pat = "let %s = %s; " % (mm.group(1), iv)
                pat = mm.group(2)
                e = m.group(1)
            if kind == "map": e = re.sub(r"\.iter\(\)$", "", e.strip())
            return ("let %s = crate::shim::%s(%s);\n%s for %s in 0..%s.len()\n%s\n{%s %s let %s = %s[%s];\n%s%s%s}%s" %
                    (it, fnm, e, pre, iv, it, inv, v, en_pat, pat, it, iv, st, inner, en, post))
        self.count("for-slice")
        # a body with `continue` needs a while loop
        def head(n_expr):
            return "for %s in 0..%s" % (iv, n_expr), "", ""
        if self.continues(src, n):
            def head(n_expr):
                return "let mut %s: usize = 0; while %s < %s" % (iv, iv, n_expr), " %s += 1;" % iv, " - 1"
        call = self.at(src, n, n["expr"], "MethodCall")
        counted = False
        if call and call["method"] == "enumerate":
            counted = True
            call = self.at(src, call, call["recv"], "MethodCall")
        if call and call["method"] in ("split", "char_indices"):
            h, bump, back = head(it + ".len()")
            p = pat
            cnt = ""
            if counted:
                mm = re.match(r"^\(\s*(\w+)\s*,\s*(.*)\)$", pat, re.S)
                if not mm: raise Lost("enumerate pattern")
                cnt, p = "let %s = %s%s;" % (mm.group(1), iv, back), mm.group(2)
            return ("let %s = crate::shim::%s(&%s%s);\n%s %s\n%s\n{%s%s %s let %s = %s[%s%s];\n%s%s%s}%s" %
                    (it, call["method"], R(call["recv"]), "".join(", " + R(a) for a in call["args"]), pre, h, inv, v, bump, cnt, p, it, iv, back, st, inner, en, post))
        m = re.match(r"^(.*)\.chars\(\)$", e.strip(), re.S)
        if m:
            return ("let %s = crate::shim::chars(&%s);\n%s for %s in 0..%s.len()\n%s\n{%s let %s = %s[%s];\n%s%s%s}%s" %
                    (it, m.group(1), pre, iv, it, inv, v, pat, it, iv, st, inner, en, post))
        en_pat = None
        ee = e.strip()
        if call and call["method"] == "zip" and not counted:
            # for (p, q) in a.iter().zip(b.iter())
            a = self.at(src, call, call["recv"], "MethodCall")
            b = self.at(src, call, call["args"][0], "MethodCall")
            mm = re.match(r"^\(\s*(\w+)\s*,\s*(\w+)\s*\)$", pat)
            if not (a and b and mm and a["method"] == "iter" and b["method"] == "iter"):
                raise Lost("zip")
            self.count("for-zip")
            jt = "__jt%d" % idx
            h, bump, back = head("crate::wire::min(%s.len(), %s.len())" % (it, jt))
            return ("let %s = &%s; let %s = &%s;\n%s %s\n%s\n{%s%s let %s = &%s[%s%s]; let %s = &%s[%s%s];\n%s%s%s}%s" %
                    (it, R(a["recv"]), jt, R(b["recv"]), pre, h, inv, v, bump, mm.group(1), it, iv, back, mm.group(2), jt, iv, back, st, inner, en, post))
        m = re.match(r"^(.*)\.iter\(\)\s*\.enumerate\(\)$", ee, re.S)
        if m:
            mm = re.match(r"^\(\s*(\w+)\s*,\s*(.*)\)$", pat, re.S)
            if not mm: raise Lost("enumerate pattern")
            en_pat = "let %s = %s; " % (mm.group(1), iv)
            pat = mm.group(2)
            ee = "&" + m.group(1)
        else:
            m = re.match(r"^(.*)\.iter\(\)$", ee, re.S)
            if m:
                ee = "&" + m.group(1)
        return ("let %s = %s;\n%s for %s in 0..%s.len()\n%s\n{%s %s let %s = &%s[%s];\n%s%s%s}%s" %
                (it, ee, pre, iv, it, inv, v, en_pat or "", pat, it, iv, st, inner, en, post))

    def continues(self, src, n):
        """does the body of this loop contain a `continue` of this loop?"""
        def walk(m):
            for c in src.children.get(m["id"], []):
                if c["k"] == "Continue":
                    return True
                if c["k"] not in ("For", "While", "Loop", "Closure") and walk(c):
                    return True
            return False
        return walk(n)

    def loop_rule(self, src, n, R):
        k = self.loop_counter
        L = self.cur.loops.get(str(k))
        if L and L.outline:
            return self.outline(src, n, R, L, k)
        return "/*@@loop %d*/ %s /*@@pool*/" % (k, self.loop_rule_(src, n, R))

    def outline(self, src, n, R, L, k):
        """a loop becomes a function of the module: `match NAME(args) { Ok(()) => {} Err(e) => return Err(e) }` calls it. Variables
        it uses which are not passed to it do not resolve in it, and a `return` of anything but an error does not type-check."""
        new = "%s_loop%d" % (re.sub(r"\W+", "_", self.curname.split("::", 1)[1]), k)
        full = self.curmodule + "::" + new
        fs = self.u.fns.get(full)
        if fs is None:
            raise Lost("%s: no contract" % full)
        self.loop_counter += 1
        keep = {a: getattr(self, a) for a in ("cur", "curname", "loop_counter", "any_counter", "chain_counter", "used_chains", "auto_active")}
        self.cur, self.curname, self.loop_counter, self.any_counter, self.chain_counter, self.used_chains, self.auto_active = fs, full, 0, 0, 0, set(), False
        self.contracted.append(full)
        body = self.loop_rule(src, n, R)
        body = self.finished(full, fs, body)
        pt = full + "#entry"
        self.points.append(pt)
        self.hoisted.append(self.apply_substs("/*@@fn %s*/\n%s\npub fn %s%s\n%s{%s%s\n%s\n%s Ok(()) }\n/*@@end*/\n" % (
            full, fs.attrs, new, L.outline[1].strip(), fs.contract, fs.entry, self.plant(pt), body, fs.exit), self.curmodule))
        for a, v in keep.items():
            setattr(self, a, v)
        self.count("outline")
        return "match %s(%s) { Ok(()) => { } Err(e__) => { return Err(e__); } }" % (new, L.outline[0])

    def finished(self, full, fs, body):
        """the substitutions of one function; every directive must have found its place"""
        for k in list((fs.loops if fs else {}).keys()):
            if k.isdigit() and int(k) >= self.loop_counter:
                raise Lost("%s: loop %s not found (function has %d loops)" % (full, k, self.loop_counter))
            if k.startswith("chain") and k not in self.used_chains:
                raise Lost("%s: iterator chain %s not found" % (full, k))
        if fs:
            for i, (pat, _) in enumerate(fs.after):
                if (full, "after", i) not in self.used_after:
                    raise Lost("%s: statement /%s/ not found" % (full, pat))
            for i, (pat, _) in enumerate(fs.before):
                if (full, "before", i) not in self.used_after:
                    raise Lost("%s: statement /%s/ not found" % (full, pat))
        for a, b in self.cur.subst:
            body, k = re.subn(a.strip(), b.strip(), body)
            if k == 0:
                raise Lost("%s: text /%s/ not found" % (full, a))
            self.count("subst", k)
        return body

    def loop_rule_(self, src, n, R):
        idx, L = self.loopspec(n)
        cond = None
        if n["k"] == "While":
            cond_r = n["cond"]
            cond = None if n["islet"] else R(cond_r)
            let = None
            if n["islet"]:
                lt = self.at(src, n, cond_r, "Let")
                let = (src.text(lt["pat"]), R(lt["expr"]))
        v, inner = self.body_inner(src, n, L, idx)
        inv = L.inv if L else ""
        st = L.start if L else ""
        en = L.end if L else ""
        pre = L.pre + L.attr if L else ""
        post = L.post if L else ""
        if n["k"] == "Loop":
            return "%s loop\n%s\n{%s%s%s%s}%s" % (pre, inv, v, st, inner, en, post)
        if n["islet"]:
            self.count("while-let")
            return "%s loop\n%s\n{ match %s { %s => {%s%s%s%s} _ => { break; } } }%s" % (pre, inv, let[1], let[0], v, st, inner, en, post)
        return "%s while %s\n%s\n{%s%s%s%s}%s" % (pre, cond, inv, v, st, inner, en, post)

    # -- items -------------------------------------------------------------------------------
    def apply_substs(self, text, module):
        for m, a, b in self.u.substs:
            if m is None or m == module:
                text, k = re.subn(a, b, text)
                if k:
                    self.count("subst", k)
        return text

    def inner_fns(self, src, n, name):
        """functions declared in the body of n, with the block in which their name is known"""
        ds = list(src.descend(n))
        r = []
        for d in ds:
            if d["k"] == "Fn":
                best = n["body"]
                for b in ds:
                    if b["k"] == "BlockExpr" and b["r"][0] < d["r"][0] and d["r"][1] < b["r"][1] and b["r"][1] - b["r"][0] < best[1] - best[0]:
                        best = b["r"]
                r.append((best[0], best[1], d["name"], "%s_%s%d" % (re.sub(r"\W+", "_", name), d["name"], len(r)), d["id"]))
        r.sort(key=lambda x: x[1] - x[0])
        return r

    def hoist(self, src, n):
        """a function declared inside a body becomes one of the module, under a name of its own"""
        new = next(x for x in self.inner if x[4] == n["id"])[3]
        keep = {a: getattr(self, a) for a in ("cur", "curname", "loop_counter", "any_counter", "chain_counter", "used_chains", "auto_active", "inner", "renames")}
        t = self.emit_fn(src, n, self.curmodule, new, new)
        for a, v in keep.items():
            setattr(self, a, v)
        self.count("hoist")
        self.hoisted.append(t)
        return ""

    def emit_fn(self, src, n, module, name, rename=None):
        full = module + "::" + name
        self.inner = self.inner_fns(src, n, name) if rename is None else []
        self.renames = [x[:4] for x in self.inner]
        fs = self.u.fns.get(full)
        self.cur = fs or FnSpec()
        self.curname = full
        self.curmodule = module
        self.loop_counter = self.any_counter = self.chain_counter = 0
        self.used_chains = set()
        self.auto_active = False
        autos = self.u.auto.get(module)
        if autos and (fs is None or fs.contract == "") and not (fs and fs.external):
            params = src.data[n["r"][0]:n["body"][0]].decode()
            req = [b for k, p, b in autos if k == "requires" and re.search(p, params)]
            ens = [b for k, p, b in autos if k == "ensures" and re.search(p, params)]
            dec = [b for k, p, b in autos if k == "decreases" and re.search(p, params)]
            if ens:
                self.auto_active = True
                if fs is None:
                    fs = self.cur = FnSpec()
                fs = self.cur = copy.copy(self.cur)
                fs.ret = fs.ret or "r"
                fs.attrs = fs.attrs or "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]"
                fs.entry = fs.entry + "".join(b for k, p, b in autos if k == "entry" and re.search(p, params))
                fs.contract = ("requires " + "".join(req) if req else "") + " ensures " + "".join(ens) + (" decreases " + dec[0] if dec else "")
        elif autos:
            self.auto_active = True
        if fs is None:
            self.uncontracted.append(full)
        elif fs.external:
            self.external.append(full)
        else:
            self.contracted.append(full)
        start = n["r"][0]
        for a in n.get("attrs", []):
            start = max(start, a["r"][1])
            self.count("attr")
        b0, b1 = n["body"]
        sigtext = src.data[start:b0].decode().strip()
        sg = n["sig"]
        if sg["output"] and fs and fs.ret:
            o = sg["output"]["r"]
            sigtext = src.data[start:o[0]].decode().strip() + " (%s: %s)" % (fs.ret, src.text(o))
            if sg["where"]:
                sigtext += " " + src.text(sg["where"])
        if rename:
            sigtext = re.sub(r"\bfn \w+", "pub fn " + rename, sigtext, count=1)
        for a, b in self.cur.sig_subst:
            sigtext, k = re.subn(a.strip(), b.strip(), sigtext)
            if k == 0:
                raise Lost("signature of %s changed (%s)" % (full, a))
        if fs and fs.external:
            body = " unimplemented!() "
            return self.apply_substs("#[verifier::external_body]\n%s\n%s\n{%s}\n" % (sigtext, fs.contract, body), module)
        body = self.render(src, self.subnodes(src, n), b0 + 1, b1 - 1)
        body = self.finished(full, fs, body)
        pt = full + "#entry"
        self.points.append(pt) if fs else None
        v = self.plant(pt) if fs else ""
        return self.apply_substs("/*@@fn %s*/\n%s%s\n%s{%s%s\n%s%s}\n/*@@end*/\n" % (full,
            (self.cur.attrs + "\n") if self.cur.attrs else "", sigtext,
            self.cur.contract, self.cur.entry, v, body, self.cur.exit), module)

    def emit_type(self, src, n, module):
        c = self.u.consts.get(module + "::" + n["name"])
        if c and n["k"] == "Const":
            txt = src.text(n["r"])
            m = re.match(r"(?s)^(?:pub )?const\s+(\w+)\s*:\s*(.*?)\s*=\s*(.*);$", txt.strip())
            if not m:
                raise Lost("const %s" % n["name"])
            self.contracted.append(module + "::" + n["name"])
            ty = re.sub(r"&(?!\s*')", "&'static ", m.group(2))
            return "%spub exec const %s: %s\n%s\n{ %s %s }\n" % (c[2] if len(c) > 2 else "", m.group(1), ty, c[0], c[1], m.group(3))
        start = n["r"][0]
        text = []
        # drop all attributes inside (derive etc.)
        cut = []
        for c in [n] + list(src.descend(n)):
            for a in c.get("attrs", []):
                cut.append(tuple(a["r"]))
                self.count("attr")
        pos = n["r"][0]
        for a, b in sorted(set(cut)):
            text.append(src.data[pos:a].decode())
            pos = b
        text.append(src.data[pos:n["r"][1]].decode())
        body = "".join(text)
        if n["k"] == "Const":
            m = re.match(r"(?s)^(.*?:)(.*?)(=.*)$", body)
            body = m.group(1) + re.sub(r"&(?!\s*')", "&'static ", m.group(2)) + m.group(3)
        body = body.lstrip()
        if n["k"] in ("Struct", "Enum", "Const", "TypeAlias") and not body.startswith("pub"):
            body = "pub " + body
            self.count("vis")
        if n["k"] == "Struct":
            body = re.sub(r"(?m)^(\s+)((?:r#)?[a-z_]\w*\s*:)", r"\1pub \2", body)
        if n["k"] == "Enum" and not re.search(r"[({=]", body[body.index("{") + 1:]):
            # an enumeration without payload: derived equality is equality
            body = body.lstrip() + """
impl vstd::std_specs::cmp::PartialEqSpecImpl for NAME {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for NAME { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for NAME {}
impl Clone for NAME { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NAME {}
""".replace("NAME", n["name"])
        return self.apply_substs(body + "\n", module)

    def generate(self):
        out = []
        module = src = None
        taken = set()
        for p in self.u.out:
            if p[0] == "raw":
                out.append(p[1])
            elif p[0] == "module":
                module, f, uses = p[1], p[2], p[3]
                src = self.source(f) if f != "-" else None
                taken = set()
                if src:
                    self.load_macros(src)
                    self.fnmap = src.functions()
                out.append("pub mod %s {\n%s\n" % (module, uses))
            elif p[0] == "endmodule":
                out.append("}\n")
            elif p[0] == "take":
                for nm in p[1]:
                    taken.add(nm)
                    out.append(self.take(src, module, nm))
                    out += self.hoisted
                    self.hoisted = []
            elif p[0] == "takefns":
                # every remaining function of the file (except the ones excluded), so that helpers
                # added to the source later come along without a contract
                excl = set(p[1])
                impls = {}
                for nm, n in self.fnmap.items():
                    if nm in taken or nm in excl or any(nm.startswith(x[:-1]) for x in excl if x.endswith("*")):
                        continue
                    if "::" in nm and "impl" in n:
                        continue
                    out.append(self.emit_fn(src, n, module, nm))
                    out += self.hoisted
                    self.hoisted = []
        text = "".join(out)
        text, k = re.subn(r"\br#(\w+)", r"\1_", text)
        self.count("raw-ident", k)
        return text

    def take(self, src, module, nm):
        # impl block with listed methods:   impl:Type:method,method
        if nm.startswith("impl:"):
            _, ty, ms = nm.split(":", 2)
            want = ms.split(",")
            body = []
            target = None
            for n in src.items():
                if n["k"] == "Impl" and n["name"].replace(" ", "") == ty:
                    for m in src.children.get(n["id"], []):
                        if m["k"] == "Method" and (m["name"] in want or "*" in want):
                            target = n
                            body.append(self.emit_fn(src, m, module, ty + "::" + m["name"]))
            got = len(body)
            if target is None or (("*" not in want) and got != len(want)):
                raise Lost("%s: impl %s with methods %s not found" % (module, ty, ms))
            head = src.data[target["r"][0]:target["brace"][0]].decode()
            for a in target.get("attrs", []):
                head = src.data[a["r"][1]:target["brace"][0]].decode()
            return self.apply_substs(head + "{\n" + "".join(body) + "}\n", module)
        # methods of a trait implementation taken as inherent methods:  inherent:Impl=Type:method,..
        if nm.startswith("inherent:"):
            im, ty = nm[len("inherent:"):].rsplit("=", 1)
            ty, ms = ty.split(":", 1)
            body = []
            for m in ms.split(","):
                f = self.fnmap.get(im + "::" + m)
                if f is None:
                    raise Lost("%s: %s::%s not found" % (module, im, m))
                self.count("inherent")
                body.append(self.emit_fn(src, f, module, im + "::" + m))
            return self.apply_substs("impl %s {\n%s}\n" % (ty, "".join(body)), module)
        if nm in self.fnmap:
            return self.emit_fn(src, self.fnmap[nm], module, nm)
        for n in src.items():
            if n.get("item") and n["name"] == nm and n["k"] in ("Struct", "Enum", "Const", "TypeAlias", "Static"):
                return self.emit_type(src, n, module)
        raise Lost("%s: item %s not found" % (module, nm))


if __name__ == "__main__":
    u = Unit(sys.argv[1])
    x = Extractor(u)
    t = x.generate()
    open(sys.argv[2], "w").write(t)
    print(json.dumps({"rewrites": x.counts, "contracted": x.contracted, "uncontracted": x.uncontracted, "external": x.external}))
