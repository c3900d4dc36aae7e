#!/usr/bin/env python3
"""Mechanical extraction of /repo/src for verification.

  extract.py sym|conc|conc64 OUTDIR [--repo /repo] [--harness DIR]

All modes: visibility is widened to `pub`; functions listed in HOOKS get one line at the start of their body that
lets a contract stand in for the body (inactive unless a harness registers a stub).
Mode sym additionally: `f32`/`f64` becomes the symbolic real type, float literals become exact decimal constants,
`e as f32` becomes a conversion call, `const X: f32 = e;` becomes a lazily evaluated constant, and `b2_min`/`b2_max`
get the line that applies their contract; every function records that it was reached. Everything else is copied token by token.
"""
import os, re, sys, shutil

TOKEN = re.compile(r"""
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*)
 | (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 | (?P<str>b?"(?:\\.|[^"\\])*")
 | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 | (?P<num>0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?|0o[0-7_]+
      |[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:_?(?:f32|f64|[iu](?:8|16|32|64|128|size)))?)
 | (?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 | (?P<p>::|->|=>|\.\.=|\.\.\.|\.\.|<<=|>>=|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|[^\s])
""", re.X | re.S)

def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise ValueError("cannot tokenize at %r" % s[i:i + 30])
        k = m.lastgroup
        if k == "h":
            k = "raw"
        t = m.group()
        if m.group("bc"):
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            out.append(["ws", s[i:j]]); i = j; continue
        if m.group("lc"): k = "ws"
        if m.group("raw"): k = "str"
        if m.group("num"):
            k = "num"
            prev = next((x for x in reversed(out) if x[0] != "ws"), None)
            if prev and prev[1] == "." and "." in t:      # tuple index chain a.0.1
                t = t.split(".")[0]
            elif "." not in t and re.fullmatch(r"[0-9][0-9_]*", t):
                # "1." as a float: dot not followed by another dot or a name
                n = s[i + len(t): i + len(t) + 2]
                if n[:1] == "." and not (n[1:2] == "." or n[1:2].isalpha() or n[1:2] == "_") and not (prev and prev[1] == "."):
                    t += "."
        out.append([k, t]); i += len(t)
    return out

FLOAT = re.compile(r"^(?!0x)[0-9][0-9_]*(?:(?:\.[0-9_]*)(?:[eE][+-]?[0-9_]+)?|[eE][+-]?[0-9_]+)(?:_?(?:f32|f64))?$|^[0-9][0-9_]*_?(?:f32|f64)$")

HOOKS = {
    # function name -> files (suffix); a contract may stand in for these bodies
    "b2_distance_fn": "b2_distance.rs",
    "b2_time_of_impact": "b2_time_of_impact.rs",
    "b2_shape_cast": "b2_distance.rs",
    "find_min_separation": "b2_time_of_impact.rs",
    "evaluate": "b2_time_of_impact.rs",
    "b2_simplex_solve2": "b2_distance.rs",
    "b2_simplex_solve3": "b2_distance.rs",
    "get_support": "b2_distance.rs",
    "read_cache": "b2_distance.rs",
    "get_closest_point": "b2_distance.rs",
    "compute_centroid": "b2_polygon_shape.rs",
    "b2_test_overlap": "b2_collision.rs",
    "b2_test_overlap_shapes": "b2_collision.rs",
    "solve_stretch_pbd": "b2_rope.rs",
    "solve_stretch_xpbd": "b2_rope.rs",
    "solve_bend_pbd_angle": "b2_rope.rs",
    "solve_bend_xpbd_angle": "b2_rope.rs",
    "solve_bend_pbd_distance": "b2_rope.rs",
    "solve_bend_pbd_height": "b2_rope.rs",
    "solve_bend_pbd_triangle": "b2_rope.rs",
    "apply_bend_forces": "b2_rope.rs",
    "b2_find_max_separation": "b2_collide_polygon.rs",
    "b2_find_incident_edge": "b2_collide_polygon.rs",
    "b2_compute_edge_separation": "b2_collide_edge.rs",
    "b2_compute_polygon_separation": "b2_collide_edge.rs",
    "b2_collide_circles": "b2_collision.rs",
    "b2_collide_polygon_and_circle": "b2_collision.rs",
    "b2_collide_polygons": "b2_collision.rs",
    "b2_collide_edge_and_circle": "b2_collision.rs",
    "b2_collide_edge_and_polygon": "b2_collision.rs",
    "warm_start": "b2_contact_solver.rs",
    "solve_velocity_constraints": "b2_contact_solver.rs",
    "solve_position_constraints": "b2_contact_solver.rs",
    "solve_toiposition_constraints": "b2_contact_solver.rs",
}
GENERIC_HOOKS = {
    # as above for generic functions and methods of generic types; the stub applies to the instance of its type
    "balance": "b2_dynamic_tree.rs",
    "insert_leaf": "b2_dynamic_tree.rs",
    "remove_leaf": "b2_dynamic_tree.rs",
    "create_proxy": "b2_dynamic_tree.rs",
    "destroy_proxy": "b2_dynamic_tree.rs",
    "move_proxy": "b2_dynamic_tree.rs",
    "solve_toi": "b2_island.rs",
    "initialize_velocity_constraints": "b2_contact_solver.rs",
    "store_impulses": "b2_contact_solver.rs",
}
SUMMARY = {"b2_min": "b2_math.rs", "b2_max": "b2_math.rs"}

class File:
    def __init__(self, path, text, mode, is_lib, rel=""):
        self.path, self.mode, self.is_lib, self.rel = path, mode, is_lib, rel
        self.t = tokenize(text)
        self.sig = [i for i, x in enumerate(self.t) if x[0] != "ws"]   # significant tokens
        self.pre = {}    # text inserted before token index
        self.post = {}   # text inserted after token index
        self.n = len(self.sig)
    def tok(self, k): return self.t[self.sig[k]][1] if 0 <= k < self.n else ""
    def kind(self, k): return self.t[self.sig[k]][0] if 0 <= k < self.n else ""
    def before(self, k, s): self.pre[self.sig[k]] = self.pre.get(self.sig[k], "") + s
    def after(self, k, s): self.post[self.sig[k]] = s + self.post.get(self.sig[k], "")
    def blank(self, a, b):
        for k in range(a, b): self.t[self.sig[k]][1] = ""
    def match(self, k):
        o = self.tok(k); c = {"(": ")", "[": "]", "{": "}"}[o]; d = 0
        while k < self.n:
            if self.kind(k) == "p":
                if self.tok(k) in "([{" and len(self.tok(k)) == 1: d += 1
                elif self.tok(k) in ")]}" and len(self.tok(k)) == 1:
                    d -= 1
                    if d == 0: return k
            k += 1
        raise ValueError("unbalanced in " + self.path)
    # ---- visibility
    def attrs(self, k):
        while self.tok(k) == "#" and self.tok(k + 1) in ("[", "!"):
            k = self.match(k + 1 if self.tok(k + 1) == "[" else k + 2) + 1
        return k
    def items(self, k, end, ctx):
        while k < end:
            k = self.attrs(k)
            if k >= end: return
            s = k
            vis = False
            if self.tok(k) == "pub":
                vis = True
                if self.tok(k + 1) == "(":
                    e = self.match(k + 1)
                    self.blank(k + 1, e + 1)
                    k = e + 1
                else: k += 1
            pub = lambda: self.before(s, "pub ") if not vis and ctx in ("mod", "inherent") else None
            # skip qualifiers
            q = k
            while self.tok(q) in ("unsafe", "async", "default") or (self.tok(q) == "const" and self.tok(q + 1) in ("fn", "unsafe")) or \
                  (self.tok(q) == "extern" and (self.kind(q + 1) == "str" or self.tok(q + 1) == "fn")) or (self.kind(q) == "str"):
                q += 1
            w = self.tok(q)
            if w == "fn":
                pub()
                k = self.function(q, end, ctx)
            elif w == "mod":
                pub()
                k = q + 2
                if self.tok(k) == "{":
                    e = self.match(k); self.items(k + 1, e, "mod"); k = e + 1
                else: k += 1
            elif w in ("struct", "union"):
                pub()
                k = q + 1
                while self.tok(k) not in ("{", "(", ";"): k += 1
                if self.tok(k) == "{":
                    e = self.match(k); self.fields(k + 1, e); k = e + 1
                elif self.tok(k) == "(":
                    e = self.match(k); self.tuple_fields(k + 1, e); k = self.semi(e + 1)
                else: k += 1
            elif w == "enum":
                pub()
                k = q + 1
                while self.tok(k) != "{": k += 1
                k = self.match(k) + 1
            elif w == "trait":
                pub()
                k = q + 1
                while self.tok(k) != "{": k += 1
                e = self.match(k); self.items(k + 1, e, "trait"); k = e + 1
            elif w == "impl":
                k = q + 1; tr = False
                while self.tok(k) != "{":
                    if self.tok(k) == "for" and self.tok(k + 1) != "<": tr = True
                    k += 1
                e = self.match(k); self.items(k + 1, e, "traitimpl" if tr else "inherent"); k = e + 1
            elif w in ("const", "static"):
                pub()
                k = self.semi(q)
            elif w == "type":
                pub(); k = self.semi(q)
            elif w == "use":
                k = self.semi(q)
            elif w == "extern":
                k = self.semi(q)
            elif w == "macro_rules":
                k = q
                while self.tok(k) not in ("{", "(", "["): k += 1
                k = self.match(k) + 1
                if self.tok(k) == ";": k += 1
            elif self.kind(q) == "id":      # macro invocation
                k = q
                while self.tok(k) not in ("{", "(", "["): k += 1
                br = self.tok(k)
                e = self.match(k)
                for j in range(k, e):
                    if self.tok(j) == "pub" and self.tok(j + 1) == "(": self.blank(j + 1, self.match(j + 1) + 1)
                k = e + 1
                if br != "{" and self.tok(k) == ";": k += 1
            else:
                k = q + 1
    def semi(self, k):
        while self.tok(k) != ";":
            if self.tok(k) in ("(", "[", "{"): k = self.match(k)
            k += 1
        return k + 1
    def fields(self, k, end):
        while k < end:
            k = self.attrs(k)
            if k >= end: return
            if self.tok(k) == "pub":
                if self.tok(k + 1) == "(":
                    e = self.match(k + 1); self.blank(k + 1, e + 1); k = e
            else: self.before(k, "pub ")
            k = self.comma(k, end)
    tuple_fields = fields
    def comma(self, k, end):
        d = 0
        while k < end:
            x = self.tok(k)
            if x in ("(", "[", "{"): k = self.match(k)
            elif x == "<": d += 1
            elif x == ">": d -= 1
            elif x == "," and d <= 0: return k + 1
            k += 1
        return end
    def text(self, a, b):
        return " ".join(self.t[self.sig[k]][1] for k in range(a, b))
    def function(self, q, end, ctx):
        name = self.tok(q + 1)
        k = q + 2
        generic = self.tok(k) == "<"
        while self.tok(k) != "(":
            k += 1
        pe = self.match(k)
        params, ok = [], True
        i = k + 1
        while i < pe:
            i2 = self.comma(i, pe)
            j = i2 - 1 if self.tok(i2 - 1) == "," else i2
            params.append((i, j)); i = i2
        k = pe + 1
        ret_a = k
        while self.tok(k) not in ("{", ";"):
            if self.tok(k) in ("(", "["): k = self.match(k)
            k += 1
        ret_b = next((j for j in range(ret_a, k) if self.tok(j) == "where"), k)
        if self.tok(k) == ";": return k + 1
        e = self.match(k)
        base = os.path.basename(self.path)
        if self.mode == "sym" and self.is_lib and "const" not in (self.tok(q - 1), self.tok(q - 2)):
            self.after(k, ' ::symrt::reached("%s::%s");' % (self.rel, name))
        if self.mode == "sym" and SUMMARY.get(name) == base and ctx == "mod" and len(params) == 2:
            a, b = self.tok(params[0][0]), self.tok(params[1][0])
            self.after(k, ' if let Some(sm_) = ::symrt::summary2("%s", &%s, &%s) { return sm_; }' % (name, a, b))
        if (HOOKS.get(name) == base and not generic or GENERIC_HOOKS.get(name) == base) and self.is_lib:
            tys, args = [], []
            for (a, b) in params:
                if self.tok(b - 1) == "self" and b - a <= 3:
                    args.append("self"); tys.append((a, b)); continue
                if self.tok(a) == "mut": a += 1
                if self.kind(a) != "id" or self.tok(a + 1) != ":": ok = False; break
                args.append(self.tok(a)); tys.append((a + 2, b))
            if ok:
                self.hooks.append((k, name, args, tys, (ret_a, ret_b)))
        return e + 1
    # ---- floats
    def floats(self):
        n = self.n
        k = 0
        while k < n:
            kd, x = self.kind(k), self.tok(k)
            if kd == "num" and FLOAT.match(x) and not (self.tok(k - 1) == "." ):
                lit = re.sub(r"_?(f32|f64)$", "", x).replace("_", "")
                self.t[self.sig[k]][1] = ' ::symrt::R::Lit("%s")' % lit
            elif kd == "id" and x in ("f32", "f64"):
                if self.tok(k - 1) == "::" and self.tok(k - 2) in ("std", "core"):
                    s = k - 2
                    self.t[self.sig[s]][1] = ""; self.t[self.sig[s + 1]][1] = ""
                    lead = "" if self.tok(s - 1) == "::" else "::"
                    self.t[self.sig[k]][1] = lead + "symrt::f32m"
                elif self.tok(k - 1) == "as":
                    s = self.operand_start(k - 2)
                    self.before(s, " ::symrt::R::cast(")
                    self.t[self.sig[k - 1]][1] = ""
                    self.t[self.sig[k]][1] = ")"
                else:
                    self.t[self.sig[k]][1] = " ::symrt::R"
            elif kd == "id" and x in ("const", "static") and self.kind(k + 1) == "id" and self.tok(k + 2) == ":" and self.tok(k + 3) in ("f32", "f64") and self.tok(k + 4) == "=":
                e = self.semi(k + 5) - 1
                self.before(k + 5, "::symrt::R::Fn(|| ")
                self.before(e, ")")
            k += 1
    def doubles(self):
        """f32 -> f64, for telling a violation from rounding noise when replaying."""
        for k in range(self.n):
            kd, x = self.kind(k), self.tok(k)
            if kd == "num" and x.endswith("f32"):
                self.t[self.sig[k]][1] = x[:-3] + "f64"
            elif kd == "id" and x == "f32":
                if self.tok(k - 1) == "::" and self.tok(k - 2) in ("std", "core"):
                    s = k - 2
                    self.t[self.sig[s]][1] = ""; self.t[self.sig[s + 1]][1] = ""
                    self.t[self.sig[k]][1] = ("" if self.tok(s - 1) == "::" else " ::") + "symrt::f32m"
                elif self.tok(k + 1) == "::" and self.tok(k + 2) in ("MAX", "MIN", "EPSILON"):
                    self.t[self.sig[k]][1] = " ::symrt::f32m"
                else:
                    self.t[self.sig[k]][1] = "f64"
    def operand_start(self, k):
        """Start of the unary/postfix expression that ends at k."""
        while True:
            x = self.tok(k)
            if x in (")", "]"):
                d = 0
                while True:
                    if self.tok(k) in (")", "]", "}"): d += 1
                    elif self.tok(k) in ("(", "[", "{"):
                        d -= 1
                        if d == 0: break
                    k -= 1
                p = self.tok(k - 1)
                if self.kind(k - 1) == "id" and p not in ("return", "in", "if", "while", "match", "let", "mut"): k -= 1; continue
                if p in (")", "]", "?", ">"): k -= 1; continue
            elif x == "?": k -= 1; continue
            elif self.kind(k) in ("id", "num"):
                if self.tok(k - 1) in (".", "::"): k -= 2; continue
            break
        while self.tok(k - 1) in ("-", "!", "*", "&") and (self.kind(k - 2) == "p" and self.tok(k - 2) not in (")", "]") or self.tok(k - 2) in ("return", "=", "")):
            k -= 1
        return k
    def run(self):
        self.hooks = []
        if self.is_lib: self.items(0, self.n, "mod")
        if self.mode == "sym": self.floats()
        if self.mode == "conc64": self.doubles()
        for (k, name, args, tys, ret) in self.hooks:
            ty = "fn(%s) %s" % (", ".join(re.sub(r"\bself$", "Self", self.text(a, b)) for a, b in tys), self.text(*ret))
            self.after(k, ' if let Some(hk_) = ::symrt::hook::get::<%s>("%s") { return hk_(%s); }' % (ty, name, ", ".join(args)))
        return "".join(self.pre.get(i, "") + x[1] + self.post.get(i, "") for i, x in enumerate(self.t))

def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path, encoding="utf-8").read() == data: return False
    except OSError: pass
    with open(path, "w", encoding="utf-8") as f: f.write(data)
    return True

def tree(src, dst, mode, is_lib):
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(".rs"): continue
            p = os.path.join(d, f)
            o = os.path.join(dst, os.path.relpath(p, src))
            want.add(os.path.normpath(o))
            put(o, File(p, open(p, encoding="utf-8").read(), mode, is_lib, os.path.relpath(p, src)).run())
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.normpath(os.path.join(d, f))
            if p not in want: os.unlink(p)

LIB = """[package]
name = "box2d-rs"
version = "0.0.4"
edition = "2021"

[lib]
name = "box2d_rs"
path = "src/lib.rs"

[features]
serde_support = ["serde", "strum", "strum_macros", "symrt/serde_support"]

[dependencies]
bitflags = { version = "2", features = ["serde"] }
serde = { version = "1", optional = true, features = ["derive"] }
strum = { version = "0.24", optional = true }
strum_macros = { version = "0.24", optional = true }
symrt = { path = "%(root)s/symrt" %(feat)s}
"""
HARN = """[package]
name = "harness"
version = "0.1.0"
edition = "2021"

[features]
serde_support = ["box2d-rs/serde_support", "serde", "serde_json", "bincode"]

[dependencies]
box2d-rs = { path = "../box2d" }
symrt = { path = "%(root)s/symrt" %(feat)s}
serde = { version = "1", optional = true, features = ["derive"] }
serde_json = { version = "1", optional = true }
bincode = { version = "1", optional = true }

%(bins)s
"""
WS = """[workspace]
members = ["box2d", "harness"]
resolver = "2"

[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false

[profile.dev.package.symrt]
opt-level = 3
"""

def main():
    mode, out = sys.argv[1], os.path.abspath(sys.argv[2])
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = sys.argv[sys.argv.index("--repo") + 1] if "--repo" in sys.argv else "/repo"
    feat = {"conc": ', features = ["conc"]', "conc64": ', features = ["conc64"]'}.get(mode, "")
    tree(os.path.join(repo, "src"), os.path.join(out, "box2d", "src"), mode, True)
    tree(os.path.join(root, "harness"), os.path.join(out, "harness", "src"), mode, False)
    bins = ""
    for f in sorted(os.listdir(os.path.join(root, "harness"))):
        if re.match(r"p\d+.*\.rs$", f):
            b = f[:-3]
            req = '\nrequired-features = ["serde_support"]' if b == "p26" else ""
            bins += '[[bin]]\nname = "%s"\npath = "src/%s.rs"%s\n\n' % (b, b, req)
    v = {"root": root, "feat": feat, "bins": bins}
    put(os.path.join(out, "box2d", "Cargo.toml"), LIB % v)
    put(os.path.join(out, "harness", "Cargo.toml"), HARN % v)
    put(os.path.join(out, "Cargo.toml"), WS)

if __name__ == "__main__":
    main()
