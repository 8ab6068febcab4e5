"""Extraction and indexing of the MIR of /repo's current source."""
import json, os, subprocess, hashlib, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "mirdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        subprocess.check_call(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", "-o", tmp, src])
        os.rename(tmp, out)
    return out


def dump(repo=None):
    repo = repo or REPO
    sr = sysroot()
    edition = "2018"
    crate = "aws_smt_strings"
    try:
        for l in open(os.path.join(repo, "Cargo.toml")):
            if l.strip().startswith("edition"):
                edition = l.split("=")[1].strip().strip('"')
            if l.strip().startswith("name") and crate == "aws_smt_strings":
                crate = l.split("=")[1].strip().strip('"').replace("-", "_")
    except OSError:
        raise BuildError("no Cargo.toml in %s" % repo)
    tmp = tempfile.mkdtemp(prefix="mirdump")
    try:
        out = os.path.join(tmp, "mir.json")
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sr + "/lib"
        p = subprocess.run(
            [driver(), out, os.path.join(repo, "src/lib.rs"), "--crate-name", crate, "--crate-type", "lib",
             "--edition", edition, "--sysroot", sr, "-C", "debug-assertions=off", "-C", "overflow-checks=on",
             "-Awarnings", "--out-dir", tmp],
            env=env, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise BuildError("MIR extraction failed:\n" + p.stdout[-3000:])
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp)


class Body:
    def __init__(self, d):
        self.d = d
        self.path = d["path"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.names = d["names"]
        self.blocks = d["blocks"]
        self.file = d["file"]
        self.line = d["line"]
        self.promoted = [Body(x) for x in d.get("promoted", [])]
        self.name = d.get("name") or self.path.split("::")[-1]
        self.pub = d.get("pub")
        self._loops = None
        self._live = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def loops(self):
        """head -> set of blocks (natural loops, merged by head)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        preds = {}
        order = []
        seen = set()
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                preds.setdefault(s, set()).add(b)
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in self.succs(b):
                preds.setdefault(s, set()).add(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0:
                    continue
                new = None
                for p in preds.get(b, ()):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo.extend(p for p in preds[x] if p in num)
        self._loops = loops
        return loops

    def live_at(self, blk):
        """locals live at entry of a block (borrowed locals are always kept)"""
        if self._live is None:
            borrowed = set()
            use, de = {}, {}

            def pl(p, u, first_def=None):
                if p[0] not in d_:
                    u.add(p[0])
                for e in p[1:]:
                    if e[0] == "i" and e[1] not in d_:
                        u.add(e[1])

            def op(o, u):
                if o[0] in ("copy", "move"):
                    pl(o[1], u)
            for i, bb in enumerate(self.blocks):
                u, d_ = set(), set()
                if bb:
                    for s in bb["s"]:
                        if s[0] == "=":
                            r = s[2]
                            k = r[0]
                            if k in ("ref",):
                                pl(r[2], u)
                                if not any(e[0] == "d" for e in r[2][1:]):
                                    borrowed.add(r[2][0])
                            elif k == "discr":
                                pl(r[1], u)
                            elif k in ("use", "repeat"):
                                op(r[1], u)
                            elif k == "cast":
                                op(r[2], u)
                            elif k == "bin":
                                op(r[2], u)
                                op(r[3], u)
                            elif k == "un":
                                op(r[2], u)
                            elif k == "agg":
                                for o in r[2]:
                                    op(o, u)
                            if len(s[1]) == 1:
                                d_.add(s[1][0])
                            else:
                                pl(s[1], u)
                        elif s[0] == "sd":
                            pl(s[1], u)
                        elif s[0] == "dead":
                            d_.add(s[1])
                    t = bb["t"]
                    if t[0] == "switch":
                        op(t[1], u)
                    elif t[0] == "call":
                        op(t[1], u)
                        for o in t[2]:
                            op(o, u)
                        if len(t[3]) == 1:
                            d_.add(t[3][0])
                        else:
                            pl(t[3], u)
                    elif t[0] == "assert":
                        op(t[1], u)
                    elif t[0] == "drop":
                        pass
                use[i], de[i] = u, d_
            live = {i: set(use[i]) for i in use}
            ch = True
            while ch:
                ch = False
                for i in range(len(self.blocks) - 1, -1, -1):
                    if not self.blocks[i]:
                        continue
                    out = set()
                    for s in self.succs(i):
                        out |= live[s]
                    if self.blocks[i]["t"][0] == "ret":
                        out.add(0)
                    n = use[i] | (out - de[i])
                    if n != live[i]:
                        live[i] = n
                        ch = True
            self._live = (live, borrowed)
        return self._live[0][blk] | self._live[1]


def base_ty(t):
    while t["k"] in ("ref", "ptr"):
        t = t["e"]
    return t


def ty_key(t):
    k = t["k"]
    if k == "adt":
        return t["p"]
    if k == "int":
        return t["n"]
    if k in ("ref", "ptr"):
        return "&" + ty_key(t["e"])
    return k


class Program:
    def __init__(self, d):
        self.d = d
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["path"]] = Body(b)
        self.consts = {b["path"]: Body(b) for b in d["consts"]}
        self.adts = d["adts"]
        self.impls = {}
        self.methods = {}
        self.traitdef = {}
        for b in self.bodies.values():
            m = b.d
            if "trait" in m and "self" in m:
                self.impls.setdefault((m["trait"], m["name"]), []).append((m["self"], m.get("targs", []), b))
            elif "self" in m and "name" in m:
                self.methods[(ty_key(m["self"]), m["name"])] = b
            elif "intrait" in m:
                self.traitdef[(m["intrait"], m["name"])] = b

    def find(self, name):
        """body by suffix: 'module::Type::method' """
        r = [b for p, b in self.bodies.items() if p == "crate::" + name or p.endswith("::" + name)]
        if len(r) == 1:
            return r[0]
        e = [b for b in r if b.path == "crate::" + name]
        if len(e) == 1:
            return e[0]
        return None


def load(repo=None):
    return Program(dump(repo))
