"""Suites on data files (C21)."""
from framework import parse_sig
from s_scene import strip

SIG = parse_sig("""
reset
setenv var:s p:S
mkdir,mkfile,rm,cd,adddp,resolve p:S
mklink p:S to:S
dps
key k:s
cmd args:S
kvset k:s v:s
kvget k:s d:s
kvall
rest
vfile k:s p:S
abs,rel,relabs b:S p:S
fnode b:S p:S how:s
tovec l:L o:b c:b
""")
NAMES = ["f1.xml", "f2.xml", "g"]


class EnvGen:
    def __init__(self, rng):
        self.rng, self.ev = rng, [{"op": "reset"}]
        self.fs, self.cwd, self.keys, self.known = {(): ("d", None)}, (), [], []
        for _ in range(rng.randrange(3, 8)):
            self.mkdir()
        if rng.random() < .6:
            self.link()
        for _ in range(rng.randrange(2, 7)):
            self.mkfile()
        for v in ("simox", "vr"):
            if rng.random() < .4:
                self.op("setenv", var=v, p=self.path(self.rng.choice(self.dirs())) if rng.random() < .8 else ["@", "nowhere"])

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def dirs(self, links=True):
        return sorted(p for p, e in self.fs.items() if e[0] == "d" or links and e[0] == "l")

    def files(self):
        return sorted(p for p, e in self.fs.items() if e[0] == "f")

    def mkdir(self):
        p = self.rng.choice(self.dirs(False)) + ("d%d" % len(self.fs) if self.rng.random() < .5 else self.rng.choice(["a", "b", "c", "g"]),)
        if p not in self.fs and len(p) < 5:
            self.fs[p] = ("d", None)
            self.op("mkdir", p=list(p))

    def link(self):
        t = self.rng.choice([d for d in self.dirs(False)])
        p = self.rng.choice(self.dirs(False)) + ("ln%d" % len(self.fs),)
        if self.rng.random() < .1:
            t = t + ("dangling",)
        self.fs[p] = ("l", t)
        self.op("mklink", p=list(p), to=list(t))

    def mkfile(self):
        p = self.rng.choice(self.dirs(False)) + (self.rng.choice(NAMES),)
        if p not in self.fs:
            self.fs[p] = ("f", None)
            self.op("mkfile", p=list(p))

    def messy(self, cs):
        """the same way with detours"""
        r = []
        for k, c in enumerate(cs):
            if self.rng.random() < .06:
                r.append(".")
            d = self.rng.choice(self.dirs(False))
            if self.rng.random() < .08 and d and tuple(cs[:k]) == d[:-1]:
                r += [d[-1], ".."]
            r.append(c)
        return r

    def path(self, place):
        rng = self.rng
        if rng.random() < .6:
            return ["@"] + self.messy(place)
        c = 0
        while c < min(len(place), len(self.cwd)) and place[c] == self.cwd[c]:
            c += 1
        r = [".."] * (len(self.cwd) - c) + list(place[c:])
        return r or ["."]

    def name(self):
        rng = self.rng
        c = rng.random()
        fl = self.files()
        if c < .2 and fl:
            return self.path(rng.choice(fl))
        if c < .6 and fl:           # relative to some directory: a tail of a place
            f = rng.choice(fl)
            k = rng.randrange(0, len(f))
            return self.messy(f[k:])
        if c < .7:
            return [rng.choice(NAMES + ["a", "b"])]
        if c < .8:
            return [rng.choice(["a", "b", "c", "..", "."]), rng.choice(NAMES)]
        if c < .85:
            return ["@"] + list(rng.choice(self.dirs())) + ["missing.xml"]
        return [rng.choice(NAMES)]

    def base(self):
        return ["@"] + self.messy(self.rng.choice(self.dirs()))

    def okbase(self):
        while True:
            d = self.rng.choice(self.dirs())
            if self.fs[d][0] == "d" or self.fs[d][1] in self.fs:
                return ["@"] + list(d)

    def tail_(self, place):
        p = self.path(place)
        return p + ["."] if p == ["@"] else p

    def text(self, p):
        return "/".join(p)

    def tokens(self):
        rng, tok = self.rng, []
        reg = self.keys + ["data-path"]
        for _ in range(rng.randrange(0, 6)):
            c = rng.random()
            val = self.tail_(rng.choice(self.dirs() + self.files())) if rng.random() < .7 else [rng.choice(["v1", "v2", "17", "a.b"])]
            arg = {"k": "arg", "n": "", "v": self.text(val), "p": val, "s": self.text(val)}
            n = rng.choice(reg)
            if c < .35:
                tok += [{"k": "opt", "n": n, "v": "", "p": [], "s": "--" + n}, arg]
            elif c < .55:
                tok.append({"k": "eq", "n": n, "v": self.text(val), "p": val, "s": "--%s=%s" % (n, self.text(val))})
            elif c < .7:
                u = rng.choice(["unknown", "zz"])
                tok.append({"k": "opt", "n": u, "v": "", "p": [], "s": "--" + u})
            elif c < .8:
                tok.append({"k": "eq", "n": "zz", "v": self.text(val), "p": val, "s": "--zz=" + self.text(val)})
            elif c < .95:
                tok.append(arg)
            elif not any(t["n"] == "help" for t in tok):
                tok.append({"k": "opt", "n": "help", "v": "", "p": [], "s": "--help"})
        if rng.random() < .08:
            tok.append({"k": "opt", "n": n, "v": "", "p": [], "s": "--" + n} if reg and (n := rng.choice(reg)) else {})
        return tok

    def step(self):
        rng, c = self.rng, self.rng.randrange(100)
        if c < 30:
            self.op("resolve", p=self.name())
        elif c < 37:
            self.op("adddp", p=self.path(rng.choice(self.dirs())) if rng.random() < .85 else ["nowhere", rng.choice(NAMES)])
        elif c < 42:
            self.op("dps")
        elif c < 48:
            self.mkfile()
        elif c < 52 and self.files():
            p = rng.choice(self.files())
            del self.fs[p]
            self.op("rm", p=list(p))
        elif c < 55:
            self.cwd = rng.choice(self.dirs(False))
            self.op("cd", p=list(self.cwd))
        elif c < 58:
            k = rng.choice(["robot", "scene", "object", "camera"])
            self.op("key", k=k)
            self.keys.append(k)
        elif c < 66:
            t = self.tokens()
            self.op("cmd", args=[x["s"] for x in t], tok=t)
        elif c < 68:
            p = self.tail_(rng.choice(self.files() + self.dirs()))
            self.op("kvset", k=rng.choice(["robot", "scene", "own"]), v=self.text(p), p=p)
        elif c < 72:
            self.op("kvget", k=rng.choice(["robot", "scene", "own", "object", "data-path"]), d=rng.choice(["x", "default"]))
        elif c < 74:
            self.op("kvall")
        elif c < 76:
            self.op("rest")
        elif c < 79:
            self.op("vfile", k=rng.choice(["robot", "scene", "object", "own"]), p=self.name() if rng.random() < .8 else [])
        elif c < 82:
            p = self.name()
            if p[0] != "@":
                self.op("abs", b=self.base(), p=p)
        elif c < 91:
            f = self.files() + (self.dirs(False) if rng.random() < .2 else [])
            if f:
                p = ["@"] + list(rng.choice(f)) if rng.random() < .9 else self.name()
                if len(p) > 1:
                    b = self.okbase()
                    if rng.random() < .5 or p[0] == "@":
                        self.op(rng.choice(["rel", "relabs"]), b=b, p=p)
                    else:
                        self.op("rel", b=b, p=p)
        elif c < 98:
            self.op("fnode", b=self.base(), p=self.name(), how=rng.choice(["-", "-", "-", "relative", "absolute", "elsewhere"]))
            if self.ev[-1]["how"] == "relative" and self.ev[-1]["p"][0] == "@":
                self.ev.pop()
        else:
            self.op("tovec", l=[rng.randrange(-50, 50) for _ in range(rng.choice([3, 3, 3, 0, 1, 2, 4]))], o=rng.random() < .8, c=rng.random() < .8)


def c21(ctx):
    ctx.build(["env"], ["VirtualRobot"])
    ctx.mc("MC_Files", "MC_Files" + ctx.scale("", "_deep"), timeout=1500)
    scr = []
    for h in ctx.sim("MC_Files", "MC_Files_sim", ctx.scale(30, 300), 26):
        scr.append([{"op": "reset"}] + [dict(e, how="-") if e["op"] == "fnode" else e for e in strip(h)])
    rng = ctx.rng("files")
    for i in range(ctx.scale(110, 1200)):
        g = EnvGen(rng)
        for _ in range(ctx.scale(40, 60)):
            g.step()
        scr.append(g.ev)
    per = 10
    for k in range(0, len(scr), per):
        ctx.add("files-%d" % (k // per), "env", [e for s in scr[k:k + per] for e in s], SIG, "FilesTrace", ctx.prop, split=True)
    ctx.run()
