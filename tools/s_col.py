"""Suite on collision and distance queries (C09)."""
import os
from framework import parse_sig
from gen_robots import rpose
import s_scene
from s_scene import batch, strip

SIG = dict(s_scene.SIG)
SIG.update(parse_sig("""
newc x:s nm:s p:P m:L
newn x:s nm:s p:P
cinfl x:s k:i
rinfl r:s k:i
cflat x:s y:s nm:s p:P
cset s:s
crns s:s r:s ns:S
csadd,csrem s:s x:s
csclone s:s t:s
cc k:s a:s l:s b:s
cd k:s a:s l:s b:s w:b
cpt k:s a:s v:V tol:i
mnew m:s
madd m:s k:s x:s
mpair m:s k:s x:s l:s y:s
mcol m:s
mcols m:s s:s
mdist m:s w:b
mdists m:s s:s w:b
mhas m:s s:s
mhaso m:s x:s
"""))


def mat(a, b):
    return [sum(a[3 * r + k] * b[3 * k + c] for k in range(3)) for r in range(3) for c in range(3)]


def rotation(rng, aligned=.6):
    """nine integers, scaled by 25"""
    l = rpose(rng, 0, 1)[:9]
    if rng.random() < aligned:
        return [25 * x for x in l]
    def tilt():
        s, c = rng.choice([(3, 4), (4, 3), (-3, 4), (-4, 3)])
        return rng.choice([[c, -s, 0, s, c, 0, 0, 0, 5], [c, 0, s, 0, 5, 0, -s, 0, c], [5, 0, 0, 0, c, -s, 0, s, c]])
    m = mat(l, tilt())
    if rng.random() < .5:
        return mat(m, tilt())
    return [5 * x for x in m]


def box(rng, aligned=.6, big=60, off=30):
    return [rng.randrange(3, big) for _ in range(3)] + rotation(rng, aligned) + [rng.randrange(-off, off + 1) for _ in range(3)]


class ColGen:
    def __init__(self, ctx, rng, i, wide=False):
        self.rng, self.ev, self.i, self.k = rng, [{"op": "reset"}], i, 0
        self.aligned = rng.choice([1, 1, .8, .5, .2])
        self.span = rng.choice([60, 100, 150])
        self.big = rng.choice([20, 40, 60])
        self.objs, self.bare, self.sets, self.mans, self.rob, self.pairs = [], [], {}, [], None, []
        if rng.random() < .5:
            self.robot(ctx)
        if wide:
            self.aligned, self.span, self.big = 1, 400, 20
        for _ in range(6 if wide else rng.randrange(2, 5)):
            self.new()
        while wide and len(self.objs) < 4:
            self.new()
        for _ in range(5 if wide else rng.randrange(1, 4)):
            self.newset()
        for _ in range(rng.randrange(1, 3)):
            self.op("mnew", m="M%d" % len(self.mans))
            self.mans.append(self.ev[-1]["m"])

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def pose(self):
        return rpose(self.rng, self.span, 1)

    def new(self):
        x = "o%d" % self.k
        self.k += 1
        if self.rng.random() < .06:
            self.op("newn", x=x, nm=x, p=self.pose())
            self.bare.append(x)
            return
        bs = [v for _ in range(self.rng.choice([1, 1, 1, 2])) for v in box(self.rng, self.aligned, self.big)]
        self.op("newc", x=x, nm=x, p=self.pose(), m=bs)
        self.objs.append(x)

    def robot(self, ctx):
        rng, r = self.rng, "R"
        n = rng.randrange(2, 5)
        names = ["n%d" % j for j in range(n)]
        nodes, par, boxes, xml = {}, {}, {}, ["<Robot Type='Arm' RootNode='n0'>"]
        kids = {k: [] for k in names}
        for j, k in enumerate(names):
            par[k] = "" if j == 0 else names[rng.randrange(max(0, j - 2), j)]
            if j:
                kids[par[k]].append(k)
        for k in names:
            p = rpose(rng, 60, 1)
            typ = rng.choice(["fixed", "rev", "rev", "pris"])
            ax = rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [-1, 0, 0]])
            nodes[k] = {"typ": typ, "ax": ax if typ != "fixed" else [0, 0, 0], "loc": p, "root": k == "n0"}
            xml.append("<RobotNode name='%s'><Transform><Matrix4x4>%s<row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4></Transform>" % (
                k, "".join("<row%d c1='%d' c2='%d' c3='%d' c4='%d'/>" % (q + 1, p[3 * q], p[3 * q + 1], p[3 * q + 2], p[9 + q]) for q in range(3))))
            if typ == "rev":
                xml.append("<Joint type='revolute'><Limits lo='-7200' hi='7200' units='degree'/><Axis x='%d' y='%d' z='%d'/></Joint>" % tuple(ax))
            elif typ == "pris":
                xml.append("<Joint type='prismatic'><Limits lo='-10000' hi='10000' units='mm'/><TranslationDirection x='%d' y='%d' z='%d'/></Joint>" % tuple(ax))
            if rng.random() < .8:
                h = [rng.randrange(3, 40) for _ in range(3)]
                boxes[k] = h + [25, 0, 0, 0, 25, 0, 0, 0, 25, 0, 0, 0]
                xml.append("<CollisionModel><Primitives><Box width='%d' height='%d' depth='%d'/></Primitives></CollisionModel>" % (2 * h[0], 2 * h[1], 2 * h[2]))
            xml += ["<Child name='%s'/>" % c for c in kids[k]] + ["</RobotNode>"]
        f = os.path.join(ctx.scratch, "col%d.xml" % self.i)
        open(f, "w").write("\n".join(xml + ["</Robot>"]))
        par["_"], boxes["_"], nodes["_"] = 0, 0, 0
        self.op("robot", r=r, file=f, nodes=nodes, par=par, boxes=boxes)
        self.rob = {"names": names, "typ": {k: nodes[k]["typ"] for k in names}, "with": [r + "/" + k for k in names if k in boxes]}

    def newset(self):
        s = "S%d" % len(self.sets)
        if self.rob and self.rng.random() < .3:
            ns = self.rng.sample(self.rob["names"], self.rng.randrange(1, len(self.rob["names"]) + 1))
            self.op("crns", s=s, r="R", ns=ns)
            self.sets[s] = True
        else:
            self.op("cset", s=s)
            self.sets[s] = False
            for x in self.rng.sample(self.models(), min(len(self.models()), self.rng.randrange(1, 4))):
                self.op("csadd", s=s, x=x)

    def models(self):
        return self.objs + (self.rob["with"] if self.rob else [])

    def operand(self, kinds):
        k = self.rng.choice([k for k in kinds if (k not in "sv" or self.sets) and (k != "r" or self.rob)])
        return k, self.rng.choice({"m": self.models(), "o": self.models(), "s": sorted(self.sets), "v": sorted(self.sets), "r": ["R"]}[k])

    def query(self):
        rng, c = self.rng, self.rng.randrange(100)
        forms = [("s", "s"), ("m", "s"), ("m", "m"), ("m", "m"), ("or", "s"), ("or", "or"), ("or", "or")]
        if c < 40:
            f = rng.choice(forms + [("v", "m")])
            (k, a), (l, b) = self.operand(f[0]), self.operand(f[1])
            self.op("cc", k=k, a=a, l=l, b=b)
            if rng.random() < .25 and (l, k) not in (("m", "v"), ("s", "m"), ("s", "o"), ("s", "r")):
                self.op("cc", k=l, a=b, l=k, b=a)
        elif c < 58:
            f = rng.choice(forms)
            (k, a), (l, b) = self.operand(f[0]), self.operand(f[1])
            self.op("cd", k=k, a=a, l=l, b=b, w=rng.random() < .6)
        elif c < 66:
            k, a = self.operand("mms")
            self.op("cpt", k=k, a=a, v=[rng.randrange(-self.span, self.span + 1) for _ in range(3)], tol=rng.choice([1, 5, 20, 50, 100]))
        elif c < 75:
            self.op("mcol", m=rng.choice(self.mans))
        elif c < 82:
            self.op("mcols", m=rng.choice(self.mans), s=rng.choice(sorted(self.sets)))
        elif c < 91:
            self.op("mdist", m=rng.choice(self.mans), w=rng.random() < .5)
        elif c < 96:
            self.op("mdists", m=rng.choice(self.mans), s=rng.choice(sorted(self.sets)), w=rng.random() < .5)
        elif c < 98:
            self.op("mhas", m=rng.choice(self.mans), s=rng.choice(sorted(self.sets)))
        else:
            self.op("mhaso", m=rng.choice(self.mans), x=rng.choice(self.objs) if self.objs else "R")

    def step(self):
        rng, c = self.rng, self.rng.randrange(100)
        if not self.objs:
            return self.new()
        if c < 48:
            self.query()
        elif c < 60:
            self.op("move", x=rng.choice(self.objs + self.bare), p=self.pose())
        elif c < 64 and self.rob:
            self.op("rpose", r="R", p=self.pose())
        elif c < 72 and self.rob:
            js = [k for k in self.rob["names"] if self.rob["typ"][k] != "fixed"]
            if js:
                k = rng.choice(js)
                self.op("fq", x="R/" + k, v=rng.choice([0, 90, 180, 270]) if self.rob["typ"][k] == "rev" else rng.randrange(-60, 60))
        elif c < 75 and len(self.objs) < 7:
            self.new()
        elif c < 77 and len(self.sets) < 5:
            self.newset()
        elif c < 80:
            ss = [s for s in sorted(self.sets) if not self.sets[s]]
            if ss:
                self.op("csadd" if rng.random() < .6 else "csrem", s=rng.choice(ss), x=rng.choice(self.models() + self.bare))
        elif c < 81:
            t = "S%d" % len(self.sets)
            self.op("csclone", s=rng.choice(sorted(self.sets)), t=t)
            self.sets[t] = False
        elif c < 87:
            k, x = self.operand("sso")
            self.op("madd", m=rng.choice(self.mans), k=k, x=x)
        elif c < 91:
            (k, x), (l, y) = rng.choice([(self.operand("s"), self.operand("s")), (self.operand("o"), self.operand("s")), (self.operand("o"), self.operand("o"))])
            self.op("mpair", m=rng.choice(self.mans), k=k, x=x, l=l, y=y)
        elif c < 92:
            if self.rob and rng.random() < .3:
                self.op("rinfl", r="R", k=rng.randrange(3))
            elif rng.random() < .8:
                m = rng.choice(self.models())
                self.op("cinfl", x=m, k=rng.randrange(3))
                if rng.random() < .5 and len(self.objs) < 7:
                    x = "o%d" % self.k
                    self.k += 1
                    self.op("cflat", x=m, y=x, nm=x, p=self.pose())
                    self.objs.append(x)
            elif len(self.objs) < 7:
                x = "o%d" % self.k
                self.k += 1
                self.op("cflat", x=rng.choice(self.models()), y=x, nm=x, p=self.pose())
                self.objs.append(x)
        elif c < 93:
            self.op("fupc", x=rng.choice(self.objs), b=rng.random() < .6)
        elif c < 95:
            x, p = rng.choice(self.objs), rng.choice(self.models() + self.bare)
            self.op("att", p=p, x=x)
            self.pairs.append((p, x))
        elif c < 97 and self.pairs:
            p, x = rng.choice(self.pairs)
            self.op("det", p=p, x=x)
        elif c < 98 and len(self.objs) < 7:
            x = "o%d" % self.k
            self.k += 1
            self.op("oclonef", x=rng.choice(self.objs), y=x, nm=x)
            self.objs.append(x)
        elif self.rob and rng.random() < .5:
            x = rng.choice(self.objs)
            n = rng.choice(self.rob["names"])
            if "R/" + x not in self.rob["with"] and x not in [c for _, c in self.pairs]:
                self.op("fatt", r="R", n="R/" + n, x=x, p=rpose(rng, 40, 1))
                self.rob["with"].append("R/" + x)


def c09(ctx):
    ctx.build(["scn"], ["VirtualRobot"])
    ctx.mc("MC_Collide", "MC_Collide" + ctx.scale("", "_deep"), timeout=1500)
    ctx.mc("MC_Collide", "MC_Collide_geo", timeout=1500)
    batch(ctx, "specified", [strip(h) for h in ctx.sim("MC_Collide", "MC_Collide_sim", ctx.scale(24, 300), 52)], "CollideTrace", sig=SIG)
    rng, scr = ctx.rng("col"), []
    for i in range(ctx.scale(70, 700)):
        g = ColGen(ctx, rng, i)
        for _ in range(ctx.scale(60, 100)):
            g.step()
        scr.append(g.ev)
    # managers of several sets far apart: every pair may be the closest one
    for i in range(ctx.scale(24, 240)):
        g = ColGen(ctx, rng, 2000 + i, wide=True)
        for m in g.mans:
            for s in rng.sample(sorted(g.sets), rng.randrange(2, 5)):
                g.op("madd", m=m, k="s", x=s)
            if rng.random() < .3:
                g.op("madd", m=m, k="o", x=rng.choice(g.objs))
        for _ in range(12):
            g.op("mdists", m=rng.choice(g.mans), s=rng.choice(sorted(g.sets)), w=rng.random() < .8)
            g.op("mdist", m=rng.choice(g.mans), w=rng.random() < .8)
            f = rng.choice([("s", "s"), ("or", "s"), ("m", "s"), ("s", "m")])
            (k, a), (l, b) = g.operand(f[0]), g.operand(f[1])
            if f != ("s", "m"):
                g.op("cd", k=k, a=a, l=l, b=b, w=True)
            g.op("mcol", m=rng.choice(g.mans))
            for _ in range(rng.randrange(1, 4)):
                g.op("move", x=rng.choice(g.objs), p=g.pose())
        scr.append(g.ev)
    per = 5
    for k in range(0, len(scr), per):
        ctx.add("collisions-%d" % (k // per), "scn", [e for s in scr[k:k + per] for e in s], SIG, "CollideTrace", ctx.prop)
    ctx.run()
