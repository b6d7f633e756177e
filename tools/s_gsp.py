"""Suites on grasp planning (C23) and grasp quality (C24)."""
import os
from framework import parse_sig
from gen_robots import rpose
from s_scene import strip, I
from s_eef import HandGen

SIG = parse_sig("""
reset
newo x:s p:P m:L
move x:s p:P
robot f:s e:s
obst xs:S
gen o:s pre:s ret:i area:b
planner mu:i n:i q:i fc:b gs:s
rpose p:P
q n:s v:i
oset p:P
bset p:P
oupd v:V
oupm m:P
open
surf k:i
app
rand
par q:i fc:b
retr b:b
clr
rmg
pg o:b
plan n:i t:i o:b
hull how:s l:L
cone n:i mu:i uf:i force:i p:V nn:V
qreset
qnew x:s o:s uf:i mu:i n:i
wrench l:L c:V len:i
qset x:s l:L
qinf x:s l:L
qpre x:s d:i v:i
qask x:s full:b
""")
AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
AT = lambda x, y, z: I[:9] + [x, y, z]


def nd(d, name, par, typ, ax, loc, lo=0, hi=0, box=None):
    d["nodes"][name] = {"par": par, "typ": typ, "ax": ax or [0, 0, 0], "lo": lo, "hi": hi, "loc": loc}
    d["prop"][name] = {"_": 0}
    if box:
        d["boxes"][name] = box[:3] + [25 * v for v in I[:9]] + box[3:]
    d["order"].append(name)


class GraspGen:
    """a hand on an arm, an object of boxes and obstacles; poses on the lattice until the generator moves the hand"""

    def __init__(self, ctx, rng, i, **kw):
        self.ctx, self.rng, self.i, self.ev = ctx, rng, i, [{"op": "reset"}]
        self.kw = kw
        self.scene()

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def pose(self, k=300):
        return rpose(self.rng, 1, 1)[:9] + [self.rng.randrange(-k, k + 1) for _ in range(3)]

    def scene(self):
        rng, kw = self.rng, self.kw
        d = {"nodes": {}, "prop": {}, "boxes": {}, "eefs": {}, "order": []}
        nd(d, "root", "", "fixed", None, AT(0, 0, 0))
        nd(d, "arm", "root", "pris", rng.choice(AX), rpose(rng, 1, 1)[:9] + [0, 0, 0], -500, 500, [4, 4, 4, 0, 0, 0] if rng.random() < .5 else None)
        w = rng.choice([20, 30, 40])
        good = kw.get("good", rng.random() < .6)        # a hand that fits the object
        nd(d, "palm", "arm", "fixed", None, self.pose(60), 0, 0, [w, w, 4, 0, 0, -4])
        reach = rng.choice([20, 30, 45])
        nd(d, "gcp", "palm", "fixed", None, (I[:9] if rng.random() < .7 else rpose(rng, 1, 1)[:9]) + [0, 0, rng.randrange(5, reach) if not good else reach + 5])
        nd(d, "tcp", "palm", "fixed", None, self.pose(30))
        nd(d, "tool", rng.choice(["palm", "gcp"]), "fixed", None, self.pose(40))
        sides = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0]]
        if rng.random() < .5 and not good:
            rng.shuffle(sides)
        n = kw.get("fingers", rng.choice([1, 2, 2, 2, 3, 4]) if not good else rng.choice([2, 2, 4]))
        acts, js = [], []
        for f in range(n):
            s = sides[f]
            f0 = "f%d" % f
            hi = w + rng.choice([-3, 2, 10])
            th, wd = 4, rng.choice([6, 9])
            nd(d, f0, "palm", "pris", [-x for x in s], I[:9] + [(w + th + 1) * x for x in s[:2]] + [0], -rng.choice([0, 30]), hi,
               ([th, wd] if s[0] else [wd, th]) + [reach, 0, 0, reach])
            acts.append({"nm": "a%d" % f, "nd": [{"n": f0, "dir": rng.choice([100, 250]), "col": 3}]})
            js.append(f0)
            if rng.random() < .3:
                nd(d, f0 + "t", f0, "pris", [-x for x in s], I[:9] + [0, 0, 2 * reach + 6], 0, 8, ([th, wd] if s[0] else [wd, th]) + [5, 0, 0, 0])
                acts[-1]["nd"].append({"n": f0 + "t", "dir": 50, "col": 3})
                js.append(f0 + "t")
        pre = {}
        for k in range(rng.randrange(1, 3)):
            pre["p%d" % k] = dict({j: rng.randrange(d["nodes"][j]["lo"], min(6, d["nodes"][j]["hi"])) for j in rng.sample(js, rng.randrange(0, len(js) + 1))}, _=0)
        e = {"act": acts, "stat": ["palm"] if rng.random() < .5 else [], "base": "palm", "tcp": "tcp", "gcp": "gcp", "pre": dict(pre, _=0)}
        d["eefs"]["hand"] = e
        ptcp = {p: rng.choice(["", "", "tool"]) for p in pre}
        f = os.path.join(self.ctx.scratch, "gr%d.xml" % self.i)
        x = HandGen.xml(None, d).replace("<Robot Type='Hands'", "<Robot Type='Grabber'")
        for p, t in ptcp.items():
            if t:
                x = x.replace("<Preshape name='%s'>" % p, "<Preshape name='%s' tcp='%s'>" % (p, t))
        open(f, "w").write(x)
        size = lambda: [rng.choice([8, 12, 15, 19, 27] if not good else [8, 10, 13]) for _ in range(3)]
        m = kw.get("m")
        if not m:
            m = size() + [rng.randrange(-30, 31) for _ in range(3)]
            if rng.random() < .35:      # a second block; the object is no longer convex
                m += [rng.choice([30, 50]), rng.choice([30, 50]), 3] + [m[3], m[4], m[5] + m[2] + rng.choice([5, 40, 90])]
        at = I if rng.random() < .3 or kw.get("fixed") else self.pose(400)
        self.op("newo", x="o", p=at, m=m)
        if kw.get("fixed"):
            self.op("newo", x="b0", p=AT(4000, 0, 0), m=[30, 30, 30, 0, 0, 0])
        for k in range(rng.randrange(0, 4) if not kw.get("fixed") else 0):
            near = rng.random() < .5
            h = [rng.choice([10, 60, 200]) for _ in range(3)]
            self.op("newo", x="b%d" % k, p=(at[:9] + [at[9 + q] + rng.randrange(-200, 201) for q in range(3)]) if near else self.pose(500), m=h + [0, 0, 0])
        obs = ["b%d" % k for k in range(3) if any(e.get("x") == "b%d" % k for e in self.ev)]
        self.obs = obs
        kf = lambda m: dict({k: v for k, v in m.items()}, _=0)
        self.op("robot", f=f, e="hand", rt="Grabber", jn=sorted(k for k in d["nodes"] if d["nodes"][k]["typ"] != "fixed"), hj=sorted(js),
                lo=dict({j: d["nodes"][j]["lo"] for j in js}, _=0), pre=dict({p: kf(v) for p, v in pre.items()}, _=0), ptcp=dict(ptcp, _=0))
        if rng.random() < .7:
            self.op("rpose", p=self.pose(300))
        self.op("obst", xs=obs)
        p = rng.choice(["-", "-"] + sorted(pre)) if not kw.get("fixed") else "-"
        if "pre" in kw and kw["pre"]:
            p = sorted(pre)[0]
        self.ret = rng.choice([0, 0, 20, 100])
        self.op("gen", o="o", pre=p, ret=kw.get("ret", self.ret), area=kw.get("area", rng.random() < .4))
        self.q, self.fc = rng.choice([0, 0, 0, 100, 5000]), rng.random() < .4
        if "q" in kw:
            self.q, self.fc = kw["q"], False
        self.op("planner", mu=rng.choice([25, 50, 75]), n=rng.choice([4, 8]), q=self.q, fc=self.fc, gs="set")

    def step(self):
        rng = self.rng
        c = rng.randrange(100)
        if c < 12:
            self.op("oset" if rng.random() < .6 else "bset", p=self.pose(300))
        elif c < 22:
            self.op("oupd", v=[rng.randrange(-90, 91) for _ in range(3)])
        elif c < 30:
            self.op("oupm", m=self.pose(50))
        elif c < 36:
            self.op("open")
        elif c < 42:
            self.op("surf", k=6)
        elif c < 54:
            self.op("app")
        elif c < 60:
            self.op("rand")
        elif c < 64:
            self.op("rpose", p=self.pose(300))
        elif c < 68:
            self.op("q", n=rng.choice(["arm", "f0"]), v=rng.randrange(0, 9))
        elif c < 73:
            self.op("move", x=rng.choice(["o", "o"] + self.obs), p=self.pose(300))
        elif c < 76:
            self.q, self.fc = rng.choice([0, 0, 100, 900]), rng.random() < .4
            self.op("par", q=self.q, fc=self.fc)
        elif c < 78:
            self.op("retr", b=rng.random() < .5)
        elif c < 80:
            self.op("clr")
        elif c < 96:
            self.op("pg", o=rng.random() < .6)
        else:
            self.op("plan", n=rng.randrange(0, 3), t=rng.choice([40, 120]), o=rng.random() < .5)


def area_scene(ctx, rng, i):
    """an object with one block that has next to nothing of the surface"""
    big = 8000 + rng.randrange(100)
    g = GraspGen(ctx, rng, i, m=[big, big, big, 0, 0, 0, 1, 1, 1, 0, 0, big + 300], area=i % 2 == 0, fingers=2)
    g.op("surf", k=60, apart=True)
    g.op("move", x="o", p=g.pose(100))
    g.op("surf", k=60, apart=True)
    return g.ev


def sure(ctx, rng, i):
    """a hand that fits its object: without a time limit every grasp asked for is found"""
    return GraspGen(ctx, rng, i, m=[12, 12, 12, 0, 0, 0], area=False, fingers=4, good=True, q=0, fixed=True, ret=0)


def c23(ctx):
    ctx.mc("MC_GraspPlan", "MC_GraspPlan" + ctx.scale("", "_deep"), timeout=900)
    ctx.build(["gsp"], ["GraspStudio", "VirtualRobot"])
    rng, scr = ctx.rng("grasps"), []
    for i in range(ctx.scale(4, 16)):
        scr.append(area_scene(ctx, rng, i))
    for i, h in enumerate(ctx.sim("MC_GraspPlan", "MC_GraspPlan_sim", ctx.scale(16, 150), 16)):
        scr.append(sure(ctx, rng, 2000 + i).ev + strip(h))
    for i in range(ctx.scale(110, 900)):
        g = GraspGen(ctx, rng, 100 + i)
        for _ in range(ctx.scale(22, 30)):
            g.step()
        scr.append(g.ev)
    per = 4
    for k in range(0, len(scr), per):
        ctx.add("grasps-%d" % (k // per), "gsp", [e for s in scr[k:k + per] for e in s], SIG, "GraspPlanTrace", ctx.prop)
    ctx.run()


NRM = [[a, b, c] for a, b, c in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 2), (2, 1, 2), (2, 3, 6), (4, 4, 7), (3, 4, 0), (0, 3, 4)]]


class QualityGen:
    def __init__(self, rng):
        self.rng, self.ev = rng, [{"op": "qreset"}]
        self.box, self.ms = {}, {}
        for k in range(rng.choice([1, 1, 2])):
            o = "o%d" % k
            h = [rng.choice([10, 20, 40, 50]) for _ in range(3)]
            c = [rng.randrange(-40, 41) for _ in range(3)]
            if rng.random() < .4:
                c = [0, 0, 0]
            self.op("newo", x=o, p=rpose(rng, 1, 1)[:9] + [rng.randrange(-200, 200) for _ in range(3)], m=h + c)
            self.box[o] = (h, c)
        for k in range(rng.choice([1, 2, 2])):
            m, o = "m%d" % k, rng.choice(sorted(self.box))
            old = [x for x in self.ms.values() if x[0] == o]
            mu, n = (old[0][1], old[0][2]) if old and rng.random() < .7 else (rng.choice([25, 50, 75, 100, 200]), rng.choice([3, 3, 4]))
            self.op("qnew", x=m, o=o, uf=rng.choice([10, 10, 20]), mu=mu, n=n)
            self.ms[m] = (o, mu, n, [])

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def normal(self):
        v = list(self.rng.choice(NRM))
        self.rng.shuffle(v)
        return [x * self.rng.choice([1, -1]) for x in v]

    def contact(self, o):
        h, c = self.box[o]
        rng = self.rng
        k, s = rng.randrange(3), rng.choice([1, -1])
        p = [c[x] + (s * h[x] if x == k else rng.choice([0, 0, rng.randrange(-h[x], h[x] + 1)])) for x in range(3)]
        return p + ([s if x == k else 0 for x in range(3)] if rng.random() < .8 else self.normal())

    def step(self):
        rng = self.rng
        c = rng.randrange(100)
        if c < 30:
            n = rng.choice([0, 2, 3, 4, 5, 6, 8, 10])
            q = rng.choice([2, 5, 9])
            l = [[rng.randrange(-q, q + 1) for _ in range(3)] for _ in range(n)]
            if rng.random() < .25:      # a brick: coplanar points in every face
                x, y, z = [rng.randrange(1, 9) for _ in range(3)]
                l = [[a * x, b * y, d * z] for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)] + l[:2]
                rng.shuffle(l)
            elif rng.random() < .1:
                l = [[a, b, 3] for a, b, _ in l]
            self.op("hull", how=rng.choice(["pts", "pts", "nolock", "mesh"]), l=[v for p in l for v in p])
        elif c < 42:
            self.op("cone", n=rng.choice([1, 2, 3, 4, 6, 8, 12]), mu=rng.choice([0, 25, 50, 75, 100, 200]), uf=rng.choice([10, 10, 20, 5]), force=rng.choice([10, 10, 20, 5, 0 + 10]),
                    p=[rng.randrange(-50, 51) for _ in range(3)], nn=self.normal())
        elif c < 50:
            l = []
            for _ in range(rng.randrange(0, 4)):
                l += [rng.randrange(-9, 10) for _ in range(6)]
            self.op("wrench", l=l, c=[rng.randrange(-5, 6) for _ in range(3)], len=rng.choice([0, 1000, 2000, 500, 100]))
        else:
            m = rng.choice(sorted(self.ms))
            o, mu, n, cs = self.ms[m]
            if c < 70:
                w = rng.random()
                pool = [x for k in self.ms.values() if k[0] == o for x in k[3]]
                if w < .12:
                    cs = []
                elif w < .35 and pool:
                    cs = rng.sample(pool, rng.randrange(1, min(len(pool), 4) + 1))
                elif w < .55 and cs:
                    cs = (cs + [self.contact(o)])[-4:]
                    rng.shuffle(cs)
                else:
                    cs = [self.contact(o) for _ in range(rng.choice([1, 2, 3, 3, 4]))]
                cs = [list(x) for x in sorted(set(map(tuple, cs)))]
                rng.shuffle(cs)
                self.ms[m] = (o, mu, n, cs)
                self.op(rng.choice(["qset", "qinf"]), x=m, l=[v for x in cs for v in x])
            if c >= 68 and c < 93:
                self.op("qask", x=m, full=len(cs) in (2, 3) and n == 3 and rng.random() < .5 or rng.random() < .08)
            elif c >= 93 and c < 97:
                self.op("move", x=o, p=rpose(rng, 1, 1)[:9] + [rng.randrange(-200, 200) for _ in range(3)])
            elif c >= 97:
                self.op("qpre", x=m, d=rng.choice([100, 350, 700]), v=rng.choice([10, 1000]))


def c24(ctx):
    ctx.build(["gsp"], ["GraspStudio", "VirtualRobot"])
    rng, scr = ctx.rng("wrench"), []
    for i in range(ctx.scale(96, 900)):
        g = QualityGen(rng)
        for _ in range(ctx.scale(30, 40)):
            g.step()
        scr.append(g.ev)
    per = 4
    for k in range(0, len(scr), per):
        ctx.add("wrench-%d" % (k // per), "gsp", [e for s in scr[k:k + per] for e in s], SIG, "WrenchTrace", ctx.prop)
    ctx.run()
