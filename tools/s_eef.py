"""Suite on end effectors (C14)."""
import os
from framework import parse_sig
from gen_robots import rpose
from s_col import rotation
from s_scene import strip, I

SIG = parse_sig("""
reset
robot r:s file:s
newo x:s p:P m:L
move x:s p:P
oset s:s xs:S
q r:s n:s v:i
rpose r:s p:P
mv r:s e:s a:s s:i
mvc r:s e:s a:s k:s o:s s:i
close r:s e:s k:s o:s s:i
open r:s e:s k:s o:s s:i
pre r:s e:s nm:s
rpre r:s e:s nm:s m:M
hito r:s e:s a:s k:s o:s mode:i c:b
hitn r:s e:s a:s r2:s n:s mode:i c:b
hita r:s e:s a:s r2:s e2:s b:s c:b
hite r:s e:s a:s r2:s e2:s c:b
stat r:s e:s o:s v:V d:i
info r:s e:s ns:S
eefrob r:s e:s x:s
""")
AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
RAD = 1.5707963267948966


class HandGen:
    def __init__(self, ctx, rng, i):
        self.ctx, self.rng, self.i, self.ev = ctx, rng, i, [{"op": "reset"}]
        self.g = rng.choice([16, 16, 16, 8, 4])          # grid of all positions
        self.objs, self.sets, self.hands, self.robots, self.cls = [], [], {}, {}, 0
        self.robot("R", rng.choice([1, 1, 1, 2]))
        if rng.random() < .25:
            self.robot("Q", 1)
        for _ in range(rng.randrange(1, 4)):
            self.new()
        self.newset()

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def size(self, big=2):
        """half extents whose surfaces keep a distance on the coarse grid"""
        self.cls += 1
        c = [1, 3, 5, 7][self.cls % 4]
        return [c + 16 * self.rng.randrange(0, big) if c + 16 * 0 > 1 or True else c for _ in range(3)]

    def pose(self, k=3):
        p = rpose(self.rng, 1, 1)
        return p[:9] + [self.g * self.rng.randrange(-k, k + 1) for _ in range(3)]

    def node(self, d, name, par, typ, ax, loc, lo, hi, box=None, prop=None):
        d["nodes"][name] = {"par": par, "typ": typ, "ax": ax if typ != "fixed" else [0, 0, 0], "lo": lo, "hi": hi, "free": False, "enf": True, "off": 0, "loc": loc}
        d["prop"][name] = dict(prop or {}, _=0)
        if box:
            d["boxes"][name] = box
        d["order"].append(name)

    def hand(self, d, e, at, n):
        """fingers around a palm that close towards its centre"""
        rng, g = self.rng, self.g
        P = lambda s: "%s%s" % (e, s)
        self.node(d, P("palm"), at, rng.choice(["fixed", "fixed", "rev"]), [0, 0, 1], self.pose(2), -190, 190, self.size() + [25 * v for v in I[:9]] + [0, 0, g * rng.choice([-3, -2, 0])] if rng.random() < .8 else None)
        self.node(d, P("tcp"), P("palm"), "fixed", None, I[:9] + [0, 0, 2 * g], 0, 0)
        acts, stat = [], [P("palm")]
        sides = [([1, 0, 0]), ([-1, 0, 0]), ([0, 1, 0]), ([0, -1, 0])]
        rng.shuffle(sides)
        for f in range(n):
            s = sides[f % 4]
            far = rng.randrange(3, 9)
            pos = [far * g * x for x in s]
            pos[2] += g * rng.choice([0, 0, 1, 2])
            a = P("f%d" % f)
            nd, par, first = [], P("palm"), True
            for j in range(rng.choice([1, 1, 2, 2, 3])):
                nn = "%s_%d" % (a, j)
                loc = I[:9] + pos if first else I[:9] + [g * rng.randrange(-2, 3) for _ in range(2)] + [g * rng.randrange(1, 4)]
                if rng.random() < .7:
                    ax = [-x for x in s] if first else rng.choice([[-x for x in s], s, [0, 0, 1], [0, 0, -1]])
                    k = g * rng.choice([1, 1, 2]) * rng.choice([1, 1, 1, -1])
                    lo, hi = -g * rng.randrange(0, 5), g * rng.randrange(2, 11)
                    if k < 0:
                        lo, hi = -hi, -lo
                    if rng.random() < .3:
                        lo, hi = lo - 3, hi + 5
                    self.node(d, nn, par, "pris", ax, loc, min(lo, 0), max(hi, 0), None)
                else:
                    k = 90 * rng.choice([1, 1, 1, 2, -1])
                    self.node(d, nn, par, "rev", rng.choice(AX), loc, *rng.choice([(-100, 100), (-10, 100), (-100, 190), (-190, 10)]))
                if rng.random() < .9:
                    d["boxes"][nn] = self.size() + [25 * v for v in I[:9]] + [0, 0, 0]
                col = rng.choice([3, 3, 3, 3, 1, 2, 0])
                nd.append({"n": nn, "dir": k, "col": col})
                par, first = nn, False
            if rng.random() < .2:      # a joint that follows but is not part of the actor
                m = P("t%d" % f)
                self.node(d, m, par, "pris", [0, 0, 1], I[:9] + [0, 0, g], -50 * g, 50 * g, self.size() + [25 * v for v in I[:9]] + [0, 0, 0])
                src = nd[0]["n"]
                if d["nodes"][src]["typ"] == "pris":
                    d["prop"][src][m] = rng.choice([1, -1, 2])
            acts.append({"nm": a, "nd": nd})
        if rng.random() < .4:
            m = P("stat")
            self.node(d, m, P("palm"), "fixed", None, I[:9] + [g * rng.randrange(-2, 3) for _ in range(3)], 0, 0, self.size() + [25 * v for v in I[:9]] + [0, 0, 0])
            stat.append(m)
        if rng.random() < .2:
            stat = stat[1:]
        joints = [x["n"] for a in acts for x in a["nd"]]
        pre = {}
        for k in range(rng.randrange(0, 3)):
            pre["p%d" % k] = self.config(d, rng.sample(joints, rng.randrange(0, len(joints) + 1)))
        d["eefs"][e] = {"act": acts, "stat": stat, "base": P("palm"), "tcp": P("tcp"), "gcp": P("tcp") if rng.random() < .7 else P("palm"), "pre": dict(pre, _=0)}

    def value(self, n, t):
        if n["typ"] == "rev":
            return self.rng.choice([-180, -90, 0, 90, 180, 270])
        return self.g * self.rng.randrange(-4, 8) if self.rng.random() < .95 else 9999

    def config(self, d, ns):
        return dict({n: self.value(d["nodes"][n], 0) for n in ns}, _=0)

    def robot(self, r, n):
        rng = self.rng
        d = {"nodes": {}, "prop": {}, "boxes": {}, "eefs": {}, "order": []}
        self.node(d, "root", "", "fixed", None, I, 0, 0)
        self.node(d, "arm", "root", rng.choice(["rev", "pris"]), [0, 0, 1], I, -9000 if rng.random() < 2 else 0, 9000, self.size() + [25 * v for v in I[:9]] + [0, 0, -5 * self.g] if rng.random() < .4 else None)
        for k in range(n):
            self.hand(d, "AB"[k], "arm", rng.choice([1, 2, 2, 2, 3, 4]))
        f = os.path.join(self.ctx.scratch, "hand%d%s.xml" % (self.i, r))
        open(f, "w").write(self.xml(d))
        for k in d["nodes"]:
            d["nodes"][k]["loc"] = list(d["nodes"][k]["loc"])
        order = d.pop("order")
        for x in ("nodes", "prop", "boxes", "eefs"):
            d[x]["_"] = 0
        self.op("robot", r=r, file=f, **d)
        self.robots[r] = d
        self.hands.update({(r, e): d["eefs"][e] for e in d["eefs"] if e != "_"})

    def xml(self, d):
        o = ["<Robot Type='Hands' RootNode='root'>"]
        for k in d["order"]:
            n = d["nodes"][k]
            p = n["loc"]
            o.append("<RobotNode name='%s'><Transform><Matrix4x4>%s<row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4></Transform>" % (
                k, "".join("<row%d c1='%d' c2='%d' c3='%d' c4='%d'/>" % (q + 1, p[3 * q], p[3 * q + 1], p[3 * q + 2], p[9 + q]) for q in range(3))))
            pr = "".join("<PropagateJointValue name='%s' factor='%d'/>" % (t, f) for t, f in d["prop"][k].items() if t != "_")
            if n["typ"] == "rev":
                o.append("<Joint type='revolute'><Limits lo='%d' hi='%d' units='degree'/><Axis x='%d' y='%d' z='%d'/>%s</Joint>" % (n["lo"], n["hi"], *n["ax"], pr))
            elif n["typ"] == "pris":
                o.append("<Joint type='prismatic'><Limits lo='%d' hi='%d' units='mm'/><TranslationDirection x='%d' y='%d' z='%d'/>%s</Joint>" % (n["lo"], n["hi"], *n["ax"], pr))
            if k in d["boxes"]:
                h, c = d["boxes"][k][:3], d["boxes"][k][12:]
                # the box is moved by giving it to an extra node only when it has an offset
                if c == [0, 0, 0]:
                    o.append("<CollisionModel><Primitives><Box width='%d' height='%d' depth='%d'/></Primitives></CollisionModel>" % (2 * h[0], 2 * h[1], 2 * h[2]))
                else:
                    o.append("<CollisionModel><Primitives><Box width='%d' height='%d' depth='%d'><Transform><Translation x='%d' y='%d' z='%d'/></Transform></Box></Primitives></CollisionModel>" % (2 * h[0], 2 * h[1], 2 * h[2], *c))
            o += ["<Child name='%s'/>" % c for c in d["order"] if d["nodes"][c]["par"] == k] + ["</RobotNode>"]
        unit = lambda n, v: ("radian", "%.9f" % (v / 90 * RAD)) if d["nodes"][n]["typ"] == "rev" else ("mm", "%d" % v)
        for e, x in d["eefs"].items():
            o.append("<EndEffector name='%s' base='%s' tcp='%s' gcp='%s'>" % (e, x["base"], x["tcp"], x["gcp"]))
            for p, m in x["pre"].items():
                if p != "_":
                    o.append("<Preshape name='%s'>%s</Preshape>" % (p, "".join("<Node name='%s' unit='%s' value='%s'/>" % (n, *unit(n, v)) for n, v in m.items() if n != "_")))
            if x["stat"]:
                o.append("<Static>%s</Static>" % "".join("<Node name='%s'/>" % s for s in x["stat"]))
            for a in x["act"]:
                o.append("<Actor name='%s'>" % a["nm"])
                for n in a["nd"]:
                    v = n["dir"] / 90 * RAD if d["nodes"][n["n"]]["typ"] == "rev" else n["dir"]
                    o.append("<Node name='%s' considerCollisions='%s' direction='%.9f'/>" % (n["n"], ["None", "Actors", "Static", "All"][n["col"]], v))
                o.append("</Actor>")
            o.append("</EndEffector>")
        return "\n".join(o + ["</Robot>"])

    def new(self):
        x = "o%d" % len(self.objs)
        m = []
        for _ in range(self.rng.choice([1, 1, 1, 2])):
            m += self.size(3) + rotation(self.rng, 1) + [self.g * self.rng.randrange(-1, 2) for _ in range(3)]
        self.op("newo", x=x, p=self.pose(3), m=m if self.rng.random() < .95 else [])
        self.objs.append((x, bool(self.ev[-1]["m"])))

    def newset(self):
        s = "S%d" % len(self.sets)
        self.op("oset", s=s, xs=[x for x, _ in self.rng.sample(self.objs, self.rng.randrange(0, len(self.objs) + 1))])
        self.sets.append(s)

    def about(self):
        c = self.rng.random()
        if c < .25:
            return "-", "-"
        if c < .65:
            return "o", self.rng.choice(self.objs)[0]
        return "s", self.rng.choice(self.sets)

    def step(self):
        rng = self.rng
        r, e = rng.choice(sorted(self.hands))
        h, d = self.hands[(r, e)], self.robots[r]
        a = rng.choice(h["act"])["nm"]
        c = rng.randrange(100)
        st = rng.choice([1, 1, 1, 1, 2])
        k, o = self.about()
        if c < 26:
            if rng.random() < .45:
                self.op("open", r=r, e=e, k="-", o="-", s=1)
                if rng.random() < .5:
                    self.op("move", x=rng.choice(self.objs)[0], p=self.pose(2))
            self.op("close", r=r, e=e, k=k, o=o, s=st)
        elif c < 34:
            self.op("open", r=r, e=e, k=rng.choice(["-", k]) if k == "-" else k, o=o, s=st) if rng.random() < .6 else self.op("open", r=r, e=e, k="-", o="-", s=st)
        elif c < 38:
            self.op("mv", r=r, e=e, a=a, s=rng.choice([1, -1, 2]))
        elif c < 46:
            self.op("mvc", r=r, e=e, a=a, k=k, o=o, s=rng.choice([1, 1, -1]))
        elif c < 50:
            self.op("pre", r=r, e=e, nm=rng.choice(["p0", "p1", "p9"]))
        elif c < 52:
            nm = rng.choice(["p0", "p1", "x"])
            js = [n["n"] for a in h["act"] for n in a["nd"]]
            m = {n: self.value(d["nodes"][n], 0) for n in rng.sample(js, rng.randrange(0, len(js) + 1))}
            self.op("rpre", r=r, e=e, nm=nm, m=dict(m))
        elif c < 60:
            js = [n for n in d["nodes"] if n != "_" and d["nodes"][n]["typ"] != "fixed" and not any(n in p for p in d["prop"].values() if p)]
            n = rng.choice(js)
            self.op("q", r=r, n=n, v=self.value(d["nodes"][n], 0))
        elif c < 63:
            self.op("rpose", r=r, p=self.pose(1))
        elif c < 72:
            self.op("move", x=rng.choice(self.objs)[0], p=self.pose(3))
        elif c < 74 and len(self.objs) < 5:
            self.new()
        elif c < 76 and len(self.sets) < 4:
            self.newset()
        elif c < 81:
            if k != "-":
                self.op("hito", r=r, e=e, a=a, k=k, o=o, mode=rng.choice([3, 3, 1, 2]), c=rng.random() < .5, full=True)
        elif c < 84:
            r2 = rng.choice(sorted(self.robots))
            ns = [n for n in self.robots[r2]["nodes"] if n != "_"]
            self.op("hitn", r=r, e=e, a=a, r2=r2, n=rng.choice(ns), mode=rng.choice([3, 1, 2]), c=rng.random() < .5, full=True)
        elif c < 89:
            r2, e2 = rng.choice(sorted(self.hands))
            b = rng.choice(self.hands[(r2, e2)]["act"])["nm"]
            if (r2, e2, b) != (r, e, a):
                self.op("hita", r=r, e=e, a=a, r2=r2, e2=e2, b=b, c=rng.random() < .5, full=False)
        elif c < 92:
            r2, e2 = rng.choice(sorted(self.hands))
            self.op("hite", r=r, e=e, a=a, r2=r2, e2=e2, c=rng.random() < .5, full=False)
        elif c < 95:
            o = [x for x, m in self.objs if m]
            if o:
                self.op("stat", r=r, e=e, o=rng.choice(o), v=rng.choice(AX), d=rng.choice([3, 10, 40, 80]))
        elif c < 98:
            ns = [n for n in d["nodes"] if n != "_"]
            need = [n["n"] for a in h["act"] for n in a["nd"]] + [h["base"], h["tcp"], h["gcp"]]
            self.op("info", r=r, e=e, ns=sorted(set(need)) if rng.random() < .5 else rng.sample(ns, rng.randrange(1, len(ns) + 1)))
        elif len(self.robots) < 4 and r in ("R", "Q"):
            x = "E%d" % len(self.robots)
            self.op("eefrob", r=r, e=e, x=x)
            keep = {h["base"]}
            for n in [n for n in d["nodes"] if n != "_"]:
                if d["nodes"][n]["par"] in keep:
                    keep.add(n)
            self.robots[x] = {"nodes": {n: d["nodes"][n] for n in keep}, "prop": {n: d["prop"][n] for n in keep}}
            self.hands[(x, e)] = h


def model(ctx):
    """the hand of MC_Hands.tla"""
    at = lambda x, y, z: I[:9] + [x, y, z]
    nd = lambda par, typ, ax, loc, lo, hi: {"par": par, "typ": typ, "ax": ax, "lo": lo, "hi": hi, "free": False, "enf": True, "off": 0, "loc": loc}
    bx = lambda *h: list(h) + [25 * v for v in I[:9]] + [0, 0, 0]
    d = {"nodes": {"root": nd("", "fixed", [0, 0, 0], list(I), 0, 0), "palm": nd("root", "fixed", [0, 0, 0], at(0, 0, 0), 0, 0),
                   "l0": nd("palm", "pris", [1, 0, 0], at(-96, 0, 32), -32, 160), "l1": nd("l0", "rev", [0, 1, 0], at(0, 0, 48), -10, 100),
                   "r0": nd("palm", "pris", [-1, 0, 0], at(96, 0, 32), 0, 160), "s0": nd("palm", "pris", [0, 0, 1], at(0, 0, -64), -16, 80)},
         "boxes": {"palm": bx(33, 19, 5), "l0": bx(3, 5, 7), "l1": bx(5, 7, 35), "r0": bx(7, 19, 33), "s0": bx(5, 5, 5)}}
    d["order"] = list(d["nodes"])
    d["prop"] = {n: {"_": 0} for n in d["nodes"]}
    a = lambda nm, *ns: {"nm": nm, "nd": [{"n": n, "dir": k, "col": c} for n, k, c in ns]}
    d["eefs"] = {"hand": {"act": [a("left", ("l0", 16, 3), ("l1", 90, 3)), a("right", ("r0", 16, 3)), a("stem", ("s0", 16, 1))],
                          "stat": ["palm"], "base": "palm", "tcp": "palm", "gcp": "palm", "pre": {"wide": {"l0": -32, "r0": 0, "l1": 0, "_": 0}, "_": 0}}}
    f = os.path.join(ctx.scratch, "handmodel.xml")
    open(f, "w").write(HandGen.xml(None, d))
    del d["order"]
    for x in ("nodes", "prop", "boxes", "eefs"):
        d[x]["_"] = 0
    far = at(0, 0, 400)
    return [{"op": "reset"}, dict({"op": "robot", "r": "H", "file": f}, **d), {"op": "newo", "x": "a", "p": far, "m": bx(17, 17, 23)}, {"op": "newo", "x": "b", "p": far, "m": bx(5, 23, 17)},
            {"op": "oset", "s": "S", "xs": ["a", "b"]}]


def c14(ctx):
    head = model(ctx)
    ctx.build(["eef"], ["VirtualRobot"])
    ctx.mc("MC_Hands", "MC_Hands" + ctx.scale("", "_deep"), timeout=1500)
    rng, scr = ctx.rng("hands"), []
    for h in ctx.sim("MC_Hands", "MC_Hands_sim", ctx.scale(16, 200), 20):
        scr.append(head + strip(h))
    for i in range(ctx.scale(100, 1200)):
        g = HandGen(ctx, rng, i)
        for _ in range(ctx.scale(24, 40)):
            g.step()
        scr.append(g.ev)
    per = 6
    for k in range(0, len(scr), per):
        ctx.add("hands-%d" % (k // per), "eef", [e for s in scr[k:k + per] for e in s], SIG, "HandsTrace", ctx.prop)
    ctx.run()
