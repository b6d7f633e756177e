"""Suite on the physics world (C19)."""
import os
from framework import parse_sig
from gen_robots import rpose
from s_scene import strip, I

SIG = parse_sig("""
reset
obj x:s p:P h:L c:L t:i mesh:b
renew x:s
robot r:s file:s
wrap w:s r:s
add x:s
rem x:s
addr w:s
remr w:s
floor p:V u:V
off x:s y:s
on x:s y:s
off1 x:s
on1 x:s
resetc x:s
self w:s b:b
att w:s n:s x:s b:b
det w:s x:s b:b
pose x:s p:P
pos x:s v:V
rpose w:s p:P
typ x:s t:i
cb n:i
step dt:i k:i f:i
hits
getobj x:s
getrob r:s
act w:s n:s v:i b:b
actpv w:s n:s t:i v:i
actv w:s n:s v:i b:b
actt w:s n:s v:i b:b
actno w:s n:s
acton w:s m:i
actoff w:s
""")
AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
HALF = [33, 47, 71]


def robot_xml(name, nodes, order):
    o = ["<Robot Type='%s' RootNode='%s'>" % (name, order[0])]
    for k in order:
        n = nodes[k]
        p = n["loc"]
        o.append("<RobotNode name='%s'><Transform><Matrix4x4>%s<row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4></Transform>" % (
            k, "".join("<row%d c1='%d' c2='%d' c3='%d' c4='%d'/>" % (q + 1, p[3 * q], p[3 * q + 1], p[3 * q + 2], p[9 + q]) for q in range(3))))
        if n["typ"] == "rev":
            o.append("<Joint type='revolute'><Limits lo='-180' hi='180' units='degree'/><Axis x='%d' y='%d' z='%d'/></Joint>" % tuple(n["ax"]))
        elif n["typ"] == "pris":
            o.append("<Joint type='prismatic'><Limits lo='-500' hi='500' units='mm'/><TranslationDirection x='%d' y='%d' z='%d'/></Joint>" % tuple(n["ax"]))
        if n["mdl"]:
            o.append("<CollisionModel><Primitives><Box width='%d' height='%d' depth='%d'/></Primitives></CollisionModel>" % tuple(2 * h for h in n["h"]))
        o.append("<Physics><Mass value='1' units='kg'/>%s</Physics>" % "".join("<IgnoreCollision name='%s'/>" % i for i in n["ign"]))
        o += ["<Child name='%s'/>" % c for c in order if nodes[c]["par"] == k] + ["</RobotNode>"]
    return "\n".join(o + ["</Robot>"])


def node(par, typ, ax, loc, h=None, ign=()):
    return {"par": par, "typ": typ, "ax": ax if typ != "fixed" else [0, 0, 0], "loc": loc, "mdl": bool(h), "h": list(h or []), "ign": list(ign)}


class DynGen:
    def __init__(self, ctx, rng, i, kind):
        self.ctx, self.rng, self.i, self.kind, self.ev = ctx, rng, i, kind, [{"op": "reset"}]
        self.objs, self.robots, self.wr, self.floors = [], {}, {}, 0
        self.reg, self.regR, self.at = set(), [], []
        for _ in range(rng.randrange(1, 5)):
            self.new()
        for r in range(rng.choice([0, 1, 1, 2])):
            self.robot("R%d" % r)
        if kind == "calm" and rng.random() < .7:
            for _ in range(rng.randrange(1, 3)):
                self.op("cb", n=rng.randrange(1, 9))

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def grid(self):
        r = self.rng
        if self.kind == "calm":
            return [300 * r.randrange(-9, 10) for _ in range(3)]
        return [100 * r.randrange(-2, 3) for _ in range(3)]

    def pose(self):
        return rpose(self.rng, 1, 1)[:9] + self.grid()

    def half(self):
        return [self.rng.choice(HALF) for _ in range(3)]

    def new(self):
        x = "o%d" % len(self.objs)
        mesh = self.rng.random() < .2
        c = [self.rng.choice([-10, 5, 20]) for _ in range(3)] if self.rng.random() < .3 else []
        self.op("obj", x=x, p=self.pose(), h=self.half(), c=c, t=self.rng.choice([2, 2, 2, 1, 0]), mesh=mesh)
        self.objs.append(x)

    def robot(self, r):
        rng = self.rng
        n = rng.randrange(2, 7)
        nodes, order = {}, []
        for k in range(n):
            nm = "%s_%d" % (r, k)
            if k == 0:
                nodes[nm] = node("", "fixed", None, list(I), self.half() if rng.random() < .7 else None)
            else:
                par = rng.choice(order[-2:])
                d = rng.choice(AX[:5])
                typ = rng.choice(["rev", "rev", "pris", "fixed"])
                loc = rpose(rng, 1, 1)[:9] + [rng.choice([200, 200, 300, 0]) * v for v in d]
                nodes[nm] = node(par, typ, rng.choice(AX), loc, self.half() if rng.random() < .65 else None)
            order.append(nm)
        for nm in order:
            # (a joint without model that is ignored gets a body that nothing holds)
            if nodes[nm]["mdl"] and rng.random() < .2:
                nodes[nm]["ign"] = [rng.choice([o for o in order if o != nm and (nodes[o]["mdl"] or nodes[o]["typ"] == "fixed")] or [nm])]
        f = os.path.join(self.ctx.scratch, "dyn%d%s.xml" % (self.i, r))
        open(f, "w").write(robot_xml(r, nodes, order))
        d = {k: {x: v[x] for x in ("par", "typ", "loc", "mdl", "h", "ign")} for k, v in nodes.items()}
        d["_"] = 0
        self.op("robot", r=r, file=f, nodes=d)
        self.robots[r] = d
        for _ in range(1 if rng.random() < .75 else 2):
            self.wrap(r)

    def wrap(self, r):
        w = "w%d" % len(self.wr)
        self.op("wrap", w=w, r=r)
        self.wr[w] = r
        if self.rng.random() < .5:
            self.op("self", w=w, b=False)

    def bodies(self, w):
        """the nodes of a wrapper that have a body"""
        d = self.robots[self.wr[w]]
        ns = [n for n in d if n != "_"]
        res = {n for n in ns if d[n]["mdl"]}
        for n in list(res):
            p = d[n]["par"]
            while p and not d[p]["mdl"]:
                p = d[p]["par"]
            if not p:
                res.add(ns[0])
            res |= set(d[n]["ign"])
        return sorted(res)

    def thing(self):
        """something that has a body"""
        rng = self.rng
        if self.wr and rng.random() < .35:
            w = rng.choice(sorted(self.wr))
            b = self.bodies(w)
            if b:
                return w + "/" + rng.choice(b)
        if self.floors and rng.random() < .1:
            return "F%d" % rng.randrange(1, self.floors + 1)
        return rng.choice(self.objs)

    def joint(self, w):
        d = self.robots[self.wr[w]]
        js = [n for n in d if n != "_" and d[n]["typ"] != "fixed"]
        return self.rng.choice(js) if js else None

    def step(self):
        rng = self.rng
        c = rng.randrange(100)
        w = rng.choice(sorted(self.wr)) if self.wr else None
        x = rng.choice(self.objs)
        if c < 14:
            self.op("add", x=x)
            self.reg.add(x)
        elif c < 19:
            if not any(a[1] == x for a in self.at):
                self.op("rem", x=x)
                self.reg.discard(x)
        elif c < 27 and w:
            self.op("addr", w=w)
            if not any(self.wr[v] == self.wr[w] for v in self.regR):
                self.regR.append(w)
        elif c < 31 and w:
            if not any(a[0] == w for a in self.at):
                self.op("remr", w=w)
                if w in self.regR:
                    self.regR.remove(w)
        elif c < 33 and self.floors < 2:
            self.floors += 1
            u = rng.choice(AX + [[0, 0, 1]] * 3)
            self.op("floor", f="F%d" % self.floors, p=[-3300 * v for v in u] if self.kind == "calm" else [100 * rng.randrange(-2, 3) for _ in range(3)], u=u)
        elif c < 46:
            a, b = self.thing(), self.thing()
            o = rng.choice(["off", "off", "on"])
            if a != b:
                self.op(o, x=a, y=b)
        elif c < 51:
            self.op(rng.choice(["off1", "off1", "on1", "on1", "resetc"]), x=self.thing())
        elif c < 53 and w:
            self.op("self", w=w, b=rng.random() < .4)
        elif c < 59 and w:
            if x in self.reg and w in self.regR and len(self.at) < 3:
                ns = [n for n in self.robots[self.wr[w]] if n != "_"]
                n = rng.choice(ns + ["none"]) if rng.random() < .9 else "none"
                self.op("att", w=w, n=n, x=x, b=rng.random() < .4)
                if n != "none":
                    self.at.append((w, x))
            elif w not in self.regR:
                if not any(self.wr[v] == self.wr[w] for v in self.regR):
                    self.op("att", w=w, n=rng.choice([n for n in self.robots[self.wr[w]] if n != "_"]), x=x, b=True)
        elif c < 63 and w:
            if self.at and rng.random() < .7:
                w, x = rng.choice(self.at)
            if w in self.regR or not any(self.wr[v] == self.wr[w] for v in self.regR):
                b = rng.random() < .4
                self.op("det", w=w, x=x, b=b)
                self.at = [a for a in self.at if a != (w, x)]
        elif c < 68:
            if self.kind != "calm" or not any(a[1] == x for a in self.at):
                self.op("pose", x=x, p=self.pose())
        elif c < 71:
            if self.kind != "calm" or not any(a[1] == x for a in self.at):
                self.op("pos", x=x, v=self.grid())
        elif c < 74 and w:
            if sum(r == self.wr[w] for r in self.wr.values()) == 1 and not (self.kind == "calm" and any(a[0] == w for a in self.at)):
                self.op("rpose", w=w, p=self.pose())
        elif c < 76:
            self.op("typ", x=x, t=rng.choice([0, 1, 2, 2, 3]))
        elif c < 77:
            self.op("getobj", x=rng.choice(self.objs + ["Floor", "no"] + [n for r in self.robots.values() for n in r if n != "_"]))
        elif c < 79 and self.robots:
            self.op("getrob", r=rng.choice(sorted(self.robots)))
        elif c < 80:
            x = rng.choice(self.objs)
            if x not in self.reg:
                self.op("renew", x=x)
        elif c < 86 and w:
            self.actuate(w)
        else:
            if self.kind == "contact":
                self.op("hits")
            else:
                if rng.random() < .3:
                    self.op("hits")
                f = rng.choice([8, 8, 16, 10])
                self.op("step", dt=rng.choice([0, f, f, 2 * f, f // 2, 3 * f + 1, 5 * f + 3]), k=rng.choice([1, 2, 3, 10, 10, 0]), f=f)

    def actuate(self, w):
        rng, n = self.rng, self.joint(w)
        if not n:
            return
        calm = self.kind == "calm" and rng.random() < .9
        v = 0 if calm else 1024 * rng.choice([0, 0, 1, -1])
        t = 0 if calm else rng.choice([0, 256, -512])
        c = rng.randrange(8)
        if c == 0:
            self.op("act", w=w, n=n, v=t, b=rng.random() < .5)
        elif c == 1:
            self.op("actpv", w=w, n=n, t=t, v=v)
        elif c < 4:
            self.op("actv", w=w, n=n, v=v, b=rng.random() < .5)
        elif c == 4:
            self.op("actt", w=w, n=n, v=v, b=rng.random() < .5)
        elif c == 5:
            self.op("actno", w=w, n=n)
        elif c == 6:
            self.op("acton", w=w, m=rng.choice([0, 1, 2, 3]))
        else:
            self.op("actoff", w=w)


def model(ctx):
    """the world of MC_Physics.tla"""
    at = lambda x, y, z: list(I[:9]) + [x, y, z]
    nodes = {"base": node("", "fixed", None, at(0, 0, 0), [47, 47, 33]), "mid": node("base", "rev", [0, 0, 1], at(0, 0, 200)),
             "tip": node("mid", "pris", [0, 0, 1], at(0, 0, 100), [33, 33, 33], ["base"])}
    f = os.path.join(ctx.scratch, "dynmodel.xml")
    open(f, "w").write(robot_xml("R", nodes, list(nodes)))
    d = {k: {x: v[x] for x in ("par", "typ", "loc", "mdl", "h", "ign")} for k, v in nodes.items()}
    d["_"] = 0
    return [{"op": "reset"}, {"op": "obj", "x": "a", "p": at(900, 0, 0), "h": [47, 47, 47], "c": [], "t": 2, "mesh": False},
            {"op": "obj", "x": "b", "p": at(0, 900, 0), "h": [71, 33, 47], "c": [], "t": 0, "mesh": True},
            {"op": "robot", "r": "R", "file": f, "nodes": d}, {"op": "wrap", "w": "w0", "r": "R"}, {"op": "wrap", "w": "w1", "r": "R"}, {"op": "cb", "n": 4}]


def c19(ctx):
    head = model(ctx)
    ctx.build(["dyn"], ["SimDynamics", "VirtualRobot"])
    ctx.mc("MC_Physics", "MC_Physics" + ctx.scale("", "_deep"), timeout=1500)
    rng, scr = ctx.rng("dyn"), []
    for h in ctx.sim("MC_Physics", "MC_Physics_sim", ctx.scale(20, 300), 22):
        scr.append(head + strip(h))
    for i in range(ctx.scale(120, 1500)):
        g = DynGen(ctx, rng, i, ["calm", "contact", "calm", "wild", "contact"][i % 5])
        for _ in range(ctx.scale(40, 60)):
            g.step()
        scr.append(g.ev)
    per = 6
    for k in range(0, len(scr), per):
        ctx.add("physics-%d" % (k // per), "dyn", [e for s in scr[k:k + per] for e in s], SIG, "PhysicsTrace", ctx.prop)
    ctx.run()
