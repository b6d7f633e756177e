"""Suites on robots: C01 C02 C04 C05 C07 C08 C20 C25."""
import os, re
from framework import parse_sig
from gen_robots import RobotGen, rpose, AX

SIG = parse_sig("""
reset
load r:s file:s how:i
loadbad file:s
save r:s dir:s file:s b1:b b2:b b3:b
del r:s
clone r:s t:s sc:i
sub r:s t:s n:s b1:b b2:b
full
q,qr,qn,qnou r:s n:s v:i
apply r:s
qmap,qcfg r:s how:i m:M
qset r:s how:i s:s vs:L
qcfgset r:s how:i s:s m:M
qtraj r:s s:s a:L b:L t:i
pose,poseb,poseno r:s p:P
posenode r:s n:s p:P
posnode r:s n:s v3:V
upv,upc r:s b:b
upvn r:s n:s b:b
limits r:s n:s lo:i hi:i
limitless,enforce r:s n:s b:b
prop r:s n:s t:s f:i
dyn r:s n:s va:i vb:i vc:i
mass r:s n:s v:i
loc r:s n:s p:P
delta,inlim,resp r:s n:s v:i
frames r:s n:s m:s p:P
lnew k:s r:s
lcopy k:s d:s how:i
lset k:s r:s n:s how:i p:P
lchg,lin k:s r:s n:s how:i
ltr r:s t:s n:s n2:s
nsnew r:s s:s how:i ns:S root:s tcp:s reg:b
nsinfo,nsget,nsreg,nsdel r:s s:s
nsroot r:s s:s n:s
nslim r:s s:s vs:L
nsmut r:s s:s n:s
nssuff r:s s:s ns:S
nsclone r:s s:s t:s
nslist r:s ns:S
tree,com r:s
cnew c:s r:s how:i m:M
cnewl c:s r:s how:i ns:S vs:L
cxml c:s how:i file:s
cset c:s how:i n:s v:i
csetof c:s r:s n:s
cget c:s n:s
cclone c:s d:s r:s
ctcp c:s n:s b:b
capply c:s how:i r:s
cdump
inv r:s t:s n:s b1:b b2:b
geo r:s t:s n:s m:M b:b
subset r:s t:s s:s
unite r:s t:s ns:S
chain2 r:s t:s n1:s n2:s
attach r:s n:s t:s p:P
detach r:s n:s
""")


class Script:
    """operations on one generated robot (and copies of it)"""

    def __init__(self, ctx, rng, gen, rid="A"):
        self.ctx, self.rng, self.g, self.r = ctx, rng, gen, rid
        self.ev = [{"op": "reset"}]
        self.k = 0

    def load(self, extra=None):
        f = os.path.join(self.ctx.scratch, "%s-%d.xml" % (self.g.type, self.rng.randrange(10 ** 9)))
        self.g.write(f)
        e = {"op": "load", "r": self.r, "file": f, "how": 0, "prop": {k: dict(v) for k, v in self.g.prop.items()} or {"_": 0}}
        e.update(extra or {})
        self.ev.append(e)
        return self

    def op(self, name, **k):
        d = {"op": name}
        d.update(k)
        self.ev.append(d)

    def driven(self):
        return {t for m in self.g.prop.values() for t in m}

    def vals(self, ns):
        return {n: self.g.value(n) for n in ns}

    MOVES = ("q", "qr", "qn", "qmap", "qset", "qcfgset", "qcfg", "pose", "poseb", "posenode", "posnode", "apply")

    def move(self, r=None):
        """one random operation that moves the robot"""
        g, rng, r = self.g, self.rng, r or self.r
        js = g.joints() or g.order
        # the very same operation again, possibly with pending changes in between
        last = [e for e in self.ev[-8:] if e["op"] in self.MOVES and e.get("r") == r]
        if last and rng.random() < .12:
            again = dict(rng.choice(last))
            if rng.random() < .5:
                n = rng.choice(js)
                if n not in self.driven():
                    self.op("qnou", r=r, n=n, v=g.value(n))
            self.ev.append(again)
            return
        c = rng.randrange(100)
        if c < 22:
            n = rng.choice(js)
            self.op(rng.choice(["q", "qr", "qn"]), r=r, n=n, v=g.value(n))
        elif c < 37:
            ns = rng.sample(js, rng.randrange(0, len(js) + 1))
            self.op("qmap", r=r, how=rng.randrange(3), m=self.vals(ns))
        elif c < 48 and g.rns:
            s = rng.choice(sorted(g.rns))
            self.op("qset", r=r, how=rng.randrange(4), s=s, vs=self.setvals(s))
        elif c < 54 and g.rns:
            s = rng.choice(sorted(g.rns))
            self.op("qcfgset", r=r, how=rng.randrange(2), s=s, m=self.vals(rng.sample(js, rng.randrange(0, len(js) + 1))))
        elif c < 62:
            self.op("qcfg", r=r, how=rng.randrange(4), m=self.vals(rng.sample(js, rng.randrange(1, len(js) + 1))))
        elif c < 68 and g.rns:
            s = rng.choice(sorted(g.rns))
            t = rng.randrange(0, 5)
            a, b = self.setvals(s, 180 if t % 2 else 90), self.setvals(s, 180 if t % 2 else 90)
            self.op("qtraj", r=r, s=s, a=a, b=b, t=t)
        elif c < 77:
            self.op(rng.choice(["pose", "poseb"]), r=r, p=rpose(rng, 1000, 50))
        elif c < 80:
            p = rpose(rng, 1000, 50)
            self.op("poseno", r=r, p=p)
            if rng.random() < .5:
                self.op(rng.choice(["pose", "poseb"]), r=r, p=p)
            else:
                self.op("apply", r=r)
        elif c < 86:
            self.op("posenode", r=r, n=rng.choice(g.order), p=rpose(rng, 800, 50) if rng.random() < .7 else [1, 0, 0, 0, 1, 0, 0, 0, 1] + [50 * rng.randrange(-9, 9) for _ in range(3)])
        elif c < 91:
            self.op("posnode", r=r, n=rng.choice(g.order), v3=[50 * rng.randrange(-9, 9) for _ in range(3)])
        elif c < 96:
            n = rng.choice(js)
            if n not in self.driven():
                self.op("qnou", r=r, n=n, v=g.value(n))
                if rng.random() < .7:
                    self.op("apply", r=r)
        else:
            self.op("apply", r=r)

    def setvals(self, s, unit=1):
        """lattice values for a node set; multiples of 4 steps for interpolation"""
        ns = self.g.rns[s]["nodes"]
        return [self.g.value(n) if unit == 1 else (unit * self.rng.randrange(-1, 2) if self.g.nodes[n]["jt"] == "revolute"
                                                   else 40 * self.rng.randrange(-2, 3) if self.g.nodes[n]["jt"] == "prismatic" else 0) for n in ns]


def kin_script(ctx, rng, i, n):
    g = RobotGen(rng, "K%d" % i, nmax=rng.choice([4, 6, 8]), depthy=rng.random() < .6).mkrns(2)
    s = Script(ctx, rng, g).load()
    for _ in range(n):
        c = rng.randrange(100)
        if c < 76:
            s.move()
        elif c < 84:
            s.op("frames", r="A", n=rng.choice(g.order), m=rng.choice(g.order), p=rpose(rng, 300, 50))
        elif c < 89:
            s.op(rng.choice(["upv", "upc"]), r="A", b=rng.random() < .6)
        elif c < 92:
            s.op("upvn", r="A", n=rng.choice(g.order), b=rng.random() < .5)
        elif c < 95:
            s.op("com", r="A")
        elif c < 97:
            s.op("loc", r="A", n=rng.choice(g.order), p=rpose(rng, 200, 50))
            s.op("apply", r="A")
        else:
            k = rng.choice(["upv", "upc"])
            s.op(k, r="A", b=True)
            s.op("apply", r="A")
    return s.ev


def robots_jobs(ctx, label, scripts, per=6):
    for k in range(0, len(scripts), per):
        ctx.add("%s-%d" % (label, k // per), "rob", [e for s in scripts[k:k + per] for e in s], SIG, "RobotsTrace", ctx.prop)


MC_ROBOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "data", "mc_robot.xml")
HOWS = {"qmap": 3, "qset": 4, "qcfgset": 2, "qcfg": 4}


def sim_scripts(ctx, kind, num, depth=30, extra=None, module="MC_Robots", cfg=None):
    """behaviours of MC_Robots as operations for the driver"""
    rng, res = ctx.rng("sim" + kind), []
    for h in ctx.sim(module, cfg or "MC_Robots_sim_" + kind, num, depth + 2):
        ev = []
        for e in h:
            e = {k: v for k, v in e.items() if k not in ("ok", "res")}
            if e["op"] == "load":
                e["file"] = MC_ROBOT
                e["how"] = 0
            if e["op"] in HOWS:
                e["how"] = rng.randrange(HOWS[e["op"]])
            if e["op"] == "q":
                e["op"] = rng.choice(["q", "qr", "qn"])
            if "m" in e and not e["m"]:
                e["m"] = {}
            ev.append(e)
            if extra:
                ev += extra(rng, e)
        res.append(ev)
    return res


def c01(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Robots", "MC_Robots_mc_kin" + ctx.scale("", "_deep"))
    rng = ctx.rng("kin")
    fr = lambda rng, e: [{"op": "frames", "r": "A", "n": rng.choice(["base", "j1", "j2", "j3"]), "m": rng.choice(["base", "j1", "j2", "j3"]), "p": rpose(rng, 300, 50)}] if e["op"] not in ("reset", "qnou", "poseno", "loc") and rng.random() < .2 else []
    robots_jobs(ctx, "specified", sim_scripts(ctx, "kin", ctx.scale(12, 120), extra=fr))
    robots_jobs(ctx, "kinematics", [kin_script(ctx, rng, i, ctx.scale(30, 60)) for i in range(ctx.scale(42, 400))])
    ctx.run()


def val_script(ctx, rng, i, n):
    g = RobotGen(rng, "V%d" % i, nmax=rng.choice([4, 6]), vis=False, sens=False, phys=False, depthy=rng.random() < .5, joints_only=rng.random() < .7).mkrns(2)
    s = Script(ctx, rng, g).load()
    js = g.joints() or g.order
    for _ in range(n):
        c = rng.randrange(100)
        j = rng.choice(js)
        nd = g.nodes[j]
        if c < 60:
            s.move()
        elif c < 72:
            s.op("delta", r="A", n=j, v=g.value(j))
        elif c < 78:
            s.op("inlim", r="A", n=j, v=g.value(j))
        elif c < 84:
            s.op("resp", r="A", n=j, v=g.value(j))
        elif c < 88 and nd["jt"] == "revolute" and not nd["free"]:
            lo, hi = sorted(rng.sample([-200, -90, -45, 0, 30, 90, 135, 270], 2))
            s.op("limits", r="A", n=j, lo=lo, hi=hi)
        elif c < 90 and nd["jt"] == "prismatic":
            lo, hi = sorted(rng.sample([-500, -90, 0, 30, 100, 350], 2))
            s.op("limits", r="A", n=j, lo=lo, hi=hi)
        elif c < 93 and nd["jt"] in ("revolute", "prismatic") and not nd["free"]:
            s.op("enforce", r="A", n=j, b=rng.random() < .6)
        elif c < 96 and g.prop:
            a = rng.choice(sorted(g.prop))
            t = rng.choice(sorted(g.prop[a]))
            s.op("prop", r="A", n=a, t=t, f=rng.choice([0, 1, -1, 2, 3]))
        else:
            s.op("apply", r="A")
    return s.ev


def c02(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Robots", "MC_Robots_mc_val" + ctx.scale("", "_deep"))
    rng = ctx.rng("val")
    robots_jobs(ctx, "specified", sim_scripts(ctx, "val", ctx.scale(12, 120)))
    robots_jobs(ctx, "values", [val_script(ctx, rng, i, ctx.scale(40, 80)) for i in range(ctx.scale(42, 300))])
    ctx.run()


# ------------------------------------------------------------------------------------------------ C04
def copy_script(ctx, rng, i, n):
    g = RobotGen(rng, "C%d" % i, nmax=rng.choice([4, 6, 8]), depthy=rng.random() < .6, eef=True).mkrns(2)
    s = Script(ctx, rng, g).load()
    for _ in range(rng.randrange(0, 5)):
        s.move()
    have = {"A": list(g.order)}
    s.op("apply", r="A")
    for _ in range(n):
        c = rng.randrange(100)
        ids = sorted(have)
        r = rng.choice(ids)
        nodes = have[r]
        js = [k for k in nodes if k in g.joints()] or nodes
        if c < 9 and len(have) < 4:
            t = rng.choice([x for x in "BCDE" if x not in have])
            s.op("clone", r=r, t=t, sc=rng.choice([0, 1000, 1000, 2000, 500]) if r == "A" else 1000)
            have[t] = list(nodes)
        elif c < 17 and len(have) < 4:
            t = rng.choice([x for x in "BCDE" if x not in have])
            k = rng.choice(nodes)
            s.op("sub", r=r, t=t, n=k, b1=rng.random() < .7, b2=rng.random() < .7)
            have[t] = [x for x in g.sub(k) if x in nodes]
        elif c < 21 and len(have) > 1:
            s.op("del", r=r)
            del have[r]
        elif c < 40:
            s.op(rng.choice(["q", "qr", "qn"]), r=r, n=rng.choice(js), v=g.value(rng.choice(js)))
            s.ev[-1]["v"] = g.value(s.ev[-1]["n"])
        elif c < 55:
            s.op("qmap", r=r, how=rng.randrange(3), m=s.vals(rng.sample(js, rng.randrange(1, len(js) + 1))))
        elif c < 64:
            s.op(rng.choice(["pose", "poseb"]), r=r, p=rpose(rng, 800, 50))
        elif c < 68:
            j = rng.choice(js)
            if g.nodes[j]["jt"] == "revolute" and not g.nodes[j]["free"]:
                s.op("limits", r=r, n=j, lo=rng.choice([-60, -30, 0]), hi=rng.choice([30, 60, 500]))
            elif g.nodes[j]["jt"] == "prismatic":
                s.op("limits", r=r, n=j, lo=rng.choice([-60, -30, 0]), hi=rng.choice([30, 60, 500]))
        elif c < 70:
            j = rng.choice(js)
            if not g.nodes[j]["free"]:
                s.op("enforce", r=r, n=j, b=rng.random() < .5)
        elif c < 73:
            s.op("dyn", r=r, n=rng.choice(nodes), va=rng.randrange(1, 9) * 1000, vb=rng.randrange(1, 9) * 1000, vc=rng.randrange(1, 9) * 1000)
        elif c < 76:
            s.op("mass", r=r, n=rng.choice(nodes), v=rng.randrange(1, 9) * 1000)
        elif c < 79:
            s.op("loc", r=r, n=rng.choice(nodes), p=rpose(rng, 200, 50))
            s.op("apply", r=r)
        elif c < 82:
            s.op(rng.choice(["upv", "upc"]), r=r, b=rng.random() < .5)
        elif c < 85:
            s.op("nsnew", r=r, s="x%d" % rng.randrange(3), how=1, ns=rng.sample(nodes, rng.randrange(1, len(nodes) + 1)), root="-", tcp="-", reg=True)
        elif c < 88:
            s.op("tree", r=r)
        elif c < 91:
            s.op("com", r=r)
        elif c < 93:
            s.op("nslist", r=r, ns=["chain", "set0", "set1", "x0", "x1"])
        elif c < 97:
            s.op("full")
        else:
            s.op("apply", r=r)
    s.op("full")
    return s.ev


def c04(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Robots", "MC_Robots_mc_copy" + ctx.scale("", "_deep"))
    rng = ctx.rng("copy")
    fu = lambda rng, e: [{"op": "full"}] if e["op"] != "reset" and rng.random() < .3 else []
    robots_jobs(ctx, "specified", sim_scripts(ctx, "copy", ctx.scale(12, 120), extra=fu))
    robots_jobs(ctx, "copies", [copy_script(ctx, rng, i, ctx.scale(30, 60)) for i in range(ctx.scale(42, 400))])
    ctx.run()


# ------------------------------------------------------------------------------------------------ C07
def cfg_script(ctx, rng, i, n):
    g = RobotGen(rng, "G%d" % i, nmax=rng.choice([4, 6]), vis=False, sens=False, phys=False, prop=rng.random() < .3)
    s = Script(ctx, rng, g).load()
    js = g.joints() or g.order
    robs = {"A": list(g.order)}
    s.op("clone", r="A", t="B", sc=1000)
    robs["B"] = list(g.order)
    k = rng.choice(g.order)
    s.op("sub", r="A", t="C", n=k, b1=True, b2=True)
    robs["C"] = g.sub(k)
    cs = {}
    for _ in range(n):
        c = rng.randrange(100)
        r = rng.choice(sorted(robs))
        rj = [j for j in robs[r] if j in js] or robs[r]
        if c < 18 or not cs:
            how = rng.choice([0, 1, 2, 3, 4])
            ns = rng.sample(js, rng.randrange(0, len(js) + 1))
            if how in (0, 3):
                ns = [x for x in ns if x in robs[r]]
            m = s.vals(ns)
            if how in (1, 2) and rng.random() < .3:
                m["nope"] = 10
            i_ = "c%d" % rng.randrange(4)
            if rng.random() < .4:
                ns = [rng.choice(js + (["nope"] if rng.random() < .2 else [])) for _ in range(rng.randrange(1, 5))]
                how = rng.randrange(3)
                if how == 2 and [n for n in ns if n not in robs[r]]:
                    s.op("cnewl", c="refused", r=r, how=how, ns=ns, vs=[g.value(n) if n != "nope" else 5 for n in ns])
                    continue
                s.op("cnewl", c=i_, r=r, how=how, ns=ns, vs=[g.value(n) if n != "nope" else 5 for n in ns])
            else:
                s.op("cnew", c=i_, r=r, how=how, m=m)
            cs[i_] = r
        else:
            c0 = rng.choice(sorted(cs))
            cr = cs[c0]
            if c < 34:
                nn = rng.choice(js + ["nope"])
                s.op("cset", c=c0, how=rng.randrange(2) if nn not in robs[cr] else rng.randrange(3), n=nn, v=g.value(nn) if nn != "nope" else 5)
            elif c < 39:
                o = rng.choice([x for x in sorted(robs) if x != cr])
                s.op("csetof", c=c0, r=o, n=rng.choice(robs[o]))
            elif c < 48:
                s.op("cget", c=c0, n=rng.choice(js + ["nope"]))
            elif c < 56:
                d = "c%d" % rng.randrange(4)
                t = rng.choice(["-"] + sorted(robs))
                if d != c0:
                    s.op("cclone", c=c0, d=d, r=t)
                    cs[d] = cr if t == "-" else t
            elif c < 61:
                nn = rng.choice(g.order + ["nope"])
                s.op("ctcp", c=c0, n=nn, b=True if nn not in robs[cr] else rng.random() < .5)
            elif c < 66:
                s.op("cxml", c=c0, how=rng.randrange(2), file=next(e["file"] for e in s.ev if e["op"] == "load"))
            elif c < 80:
                s.op("capply", c=c0, how=rng.randrange(4), r=rng.choice(sorted(robs)))
            elif c < 90:
                s.op("q", r=r, n=rng.choice(rj), v=0)
                s.ev[-1]["v"] = g.value(s.ev[-1]["n"])
            else:
                s.op("cdump")
    s.op("cdump")
    return s.ev


def c07(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Robots", "MC_Robots_mc_cfg" + ctx.scale("", "_deep"))
    rng = ctx.rng("cfg")
    robots_jobs(ctx, "specified", sim_scripts(ctx, "cfg", ctx.scale(12, 120), extra=lambda rng, e: [{"op": "cdump"}] if e["op"] not in ("reset",) and rng.random() < .3 else []))
    robots_jobs(ctx, "configurations", [cfg_script(ctx, rng, i, ctx.scale(30, 60)) for i in range(ctx.scale(42, 400))])
    ctx.run()


# ------------------------------------------------------------------------------------------------ C08
def set_script(ctx, rng, i, n):
    g = RobotGen(rng, "S%d" % i, nmax=rng.choice([4, 6, 8]), depthy=rng.random() < .5, vis=False, sens=False, phys=False).mkrns(2)
    s = Script(ctx, rng, g).load()
    js = g.joints() or g.order
    s.op("clone", r="A", t="B", sc=1000)
    sets = {"A": {k: list(v["nodes"]) for k, v in g.rns.items()}, "B": {k: list(v["nodes"]) for k, v in g.rns.items()}}
    unreg = {"A": {}, "B": {}}
    anc = lambda ns: [a for a in g.order if all(x in g.sub(a) for x in ns)]
    for _ in range(n):
        c = rng.randrange(100)
        r = rng.choice("AAB")
        al = dict(sets[r]); al.update(unreg[r])
        if c < 20 or not al:
            k = rng.choice(["n0", "n1", "n2", "set0"])
            how = rng.randrange(2)
            ns = rng.sample(g.order, rng.randrange(1, min(len(g.order), 5) + 1))
            if rng.random() < .5:
                ns.sort(key=lambda x: (g.depth(x), x))
            root = rng.choice(["-", rng.choice(g.order), g.root])
            tcp = rng.choice(["-", rng.choice(g.order)])
            if rng.random() < .08:
                ns = []
                root, tcp = "-", "-"
            elif how == 0 and rng.random() < .1:
                ns = ns + ["nope"]
            elif how == 0 and rng.random() < .1:
                if rng.random() < .5:
                    root = "nope"
                else:
                    tcp = "nope"
            reg = rng.random() < .6
            if reg and k in unreg[r]:
                continue
            s.op("nsnew", r=r, s=k, how=how, ns=ns, root=root, tcp=tcp, reg=reg)
            if ns and "nope" not in ns + [root, tcp]:
                (sets if reg else unreg)[r][k] = ns
            continue
        k = rng.choice(sorted(al))
        ns = al[k]
        if c < 30:
            s.op("nsinfo", r=r, s=k)
        elif c < 34 and unreg[r]:
            k = rng.choice(sorted(unreg[r]))
            s.op("nsreg", r=r, s=k)
            sets[r][k] = unreg[r].pop(k)
        elif c < 38 and k in sets[r] and k not in unreg[r]:
            s.op("nsdel", r=r, s=k)
            del sets[r][k]
        elif c < 41:
            s.op("nsroot", r=r, s=k, n=rng.choice(anc(ns)))
        elif c < 51:
            s.op("nsget", r=r, s=k)
        elif c < 59:
            vs = [g.value(x) for x in ns]
            if rng.random() < .15:
                vs = vs[:-1] if rng.random() < .5 else vs + [0]
            s.op("nslim", r=r, s=k, vs=vs)
        elif c < 62:
            s.op("nsmut", r=r, s=k, n=rng.choice(g.order))
        elif c < 66:
            s.op("nssuff", r=r, s=k, ns=rng.sample(g.order, rng.randrange(0, len(g.order) + 1)))
        elif c < 69 and r == "A" and k not in unreg["B"]:
            s.op("nsclone", r=r, s=k, t="B")
            sets["B"][k] = ns
        elif c < 74:
            s.op("nslist", r=r, ns=["chain", "set0", "set1", "n0", "n1", "n2"])
        elif c < 77:
            s.op("tree", r=r)
        elif c < 90:
            vs = [g.value(x) for x in ns]
            if rng.random() < .1:
                vs = vs[:-1] if rng.random() < .5 else vs + [0]
            s.op("qset", r=r, how=rng.randrange(4), s=k, vs=vs)
        elif c < 96:
            s.op("qcfgset", r=r, how=rng.randrange(2), s=k, m=s.vals(rng.sample(js, rng.randrange(0, len(js) + 1))))
        else:
            s.op("q", r=r, n=rng.choice(js), v=0)
            s.ev[-1]["v"] = g.value(s.ev[-1]["n"])
    s.op("full")
    return s.ev


def c08(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Robots", "MC_Robots_mc_sets" + ctx.scale("", "_deep"))
    rng = ctx.rng("sets")
    robots_jobs(ctx, "specified", sim_scripts(ctx, "sets", ctx.scale(12, 120), extra=lambda rng, e: [{"op": "full"}] if e["op"] != "reset" and rng.random() < .3 else []))
    robots_jobs(ctx, "node-sets", [set_script(ctx, rng, i, ctx.scale(30, 60)) for i in range(ctx.scale(42, 400))])
    ctx.run()


# ------------------------------------------------------------------------------------------------ C05
BAD = {
    "duplicate": lambda x, g: x.replace("<RobotNode name='%s'" % g.order[-1], "<RobotNode name='%s'" % g.order[0]),
    "no-such-child": lambda x, g: x.replace("</RobotNode>", "<Child name='nobody'/></RobotNode>", 1),
    "no-root": lambda x, g: x.replace("RootNode='%s'" % g.root, "RootNode='nobody'"),
    "no-type-of-joint": lambda x, g: x.replace("type='revolute'", "type='bent'", 1),
    "unknown-tag": lambda x, g: x.replace("</RobotNode>", "<Nonsense/></RobotNode>", 1),
    "set-of-unknown-node": lambda x, g: x.replace("</Robot>", "<RobotNodeSet name='zz'><Node name='nobody'/></RobotNodeSet></Robot>"),
    "effector-at-unknown-node": lambda x, g: x.replace("</Robot>", "<Endeffector name='zz' base='nobody'/></Robot>"),
    "unconnected": lambda x, g: x.replace("<RobotNodeSet", "<RobotNode name='lonely'/><RobotNodeSet", 1),
    "not-xml": lambda x, g: x[: len(x) // 2],
    "number": lambda x, g: x.replace("initialvalue='", "initialvalue='x", 1),
    "no-direction": lambda x, g: re.sub("<TranslationDirection[^>]*>", "", x, 1),
    "wrong-unit": lambda x, g: re.sub("(<rollpitchyaw [^>]*units=)'[a-z]*'", "\\1'mm'", x, 1),
}


def file_gen(rng, i, k, **kw):
    g = RobotGen(rng, "F%d%s" % (i, k), nmax=rng.choice([3, 4, 6]), files=True, eef=rng.random() < .7, prefix=k, **kw).mkrns(rng.randrange(0, 3))
    if k:
        g.rns = {k + s: v for s, v in g.rns.items()}
        g.eef = {k + s: v for s, v in g.eef.items()}
    return g


def all_joints(g):
    return [(g, j) for j in g.joints()] + [x for _, h, _ in g.inc for x in all_joints(h)]


def file_script(ctx, rng, i, n):
    ev = [{"op": "reset"}]
    d = os.path.join(ctx.scratch, "files%d" % i)
    os.makedirs(d)
    for k in range(n):
        g = file_gen(rng, i * 10 + k, "")
        if rng.random() < .35:
            g.inc.append((rng.choice(g.order), file_gen(rng, i * 10 + k, "x"), rng.random() < .6))
            if rng.random() < .3:
                g.inc.append((rng.choice(g.order), file_gen(rng, i * 10 + k, "y"), rng.random() < .6))
        f = g.write(os.path.join(d, "%s-%d.xml" % (g.type, k)))
        how = rng.choice([0, 0, 0, 1, 2, 3])
        ev.append({"op": "load", "r": "A", "file": f, "how": how, "desc": g.desc()})
        js = all_joints(g)
        for _ in range(rng.randrange(0, 3)):
            if js:
                h, j = rng.choice(js)
                ev.append({"op": "q", "r": "A", "n": j, "v": h.value(j)})
        if rng.random() < .5:
            ev.append({"op": "pose", "r": "A", "p": rpose(rng, 500, 50)})
        if how not in (2, 3) or True:
            b = [rng.random() < .8 for _ in range(3)]
            src = "A"
            if rng.random() < .25:
                ev.append({"op": "clone", "r": "A", "t": "C", "sc": 1000})
                src = "C"
            ev.append({"op": "save", "r": src, "dir": d, "file": "out%d.xml" % k, "b1": b[0], "b2": b[1], "b3": b[2]})
            ev.append({"op": "load", "r": "B", "file": os.path.join(d, "out%d.xml" % k), "how": rng.choice([0, 0, 1]), "from": src, "b1": b[0], "b2": b[1], "b3": b[2]})
            if rng.random() < .4:
                ev.append({"op": "save", "r": "B", "dir": d, "file": "again%d.xml" % k, "b1": True, "b2": True, "b3": True})
                ev.append({"op": "load", "r": "D", "file": os.path.join(d, "again%d.xml" % k), "how": 0, "from": "B", "b1": True, "b2": True, "b3": True})
        if rng.random() < .6:
            kind = rng.choice(sorted(BAD))
            g2 = file_gen(rng, i * 10 + k, "")
            x = g2.xml()
            y = BAD[kind](x, g2)
            if y != x:
                fb = os.path.join(d, "bad%d-%s.xml" % (k, kind))
                open(fb, "w").write(y)
                ev.append({"op": "loadbad", "file": fb})
    return ev


def file_sims(ctx, module="MC_RobotFile", num=40, depth=6):
    """behaviours of MC_RobotFile (or MC_Restructure): the descriptions are written as files"""
    rng, res = ctx.rng("simfile"), []
    d = os.path.join(ctx.scratch, "specified")
    os.makedirs(d)
    for k, h in enumerate(ctx.sim(module, module + "_sim", ctx.scale(num, 10 * num), depth)):
        ev = []
        for e in h:
            e = {a: b for a, b in e.items() if a not in ("ok", "res", "full")}
            if "desc" in e:
                e["file"] = g = os.path.join(d, "d%d.xml" % k)
                rg = RobotGen.from_desc(rng, e["desc"])
                open(g, "w").write(rg.xml())
                e["desc"] = rg.desc()
            elif e["op"] == "load":
                e["file"] = os.path.join(d, "s%d.xml" % k)
            elif e["op"] == "save":
                e["dir"], e["file"] = d, "s%d.xml" % k
            ev.append(e)
        res.append(ev)
    return res


def c05(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_RobotFile", "MC_RobotFile" + ctx.scale("", "_deep"))
    robots_jobs(ctx, "specified", file_sims(ctx))
    rng = ctx.rng("files")
    robots_jobs(ctx, "files", [file_script(ctx, rng, i, ctx.scale(4, 8)) for i in range(ctx.scale(42, 400))])
    ctx.run()


# ------------------------------------------------------------------------------------------------ C20
def re_script(ctx, rng, i, n):
    """restructured robots: every copy is compared at once and later, with values of the remaining joints"""
    g = RobotGen(rng, "R%d" % i, nmax=rng.choice([4, 5, 7]), depthy=rng.random() < .7, eef=False, prop=False, limitless=rng.random() < .3).mkrns(1)
    up = lambda k: [k] + (up(g.nodes[k]["par"]) if g.nodes[k]["par"] else [])
    kids = lambda k: [x for x in g.order if g.nodes[x]["par"] == k]
    joint = lambda k: g.nodes[k]["jt"] in ("revolute", "prismatic")
    # the frame that becomes the root: without body, at the end of a branch
    g.blank("tip", rng.choice(g.order))
    for k in g.order:                       # quarter turns and whole millimetres only
        g.nodes[k]["init"] = 0
        if g.nodes[k]["off"] % 90 and g.nodes[k]["jt"] == "revolute":
            g.nodes[k]["off"] = 90
        if g.nodes[k]["free"]:
            g.nodes[k]["lim"] = {"lo": -180, "hi": 180, "u": "degree"}
    s = Script(ctx, rng, g).load()
    js = g.joints()
    val = lambda k: g.value(k) if rng.random() < .1 else (rng.choice([0, 20, -40, 60, 100]) if g.nodes[k]["jt"] == "prismatic" else rng.choice([0, 90, -90, 0]))
    lat = lambda ks: {k: val(k) for k in rng.sample(ks, rng.randrange(0, len(ks) + 1))}
    side = any(joint(x) and len(kids(x)) > 1 for x in up("tip")[1:])
    att, copies = [], {}

    def geo(t):
        ref, ks, whole = copies[t]
        s.op("geo", r="A", t=t, n=ref, m={x: val(x) for x in ks}, b=whole)

    for _ in range(n):
        c = rng.randrange(100)
        free = [x for x in "BCDEF" if x not in copies]
        t = free[0] if free else None
        if free and c < 40:
            if rng.random() < .6:
                s.op("pose", r="A", p=rpose(rng, 500, 50))
            if rng.random() < .6:
                s.op("qmap", r="A", how=0, m=lat(js))
            k = rng.randrange(4)
            if att:
                continue
            if k == 0 and not side:
                s.op("inv", r="A", t=t, n="tip", b1=rng.random() < .7, b2=True)
                copies[t] = ("tip", js, True)
            elif k == 1:
                a = rng.choice(up("tip")[1:]) if rng.random() < .8 else rng.choice(g.order)
                s.op("chain2", r="A", t=t, n1=a, n2="tip")
                if a not in up("tip") or a == "tip":
                    continue
                copies[t] = ("tip", js, False)
            elif k == 2:
                x = rng.choice(sorted(g.rns))
                d = g.rns[x]
                ns = d["nodes"]
                r0 = d["root"] if d["root"] and all(y in g.sub(d["root"]) for y in ns) else g.root
                ch = ns if r0 in ns else [r0] + ns
                s.op("subset", r="A", t=t, s=x)
                if not all(b in g.sub(a) and a != b for a, b in zip(ch, ch[1:])):
                    continue
                copies[t] = ("-", [y for y in ch if joint(y)], True)
            elif k == 3:
                ns = rng.sample([x for x in g.order if x != g.root], rng.randrange(1, min(3, len(g.order))))
                s.op("unite", r="A", t=t, ns=ns)
                gone = {y for x in ns for y in g.sub(x) if y != x}
                copies[t] = ("-", [y for y in js if y not in gone], True)
            else:
                continue
            ref, ks, whole = copies[t]
            if k in (2, 3):       # the frozen joints keep their values only as long as the original does
                cur = {x: 0 for x in js}
                s.op("geo", r="A", t=t, n="-", m=lat(ks) if not ks else {x: val(x) for x in ks}, b=True)
                copies[t] = None
            else:
                geo(t)
        elif c < 50:
            nm = rng.choice(["obj0", "obj1", g.order[0]])
            s.op("attach", r="A", n=rng.choice(g.order), t=nm, p=rpose(rng, 200, 20))
            if nm not in att and nm not in g.order:
                att.append(nm)
        elif c < 62 and (att or rng.random() < .2):
            k = rng.choice(att) if att else g.root
            s.op("detach", r="A", n=k)
            if k in att:
                att.remove(k)
        elif c < 85 and copies:
            t = rng.choice(sorted(copies))
            if copies[t]:
                ref, ks, whole = copies[t]
                s.op("geo", r="A", t=t, n=ref, m={x: val(x) for x in ks}, b=whole and not att)
        elif c < 95:
            s.op("full")
        else:
            s.op("pose", r="A", p=rpose(rng, 500, 50))
    s.op("full")
    return s.ev


def c20(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Restructure", "MC_Restructure" + ctx.scale("", "_deep"), workers=8)
    robots_jobs(ctx, "specified", file_sims(ctx, "MC_Restructure", 16, 15))
    rng = ctx.rng("re")
    robots_jobs(ctx, "restructured", [re_script(ctx, rng, i, ctx.scale(20, 40)) for i in range(ctx.scale(42, 400))])
    ctx.run()


# ------------------------------------------------------------------------------------------------ C25
def lnk_script(ctx, rng, i, n):
    """linked coordinates on a moving robot and a copy of it"""
    g = RobotGen(rng, "L%d" % i, nmax=rng.choice([4, 6, 8]), depthy=rng.random() < .6).mkrns(2)
    s = Script(ctx, rng, g).load()
    have = {"A": list(g.order)}
    if rng.random() < .6:
        s.op("clone", r="A", t="B", sc=1000)
        have["B"] = list(g.order)
    ks = {}

    def node(r):
        return rng.choice(have[r]) if rng.random() < .95 else "nope"
    for _ in range(n):
        c = rng.randrange(100)
        ids = sorted(have)
        if not ks or (c < 4 and len(ks) < 4):
            k = "xyzw"[rng.randrange(4)]
            ks[k] = rng.choice(ids)
            s.op("lnew", k=k, r=ks[k])
        elif c < 40:
            s.move(rng.choice(ids))
        elif c < 44:
            k, d = rng.choice(sorted(ks)), rng.choice("xyzw")
            if k != d:
                s.op("lcopy", k=k, d=d, how=rng.randrange(2))
                ks[d] = ks[k]
        else:
            k = rng.choice(sorted(ks))
            r = ks[k] if rng.random() < .93 else rng.choice(ids)
            if c < 62:
                s.op("lset", k=k, r=r, n=node(r), how=rng.randrange(4), p=rpose(rng, 400, 50))
            elif c < 80:
                s.op("lchg", k=k, r=r, n=node(r), how=rng.randrange(2))
            elif c < 94:
                s.op("lin", k=k, r=r, n=node(r), how=rng.randrange(2))
            else:
                t = r if rng.random() < .8 else rng.choice(ids)
                s.op("ltr", r=r, t=t, n=node(r), n2=node(t))
    return s.ev


def c25(ctx):
    ctx.build(["rob"], ["VirtualRobot"])
    ctx.mc("MC_Links", "MC_Links" + ctx.scale("", "_deep"), timeout=ctx.scale(600, 3600))
    rng = ctx.rng("links")

    def jobs(label, scripts):
        for k in range(0, len(scripts), 6):
            ctx.add("%s-%d" % (label, k // 6), "rob", [e for s in scripts[k:k + 6] for e in s], SIG, "LinksTrace", ctx.prop)
    jobs("specified", sim_scripts(ctx, "", ctx.scale(12, 120), module="MC_Links", cfg="MC_Links_sim"))
    jobs("coordinates", [lnk_script(ctx, rng, i, ctx.scale(50, 90)) for i in range(ctx.scale(60, 500))])
    ctx.run()
