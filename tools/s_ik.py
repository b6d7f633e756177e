"""Suite on inverse kinematics (C22)."""
import math, os
from framework import parse_sig
from gen_robots import rpose, mm, rot, AX
from s_scene import strip, I

SIG = parse_sig("""
reset
seed k:i
robot r:s file:s
att r:s n:s k:s p:P
obs o:s p:P hs:L
rpose r:s p:P
q r:s ns:S vs:L
com r:s s:s
ik x:s r:s s:s c:s m:i mm:b ms:i
goal x:s t:s sel:i tp:i tr:i p:P v:b
jac x:s t:s sel:i sc:i
jacx x:s sc:i
errx x:s d:i
tolx x:s ts:S
delta x:s p:P p2:P sel:i
solve x:s st:i mc:i n:i ci:b ts:S
comik y:s r:s j:s b:s c:s dm:i
cgoal y:s vs:L tp:i
cjac y:s
cerr y:s
csolve y:s r:s b:s st:i n:i
pinv r:s s:s m:i dbl:b rows:i v:L g:L w:L lam:i
gik g:s r:s s:s m:i
gset g:s tp:i tr:i st:i n:i
gcol g:s how:i o:s
greach g:s poses:i
gobj r:s ef:s o:s p:P n:i gs:R
gsolve g:s k:i p:P sel:i loops:i o:s gi:i
hik h:s r:s s:s
hadd h:s k:i x:s
hsolve h:s r:s ts:S b:s st:i n:i
hstep r:s s:s xs:S
gaze r:s s:s vj:s v:V tp:i jla:b
con k:s r:s s:s kind:s t:s p:P sel:i tp:i tr:i vs:L off:P ft:s
ctgt k:s p:P kind:s
ctol k:s
cval k:s id:i sc:f
cgrad k:s id:i sc:f
cik kk:s r:s s:s ty:i it:i
cadd kk:s c:s prio:i h:b
crem kk:s c:s
cseed kk:s vs:L
ksolve kk:s r:s s:s ts:S b:s o:s
support r:s b:s fs:S upd:b
""")
TRS = [5, 10, 20, 60, 100, 180]
RAD = 3.141592653589793 / 180


def rotation(ax, deg):
    return rot(ax, deg // 90)


def trans(v):
    return I[:9] + list(v)


class Gen:
    def __init__(self, ctx, rng, i):
        self.ctx, self.rng, self.i, self.ev = ctx, rng, i, [{"op": "reset"}]
        self.op("seed", k=rng.randrange(1, 100000))
        self.R, self.X, self.Y, self.G, self.O, self.MO, self.H, self.C, self.K = {}, {}, {}, {}, {}, {}, {}, {}, {}
        self.robot("A")
        if rng.random() < .2:
            self.robot("B")
        w = {"kin": 3, "dik": 4, "com": 2, "pinv": 1, "gik": 2, "hier": 1, "con": 3, "cik": 1, "support": 1}
        self.focus = rng.choice(sorted(w, key=lambda k: 0))
        self.pool = [self.kin, self.dik, self.comop, self.pinv, self.gik, self.hier, self.conop, self.cikop, self.support]
        self.weights = [7, 10, 5, 2, 8, 2, 10, 3, 3]
        k = rng.randrange(len(self.pool))
        self.weights[k] *= 3

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def step(self):
        self.rng.choices(self.pool, self.weights)[0]()

    def name(self, d, p):
        return "%s%d" % (p, len(d))

    # ------------------------------------------------------------------ robots
    def robot(self, r):
        rng = self.rng
        nd, order = {}, []

        def node(n, par, typ, ax, loc, lo, hi, free=False, box=None):
            nd[n] = {"par": par, "typ": typ, "ax": ax if typ != "fixed" else [0, 0, 0], "lo": lo, "hi": hi, "free": free, "loc": loc,
                     "mass": rng.choice([0, 1, 2, 3, 5]), "com": [rng.choice([0, 0, 20, -40, 60]) for _ in range(3)], "box": box or [0, 0, 0]}
            order.append(n)

        def joint(n, par, short=False):
            loc = rpose(rng, 1, 1)[:9] + [rng.choice([0, 0, 100, 150, -100, 60]) for _ in range(3)]
            if rng.random() < .4:
                loc[:9] = I[:9]
            if rng.random() < allrev:
                free = rng.random() < .15
                lo, hi = (-180, 180) if free else rng.choice([(-100, 100), (-170, 190), (-190, 170), (-200, 10), (-20, 120), (0, 90), (-180, 180)])
                node(n, par, "rev", rng.choice(AX), loc, lo * 1000, hi * 1000, free, [rng.choice([15, 25]) for _ in range(3)] if rng.random() < .5 else None)
            else:
                lo, hi = rng.choice([(-100, 100), (0, 200), (-300, 50)])
                node(n, par, "pris", rng.choice(AX), loc, lo * 1000, hi * 1000, False, [rng.choice([15, 25]) for _ in range(3)] if rng.random() < .5 else None)

        allrev = rng.choice([1, 1, .7])
        node("root", "", "fixed", None, I, 0, 0)
        par, js, allj = "root", [], []
        for k in range(rng.choice([2, 3, 4, 5, 6, 7])):
            n = "j%d" % k
            joint(n, par)
            js.append(n)
            par = n
            if rng.random() < .15:
                f = "f%d" % k
                node(f, par, "fixed", None, rpose(rng, 100, 50), 0, 0)
                par = f
        node("tcp", par, "fixed", None, trans([rng.choice([0, 0, 50]), rng.choice([0, 30]), rng.choice([100, 0, 60])]), 0, 0)
        sets = {"K": {"n": js, "tcp": "tcp"}}
        tips = ["tcp", js[-1]]
        br = []
        if rng.random() < .5:          # a second branch
            par = rng.choice(js[:-1] or js)
            for k in range(rng.choice([1, 2])):
                n = "b%d" % k
                joint(n, par)
                br.append(n)
                par = n
            node("tip", par, "fixed", None, trans([0, 0, 80]), 0, 0)
            tips.append("tip")
            sets["T"] = {"n": js + br, "tcp": "tcp"}
        s = list(js)
        if rng.random() < .5:
            rng.shuffle(s)
            s = s[:max(1, len(s) - 1)]
        sets["P"] = {"n": s, "tcp": rng.choice(["tcp", "tcp", js[-1], rng.choice(tips)])}
        # feet: boxes standing on or above the floor
        feet = []
        for k in range(rng.choice([0, 1, 2, 2, 3])):
            n = "foot%d" % k
            h = [rng.choice([30, 40, 50]), rng.choice([20, 30, 60]), 20]
            node(n, "root", "fixed", None, trans([rng.randrange(-3, 4) * 50, rng.randrange(-3, 4) * 40, 20 + rng.choice([0, 0, 0, 60])]), 0, 0, False, h)
            feet.append(n)
        bodies = rng.sample(order, rng.randrange(1, len(order) + 1))
        sets["M"] = {"n": sorted(order), "tcp": "tcp"}
        sets["N"] = {"n": bodies, "tcp": bodies[0]}
        if not sum(nd[n]["mass"] for n in bodies):
            nd[bodies[0]]["mass"] = 4
        # a gaze: a long virtual translation at the end of the chain
        gaze = None
        if rng.random() < .4:
            node("vj", js[-1], "pris", rng.choice(AX), I, 0, 2000000)
            node("vp", "vj", "fixed", None, I, 0, 0)
            sets["Z"] = {"n": js + ["vj"], "tcp": "vp"}
            gaze = "vj"
        eefs = {}
        if rng.random() < .8:
            eefs["hand"] = "tcp"
        d = {"nd": nd, "order": order, "sets": sets, "eefs": eefs, "q": {n: 0 for n in order if nd[n]["typ"] != "fixed"}, "pose": I, "tips": tips, "feet": feet, "gaze": gaze, "att": [], "known": True,
             "rev": {k for k in sets if all(nd[n]["typ"] == "rev" for n in sets[k]["n"])}}
        f = os.path.join(self.ctx.scratch, "ik%d%s.xml" % (self.i, r))
        open(f, "w").write(self.xml(d))
        self.R[r] = d
        u = lambda m: dict(m, _=0)
        self.op("robot", r=r, file=f, nd=u({k: dict(v) for k, v in nd.items()}), sets=u(sets), eefs=u(eefs))

    def xml(self, d):
        o = ["<Robot Type='Ik' RootNode='root'>"]
        for k in d["order"]:
            n = d["nd"][k]
            p = n["loc"]
            o.append("<RobotNode name='%s'><Transform><Matrix4x4>%s<row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4></Transform>" % (
                k, "".join("<row%d c1='%d' c2='%d' c3='%d' c4='%d'/>" % (q + 1, p[3 * q], p[3 * q + 1], p[3 * q + 2], p[9 + q]) for q in range(3))))
            if n["typ"] == "rev":
                o.append("<Joint type='revolute'><Limits lo='%d' hi='%d' units='degree'%s/><Axis x='%d' y='%d' z='%d'/></Joint>" % (n["lo"] / 1000, n["hi"] / 1000, " limitless='true'" if n["free"] else "", *n["ax"]))
            elif n["typ"] == "pris":
                o.append("<Joint type='prismatic'><Limits lo='%d' hi='%d' units='mm'/><TranslationDirection x='%d' y='%d' z='%d'/></Joint>" % (n["lo"] / 1000, n["hi"] / 1000, *n["ax"]))
            o.append("<Physics><Mass value='%d' units='kg'/><CoM location='custom' x='%d' y='%d' z='%d' units='mm'/></Physics>" % (n["mass"], *n["com"]))
            if any(n["box"]):
                h = n["box"]
                o.append("<CollisionModel><Primitives><Box width='%d' height='%d' depth='%d'/></Primitives></CollisionModel>" % (2 * h[0], 2 * h[1], 2 * h[2]))
            o += ["<Child name='%s'/>" % c for c in d["order"] if d["nd"][c]["par"] == k] + ["</RobotNode>"]
        for e, t in d["eefs"].items():
            o.append("<EndEffector name='%s' base='%s' tcp='%s'></EndEffector>" % (e, t, t))
        for k, s in d["sets"].items():
            o.append("<RobotNodeSet name='%s' tcp='%s'>%s</RobotNodeSet>" % (k, s["tcp"], "".join("<Node name='%s'/>" % n for n in s["n"])))
        return "\n".join(o + ["</Robot>"])

    def fk(self, r, n, q=None):
        d = self.R[r]
        if n in dict(d["att"]):
            par, loc = dict(d["att"])[n]
            return mm(self.fk(r, par, q), loc)
        k = d["nd"][n]
        q = q or d["q"]
        m = I
        if k["typ"] == "rev":
            m = rotation(k["ax"], q[n])
        elif k["typ"] == "pris":
            m = trans([q[n] * x for x in k["ax"]])
        return mm(d["pose"] if k["par"] == "" else self.fk(r, k["par"], q), mm(k["loc"], m))

    def values(self, r, ns):
        d, v = self.R[r], {}
        for n in ns:
            k = d["nd"][n]
            lo, hi = k["lo"] // 1000, k["hi"] // 1000
            v[n] = self.rng.choice([x for x in ((-90, 0, 90, 180, -180) if not k["free"] else (-90, 0, 90)) if lo <= x <= hi]) if k["typ"] == "rev" else self.rng.choice([x for x in (-100, -50, 0, 20, 100, 300) if lo <= x <= hi])
        return v

    def setq(self, r, v):
        ns = sorted(v)
        self.op("q", r=r, ns=ns, vs=[v[n] for n in ns])
        self.R[r]["q"].update(v)

    def lattice(self, r):
        """back to known joint values after a solver"""
        d = self.R[r]
        if not d["known"]:
            self.setq(r, self.values(r, d["q"]))
            d["known"] = True

    def r(self):
        return self.rng.choice(sorted(self.R))

    def ks(self, r):
        """a kinematic set"""
        return self.rng.choice(sorted(set(self.R[r]["sets"]) & {"K", "K", "P", "T"}))

    def target(self, r, t, close=None):
        """a goal for node t: the pose it has at some joint values, or one beside it"""
        d, rng = self.R[r], self.rng
        c = close if close is not None else rng.random()
        if c < .25:
            p = self.fk(r, t)
        elif c < .8:
            q = dict(d["q"])
            q.update(self.values(r, rng.sample(sorted(q), min(len(q), rng.choice([1, 1, 2, 3])))))
            p = self.fk(r, t, q)
        elif c < .93:
            p = list(self.fk(r, t))
            k = rng.randrange(9, 12)
            p[k] += rng.choice([1, -2, 5, 10, -20])
        else:
            p = rpose(rng, 400, 50)
        if rng.random() < .15:
            p = list(p)
            p[rng.randrange(9, 12)] += rng.choice([1, 3, -7])
        return list(p)

    # ------------------------------------------------------------------ kinematics
    def kin(self):
        rng, r = self.rng, self.r()
        d, x = self.R[r], rng.random()
        if x < .5:
            self.setq(r, self.values(r, rng.sample(sorted(d["q"]), rng.randrange(1, len(d["q"]) + 1)) if d["known"] else d["q"]))
            d["known"] = True
        elif x < .65:
            d["pose"] = rpose(rng, 200, 20)
            self.op("rpose", r=r, p=d["pose"])
        elif x < .85:
            self.op("com", r=r, s=rng.choice(["-"] + sorted(d["sets"])))
        elif x < .93 and len(d["att"]) < 2:
            k, n, p = "%sa%d" % (r, len(d["att"])), rng.choice(sorted(d["nd"])), rpose(rng, 100, 50)
            self.op("att", r=r, n=n, k=k, p=p)
            d["att"].append((k, (n, p)))
        elif len(self.O) < 3:
            o = self.name(self.O, "o")
            t = self.fk(r, rng.choice(d["tips"]))
            p = trans([t[9 + k] + rng.choice([0, 7, 13, 100, -150]) for k in range(3)]) if rng.random() < .7 else trans([2000, 0, 0])
            self.O[o] = p
            self.op("obs", o=o, p=p, hs=[20, 30, 25])

    # ------------------------------------------------------------------ differential IK
    def newdik(self, r=None, c=None, simple=False, s=None):
        rng = self.rng
        r = r or self.r()
        s = s or self.ks(r)
        x = self.name(self.X, "x")
        c = c or rng.choice(["-", "-", "-", rng.choice(sorted(self.R[r]["nd"]))])
        mmf = False if simple else rng.random() < .2
        self.X[x] = {"r": r, "s": s, "c": c, "goals": {}, "mm": mmf}
        self.op("ik", x=x, r=r, s=s, c=c, m=rng.choice([1, 1, 0, 2]), mm=mmf, ms=0 if simple else rng.choice([0, 0, 0, 50, 200]))
        return x

    def tname(self, x, t):
        d = self.X[x]
        return self.R[d["r"]]["sets"][d["s"]]["tcp"] if t == "-" else t

    def goal(self, x, close=None):
        rng, d = self.rng, self.X[x]
        R = self.R[d["r"]]
        t = rng.choice(["-", "-"] + R["tips"] + [a for a, _ in R["att"]] + [rng.choice(sorted(R["nd"]))])
        n = self.tname(x, t)
        v = rng.random() < .15
        sel = rng.choice([15, 15, 15, 7, 7, 8, 1, 2, 4, 3, 6, 9, 5])
        if v and sel >= 8:
            sel = 7
        p = self.target(d["r"], n, close)
        d["goals"][n] = p
        self.op("goal", x=x, t=t, sel=sel, tp=rng.choice([1, 3, 5, 11, 101]), tr=rng.choice(TRS), p=p, v=v)

    def dik(self):
        rng, y = self.rng, self.rng.random()
        if not self.X or (y < .2 and len(self.X) < 5):
            x = self.newdik()
            self.goal(x)
            return
        x = rng.choice(sorted(self.X))
        d = self.X[x]
        r = d["r"]
        R = self.R[r]
        if not d["goals"]:
            self.goal(x)
        sc = 1000 if d["mm"] else 1
        if y < .3:
            self.goal(x)
        elif y < .75:
            self.lattice(r)
            z = rng.random()
            if z < .35:
                t = rng.choice(["-"] + R["tips"] + [a for a, _ in R["att"]] + [rng.choice(sorted(R["nd"]))])
                self.op("jac", x=x, t=t, sel=rng.choice([15, 7, 8, 1, 2, 4, 3, 5, 6, 9, 12, 14]), sc=sc)
            elif z < .55:
                self.op("jacx", x=x, sc=sc)
            elif z < .75:
                self.op("errx", x=x, d=rng.choice([100, 50, 25]))
            elif z < .95:
                ts = sorted(d["goals"])
                if R["sets"][d["s"]]["tcp"] in ts:
                    ts.append("-")
                self.op("tolx", x=x, ts=ts)
            else:
                self.op("delta", x=x, p=rpose(rng, 500, 10), p2=rpose(rng, 500, 10), sel=rng.choice([15, 7, 8, 1, 6, 12]))
        else:
            if rng.random() < .8:
                self.lattice(r)
            self.op("solve", x=x, st=rng.choice([20, 50, 80, 100]), mc=rng.choice([0, 0, 1000, 100000]), n=rng.choice([1, 5, 20, 40]), ci=rng.random() < .3, ts=sorted(d["goals"]))
            R["known"] = False

    # ------------------------------------------------------------------ centre of mass
    def comop(self):
        rng, z = self.rng, self.rng.random()
        if not self.Y or (z < .2 and len(self.Y) < 3):
            r = self.r()
            y = self.name(self.Y, "y")
            R = self.R[r]
            b = rng.choice(["M", "N"])
            dm = rng.choice([2, 3])
            self.Y[y] = {"r": r, "b": b, "dm": dm}
            self.op("comik", y=y, r=r, j=self.ks(r), b=b, c=rng.choice(["-", "-", rng.choice(sorted(R["nd"]))]), dm=dm)
            self.cgoal(y)
            return
        y = rng.choice(sorted(self.Y))
        d = self.Y[y]
        if z < .4:
            self.cgoal(y)
        elif z < .6:
            self.lattice(d["r"])
            self.op("cjac", y=y)
        elif z < .8:
            self.lattice(d["r"])
            self.op("cerr", y=y)
        else:
            self.lattice(d["r"])
            self.op("csolve", y=y, r=d["r"], b=d["b"], st=rng.choice([30, 100]), n=rng.choice([1, 10, 40]))
            self.R[d["r"]]["known"] = False

    def comat(self, r, b):
        R = self.R[r]
        m, s = 0, [0, 0, 0]
        for n in R["sets"][b]["n"]:
            k = R["nd"][n]
            m += k["mass"]
            p = mm(self.fk(r, n), trans(k["com"]))
            s = [s[i] + k["mass"] * p[9 + i] for i in range(3)]
        return [round(x / max(m, 1)) for x in s]

    def cgoal(self, y):
        rng, d = self.rng, self.Y[y]
        v = [x + rng.choice([0, 0, 1, 5, -20, 40]) for x in self.comat(d["r"], d["b"])]
        self.op("cgoal", y=y, vs=v[:d["dm"]], tp=rng.choice([1, 5, 11, 41]))

    # ------------------------------------------------------------------ pseudo inverses
    def pinv(self):
        rng = self.rng
        r = self.r()
        s = self.ks(r)
        n = len(self.R[r]["sets"][s]["n"])
        m = rng.choice([0, 0, 1, 1, 2])
        rows = rng.choice([1, 2, 3]) if m == 2 else rng.choice([1, 2, 3, 4])
        w = [rng.choice([1, 1, 2]) for _ in range(n)] if rng.random() < .4 else []
        cols = n if w else rng.choice([2, 3, 4, 5])
        for _ in range(50):
            v = [[rng.randrange(-3, 4) for _ in range(cols)] for _ in range(rows)]
            if well(v, rows, cols, m):
                break
        else:
            return
        g = [rng.choice([1, 1, 2]) for _ in range(rows)] if rng.random() < .3 else []
        self.op("pinv", r=r, s=s, m=m, dbl=rng.random() < .4, rows=rows, v=sum(v, []), g=g, w=w, lam=rng.choice([1, 2, 3]) if m == 1 else 0)

    # ------------------------------------------------------------------ generic solver
    def gik(self):
        rng, z = self.rng, self.rng.random()
        if not self.G or (z < .2 and len(self.G) < 3):
            r, g = self.r(), self.name(self.G, "g")
            s = self.ks(r)
            self.G[g] = {"r": r, "s": s}
            self.op("gik", g=g, r=r, s=s, m=rng.choice([1, 1, 0, 2]))
            return
        g = rng.choice(sorted(self.G))
        r, s = self.G[g]["r"], self.G[g]["s"]
        R = self.R[r]
        tcp = R["sets"][s]["tcp"]
        if rng.random() < .2:
            self.blocked(g)
        elif z < .35:
            self.op("gset", g=g, tp=rng.choice([1, 3, 11, 41]), tr=rng.choice(TRS), st=rng.choice([30, 60, 100]), n=rng.choice([5, 20, 30]))
        elif z < .5 and self.O:
            self.op("gcol", g=g, how=rng.randrange(4), o=rng.choice(["-"] + sorted(self.O)))
        elif z < .53 and s == "K":
            self.lattice(r)
            self.op("greach", g=g, poses=rng.choice([50, 300]))
        elif z < .65 and R["eefs"]:
            self.lattice(r)
            o = self.name(self.MO, "m")
            n = rng.choice([-1, 0, 1, 2, 3])
            gs = [rpose(rng, 100, 50) for _ in range(max(n, 0))]
            goal = self.target(r, "tcp")
            p = mm(goal, rng.choice(gs)) if gs and rng.random() < .8 else rpose(rng, 300, 50)
            self.MO[o] = {"n": n, "r": r}
            self.op("gobj", r=r, ef="hand", o=o, p=p, n=n, gs=sum(gs, []))
        else:
            self.lattice(r)
            k = rng.choice([0, 0, 0, 1, 2, 2, 3, 4])
            mo = [o for o in sorted(self.MO) if self.MO[o]["r"] == r and (k != 3 or self.MO[o]["n"] > 0)]
            o, gi = "-", 0
            if k >= 3:
                if not mo or not R["eefs"] or tcp != "tcp":
                    k = 0
                else:
                    o = rng.choice(mo)
                    gi = rng.randrange(max(1, self.MO[o]["n"]))
            self.op("gsolve", g=g, k=k, p=self.target(r, tcp), sel=15 if rng.random() < .7 else rng.choice([7, 8, 1, 3]), loops=rng.choice([1, 1, 3, 8]), o=o, gi=gi)
            R["known"] = k == 2

    def blocked(self, g):
        """a goal whose configuration puts a link into a plate"""
        rng, r, s = self.rng, self.G[g]["r"], self.G[g]["s"]
        R = self.R[r]
        ns = [n for n in R["sets"][s]["n"] if any(R["nd"][n]["box"])]
        if not ns or len(self.O) >= 8:
            return
        self.lattice(r)
        q = dict(R["q"], **self.values(r, R["sets"][s]["n"]))
        o, n = self.name(self.O, "o"), ns[-1] if rng.random() < .8 else rng.choice(ns)
        h = [rng.choice([60, 100]) for _ in range(3)]
        h[rng.randrange(3)] = 7
        self.O[o] = p = trans(self.fk(r, n, q)[9:])
        self.op("obs", o=o, p=p, hs=h)
        self.op("gcol", g=g, how=rng.randrange(4), o=o)
        self.op("gset", g=g, tp=11, tr=rng.choice(TRS), st=60, n=30)
        for _ in range(rng.choice([1, 2, 3])):
            self.lattice(r)
            self.setq(r, self.values(r, R["sets"][s]["n"]))
            self.op("gsolve", g=g, k=rng.choice([0, 1, 2]), p=self.fk(r, R["sets"][s]["tcp"], q), sel=rng.choice([15, 7, 7]), loops=rng.choice([3, 8, 15]), o="-", gi=0)
            R["known"] = False

    # ------------------------------------------------------------------ hierarchies
    def hier(self):
        rng, z = self.rng, self.rng.random()
        r = self.r()
        R = self.R[r]
        if z < .4:
            self.lattice(r)
            s = self.ks(r)
            if s not in R["rev"]:
                return
            xs = [self.newdik(r, "-", True, s) for _ in range(rng.choice([2, 2, 3]))]
            for x in xs:
                self.goal(x)
            self.op("hstep", r=r, s=s, xs=xs)
        elif z < .55 and R["gaze"]:
            self.lattice(r)
            self.op("gaze", r=r, s="Z", vj="vj", v=[rng.randrange(-500, 501, 50) for _ in range(3)] if rng.random() < .5 else self.target(r, "vp")[9:], tp=rng.choice([3, 11]), jla=rng.random() < .5)
            R["known"] = False
        else:
            self.lattice(r)
            s, h = self.ks(r), self.name(self.H, "h")
            self.H[h] = r
            self.op("hik", h=h, r=r, s=s)
            ts, b, k = set(), "-", rng.choice([1, 1, 2, 2, 3])
            for _ in range(k):
                y = rng.random()
                if y < .75:
                    x = self.newdik(r, "-", True, s)
                    for _ in range(rng.choice([1, 1, 2])):
                        self.goal(x, rng.choice([None, None, 0]))
                    ts |= set(self.X[x]["goals"])
                    self.op("hadd", h=h, k=0, x=x)
                elif b == "-":
                    b = rng.choice(["M", "N"])
                    y = self.name(self.Y, "y")
                    self.Y[y] = {"r": r, "b": b, "dm": rng.choice([2, 3])}
                    self.op("comik", y=y, r=r, j=s, b=b, c="-", dm=self.Y[y]["dm"])
                    self.cgoal(y)
                    self.op("hadd", h=h, k=1, x=y)
                else:
                    x = self.newdik(r, "-", True, s)
                    self.goal(x)
                    self.op("hadd", h=h, k=2, x=x)
            self.op("hsolve", h=h, r=r, ts=sorted(ts), b=b, st=rng.choice([30, 60]), n=rng.choice([5, 20]))
            R["known"] = False

    # ------------------------------------------------------------------ constraints
    def con(self, r, s, kinds):
        rng, R = self.rng, self.R[r]
        k, kind = self.name(self.C, "c"), rng.choice(kinds)
        sets, sel = R["sets"], rng.choice([15, 15, 7, 7, 8, 1, 2, 4])
        if kind == "bal":
            self.stand(r)
            if not any(self.down(r, f) for f in R["feet"]):
                kind = "pose"
        if kind in ("ref", "jla") and s not in R["rev"]:
            kind = "pos"
        if kind == "col" and not self.O:
            kind = "pose"
        t = rng.choice([sets[s]["tcp"], "tcp"] + R["tips"])
        p, off, vs, ft = self.target(r, t), I, [], "-"
        if kind in ("com2", "com3"):
            t = rng.choice(["M", "N"])
            p = trans([x + rng.choice([0, 0, 2, -10]) for x in self.comat(r, t)])
        elif kind == "ref":
            t, v = "-", self.values(r, sets[s]["n"])
            vs = [v[n] for n in sets[s]["n"]]
        elif kind == "jla":
            t = "-"
        elif kind == "col":
            t = rng.choice(sorted(self.O))
        elif kind == "tsr":
            vs = sum(([-rng.choice([0, 0, 10, 100]), rng.choice([0, 0, 20, 100])] for _ in range(3)), [])
            full = rng.random() < .5
            vs += ([0, 0] if not full else [-180, 180]) * 3
            off = rpose(rng, 50, 50)
            p = mm(p, off)
            if rng.random() < .3:
                p = mm(p, rpose(rng, 20, 10))
        elif kind == "bal":
            t, ft, p = rng.choice(["M", "N"]), rng.choice([f for f in R["feet"] if self.down(r, f)]), I
            sel = rng.choice([0, 1, 3, 5, 8])
        self.C[k] = {"r": r, "s": s, "kind": kind, "t": t, "p": p}
        self.op("con", k=k, r=r, s=s, kind=kind, t=t, p=p, sel=sel, tp=rng.choice([1, 5, 11, 41]), tr=rng.choice(TRS), vs=vs, off=off, ft=ft)
        return k

    def conop(self):
        rng, z = self.rng, self.rng.random()
        if not self.C or (z < .4 and len(self.C) < 8):
            r = self.r()
            self.lattice(r)
            self.con(r, self.ks(r), ["pos", "pos", "ori", "ori", "pose", "pose", "com3", "com2", "ref", "jla", "tsr", "tsr", "bal", "bal"])
            return
        k = rng.choice(sorted(self.C))
        c = self.C[k]
        self.lattice(c["r"])
        kind = c["kind"]
        if z < .55 and kind in ("pose", "com3", "com2"):
            p = self.target(c["r"], c["t"]) if kind == "pose" else trans([x + rng.choice([0, 0, 2, -10]) for x in self.comat(c["r"], c["t"])])
            self.op("ctgt", k=k, p=p, kind=kind)
        elif z < .7 and kind in ("pos", "ori", "pose", "com3", "com2", "tsr", "bal"):
            self.op("ctol", k=k)
        elif kind in ("tsr", "col"):
            return
        elif z < .85:
            i = rng.randrange(2) if kind == "pose" else 0
            sc = {"pos": 1, "ori": RAD ** -2, "pose": 100 if i == 0 else RAD ** -2, "com3": 1, "com2": 1, "ref": RAD ** -2, "jla": RAD ** -2, "bal": 10000}[kind]
            self.op("cval", k=k, id=i, sc=sc)
        else:
            i = rng.randrange(2) if kind == "pose" else 0
            rot = 1000 / RAD
            sc = {"pos": 1, "ori": rot, "pose": 100 if i == 0 else rot, "com3": 1, "com2": 1, "ref": rot, "jla": rot, "bal": 1e6}[kind]
            self.op("cgrad", k=k, id=i, sc=sc)

    def cikop(self):
        rng = self.rng
        r = self.r()
        R = self.R[r]
        self.lattice(r)
        s, kk, ty = self.ks(r), self.name(self.K, "k"), rng.choice([0, 1, 2, 2])
        self.K[kk] = r
        self.op("cik", kk=kk, r=r, s=s, ty=ty, it=rng.choice([3, 10, 30]))
        kinds = ["pose", "pose", "tsr"] if ty < 2 else ["pose", "pos", "pos", "ori", "com3", "com2", "ref", "jla", "tsr", "col"]
        cs, b, on = [], "-", "-"
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = self.con(r, s, kinds)
            kind = self.C[c]["kind"]
            if kind in ("com2", "com3"):
                if b not in ("-", self.C[c]["t"]):
                    continue
                b = self.C[c]["t"]
            if kind == "col":
                if on not in ("-", self.C[c]["t"]):
                    continue
                on = self.C[c]["t"]
            cs.append(c)
            self.op("cadd", kk=kk, c=c, prio=rng.choice([0, 0, 1, 2]), h=rng.random() < .7)
        if not cs:
            return
        if len(cs) > 1 and rng.random() < .2:
            c = cs.pop(rng.randrange(len(cs)))
            self.op("crem", kk=kk, c=c)
        if ty == 2 and rng.random() < .4:
            v = self.values(r, R["sets"][s]["n"])
            self.op("cseed", kk=kk, vs=[v[n] * RAD if R["nd"][n]["typ"] == "rev" else v[n] for n in R["sets"][s]["n"]])
        for _ in range(rng.choice([1, 1, 2])):
            self.op("ksolve", kk=kk, r=r, s=s, ts=sorted({self.C[c]["t"] for c in cs if self.C[c]["kind"] in ("pos", "ori", "pose", "tsr")}), b=b, o=on)
        R["known"] = False

    def support(self):
        rng, r = self.rng, self.r()
        R = self.R[r]
        if not R["feet"]:
            return
        self.lattice(r)
        self.stand(r)
        self.op("support", r=r, b=rng.choice(["M", "N"]), fs=rng.sample(R["feet"], rng.randrange(1, len(R["feet"]) + 1)), upd=rng.random() < .5)

    def down(self, r, f):
        return self.R[r]["nd"][f]["loc"][11] == 20

    def stand(self, r):
        """upright on the floor"""
        rng, R = self.rng, self.R[r]
        if R["pose"][9 + 2] != 0 or R["pose"][8] != 1 and rng.random() < .9:
            R["pose"] = mm(rotation([0, 0, 1], rng.choice([0, 0, 90, 180])), trans([0, 0, 0]))
            R["pose"][9:] = [rng.randrange(-2, 3) * 100, rng.randrange(-2, 3) * 100, 0]
            self.op("rpose", r=r, p=R["pose"])


def well(v, rows, cols, m):
    """is the matrix far from losing rank (and of full row rank for the transposed method)"""
    g = [[float(sum(v[i][k] * v[j][k] for k in range(cols))) for j in range(rows)] for i in range(rows)]
    for _ in range(60):                 # Jacobi rotations
        i, j = max(((i, j) for i in range(rows) for j in range(i)), key=lambda x: abs(g[x[0]][x[1]]), default=(0, 0))
        if i == j or abs(g[i][j]) < 1e-12:
            break
        t = .5 * math.atan2(2 * g[i][j], g[i][i] - g[j][j])
        c, n = math.cos(t), math.sin(t)
        for k in range(rows):
            g[i][k], g[j][k] = c * g[i][k] + n * g[j][k], c * g[j][k] - n * g[i][k]
        for k in range(rows):
            g[k][i], g[k][j] = c * g[k][i] + n * g[k][j], c * g[k][j] - n * g[k][i]
    s = sorted((math.sqrt(max(0, g[k][k])) for k in range(rows)), reverse=True)
    s = [x for x in s if x > 1e-4]
    if not len(s) or s[-1] < .6:
        return False
    return m != 2 or (len(s) == rows and rows <= cols)


def model(ctx):
    """the arm of MC_Ik.tla"""
    def n(par, typ, ax, lo, hi, loc, mass, com):
        return {"par": par, "typ": typ, "ax": ax, "lo": lo * 1000, "hi": hi * 1000, "free": False, "loc": loc, "mass": mass, "com": com, "box": [0, 0, 0]}
    z = [0, 0, 0]
    nd = {"root": n("", "fixed", z, 0, 0, I, 2, z), "a": n("root", "rev", [0, 0, 1], -180, 180, trans([0, 0, 100]), 1, [20, 0, 0]),
          "b": n("a", "rev", [0, 1, 0], -100, 100, trans([50, 0, 100]), 2, [0, 0, 60]), "c": n("b", "pris", [0, 0, 1], 0, 200, trans([0, 0, 150]), 1, z),
          "d": n("c", "rev", [1, 0, 0], -90, 180, [0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 30, 60], 3, [-40, 0, 20]), "tcp": n("d", "fixed", z, 0, 0, trans([0, 30, 100]), 0, z)}
    d = {"nd": nd, "order": list(nd), "eefs": {}, "sets": {"K": {"n": ["a", "b", "c", "d"], "tcp": "tcp"}, "P": {"n": ["d", "b"], "tcp": "d"}, "M": {"n": sorted(nd), "tcp": "tcp"}}}
    f = os.path.join(ctx.scratch, "arm.xml")
    open(f, "w").write(Gen.xml(None, d))
    return [{"op": "reset"}, {"op": "robot", "r": "A", "file": f, "nd": dict(nd, _=0), "sets": dict(d["sets"], _=0), "eefs": {"_": 0}},
            {"op": "ik", "x": "x", "r": "A", "s": "K", "c": "-", "m": 1, "mm": False, "ms": 0}, {"op": "ik", "x": "y", "r": "A", "s": "P", "c": "b", "m": 1, "mm": False, "ms": 0},
            {"op": "comik", "y": "k", "r": "A", "j": "K", "b": "M", "c": "-", "dm": 3}, {"op": "cgoal", "y": "k", "vs": [0, 0, 200], "tp": 41}]


def c22(ctx):
    head = model(ctx)
    ctx.build(["ik"], ["VirtualRobot"])
    ctx.mc("MC_Ik", "MC_Ik" + ctx.scale("", "_deep"), timeout=1500)
    rng, scr = ctx.rng("ik"), []
    for h in ctx.sim("MC_Ik", "MC_Ik_sim", ctx.scale(24, 300), 26):
        scr.append(head + strip(h))
    for i in range(ctx.scale(200, 2400)):
        g = Gen(ctx, rng, i)
        for _ in range(ctx.scale(40, 60)):
            g.step()
        scr.append(g.ev)
    per = 8
    for k in range(0, len(scr), per):
        ctx.add("ik-%d" % (k // per), "ik", [e for s in scr[k:k + per] for e in s], SIG, "IkTrace", ctx.prop, timeout=150)
    ctx.run()
