"""Suites on motion planning: search trees (C10), planners (C11), paths (C12), path processing (C13)."""
import os
from framework import parse_sig
from s_scene import strip

SIG = parse_sig("""
reset
env file:s dump:b joints:S angular:L obstacles:L
space s:s k:s cap:i
sclone s:s t:s
sbound s:s d:i a:i b:i
sbounds s:s a:L b:L
qbounds s:s
sweights s:s w:L
suse s:s b:b
ssamp s:s p:i d:i
scons s:s c:L b:i
qdist s:s a:L b:L off:b
qin,qresp,qfree,qodist s:s c:L
qvalid s:s c:L m:i
qint s:s a:L b:L k:i
qpath,quntil,qpv s:s a:L b:L
qrand s:s n:i b:b
nnew,nrel s:s k:s
tnew s:s t:s u:b
tupd t:s u:b
tapp t:s k:i c:L d:b
tpath,tuntil t:s k:i c:L
tpathl s:s t:s k:i n:i l:L
trem t:s k:i
tnn t:s c:L
tsol t:s k:i l:i
tlen t:s w:b
treset,tcheck t:s
sreset s:s
tsave t:s file:s
pnew p:s k:s s:s
padd p:s c:L
pins p:s k:i c:L
pinsl p:s k:i n:i l:L
pinst p:s k:i q:s
perase p:s k:i
prem p:s k:i l:i
prev,preset,pcont,plen,pws,pcheck p:s
pset p:s k:i c:L
pclone p:s q:s
psub p:s k:i l:i q:s
pget,ptime p:s k:i
pgets p:s k:i l:i
plenw p:s w:b
plenr p:s k:i l:i w:b
pint p:s t:i
xnew x:s k:s p:s
xopt x:s n:i seed:i vis:b q:s
xlimit x:s n:i d:i seed:i
xprune x:s
xcut,xok x:s k:i l:i
xsel x:s d:i seed:i
mnew m:s k:s s:s ma:s mb:s p:i step:i maxc:i
mstart,mgoal m:s c:L
minit,mreset,mtree m:s
mtimeout m:s ms:i
watch w:s s:s at:i us:i
warm w:s m:s at:i us:i
mplan m:s seed:i vis:b q:s
msol m:s q:s
thnew t:s m:s
thstart t:s n:i e:i
thstop t:s i:b e:i
thint,thrun t:s
thbusy w:s n:i
thwait t:s e:i
thres t:s q:s
thrace t:s n:i us:i e:i
thdel t:s e:i
""")
HB = [30, 30, 300]


def robot_xml(path, ax, lim, p0):
    """a chain of prismatic joints that moves a tool, limitless joints at a side branch"""
    o = ["<Robot Type='Mover' RootNode='base'>", "<RobotNode name='base'><Child name='mount'/>"]
    ang = [d for d in range(len(ax)) if ax[d] == 0]
    if ang:
        o.append("<Child name='j%d'/>" % ang[0])
    o.append("</RobotNode>")
    o.append("<RobotNode name='mount'><Transform><Translation x='%g' y='%g' z='%g'/></Transform>" % tuple(x / 10 for x in p0))
    lin = [d for d in range(len(ax)) if ax[d]]
    chain = ["j%d" % d for d in lin] + ["tool"]
    o.append("<Child name='%s'/></RobotNode>" % chain[0])
    for k, d in enumerate(lin):
        o.append("<RobotNode name='j%d'><Joint type='prismatic'><Limits lo='%g' hi='%g' units='mm'/><TranslationDirection x='%d' y='%d' z='%d'/></Joint><Child name='%s'/></RobotNode>" % (
            d, lim[d][0] / 10, lim[d][1] / 10, ax[d] == 1, ax[d] == 2, ax[d] == 3, chain[k + 1]))
    o.append("<RobotNode name='tool'><CollisionModel><Primitives><Box width='%g' height='%g' depth='%g'/></Primitives></CollisionModel></RobotNode>" % tuple(x / 5 for x in HB))
    for k, d in enumerate(ang):
        o.append("<RobotNode name='j%d'><Joint type='revolute'><Limits lo='-180' hi='180' units='degree' limitless='true'/><Axis x='0' y='0' z='1'/></Joint>%s</RobotNode>" % (
            d, "<Child name='j%d'/>" % ang[k + 1] if k + 1 < len(ang) else ""))
    o.append("</Robot>")
    open(path, "w").write("\n".join(o))


class SabaGen:
    def __init__(self, ctx, rng, i, dump, ax=None, nobs=None, span=None, wall=False):
        self.rng, self.ev, self.ctx = rng, [{"op": "reset"}], ctx
        ax = ax or rng.choice([[1], [1, 2], [1, 2], [2, 1, 3], [1, 0], [0, 1, 2], [1, 2, 0, 0], [1, 2, 1], [0]])
        self.ax = ax
        span = span or rng.choice([300, 800, 2000])
        self.lim = [[-span, span] if a else [0, 0] for a in ax]
        if rng.random() < .3:
            self.lim = [[l - rng.randrange(0, 100), h + rng.randrange(0, 100)] if a else [0, 0] for a, (l, h) in zip(ax, self.lim)]
        p0 = [rng.randrange(-20, 21) * 10 for _ in range(3)] if rng.random() < .3 and not wall else [0, 0, 0]
        obs = []
        self.span = span
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if nobs is None else nobs):
            c = [p0[k] + (rng.randrange(-span, span + 1) if (k + 1) in ax else rng.choice([0, 0, 0, 40])) for k in range(3)]
            c[2] = p0[2] + rng.randrange(-20, 21) if 3 not in ax else c[2]
            h = [rng.randrange(35, max(36, span // 3)), rng.randrange(35, max(36, span // 3)), rng.randrange(50, 200)]
            obs += c + h
        if wall:
            obs += [rng.randrange(-50, 51), 0, 0, rng.randrange(90, 130), 3000, 150]
        f = os.path.join(ctx.scratch, "saba-%s-%d.xml" % (ctx.prop, i))
        robot_xml(f, ax, self.lim, p0)
        self.op("env", file=f, dump=dump, joints=["j%d" % d for d in range(len(ax))], angular=[int(a == 0) for a in ax], obstacles=obs,
                ax=ax, hb=HB, p0=p0, lim=self.lim)
        self.obs, self.p0 = obs, p0
        self.spaces, self.kind, self.samp = [], {}, {}
        self.trees, self.count, self.loose, self.n = {}, {}, {}, 0

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def cfg(self, wide=False):
        rng = self.rng
        r = []
        for a, (l, h) in zip(self.ax, self.lim):
            if not a:
                r.append(rng.randrange(-1790, 1791))
            elif wide and rng.random() < .2:
                r.append(rng.randrange(l - 200, h + 201))
            else:
                r.append(rng.randrange(l, h + 1))
        return r

    def near(self, c, d):
        rng = self.rng
        return [max(l, min(h, x + rng.randrange(-d, d + 1))) if a else max(-1790, min(1790, x + rng.randrange(-d, d + 1))) for a, x, (l, h) in zip(self.ax, c, self.lim)]

    def clear(self, c):
        """rough test, only to make interesting scripts"""
        t = list(self.p0)
        for a, x in zip(self.ax, c):
            if a:
                t[a - 1] += x
        for j in range(0, len(self.obs), 6):
            if all(abs(t[k] - self.obs[j + k]) < HB[k] + self.obs[j + 3 + k] + 5 for k in range(3)):
                return False
        return True

    def free(self):
        for _ in range(30):
            c = self.cfg()
            if self.clear(c):
                break
        return c

    def space(self, kind=None, cap=200, samp=None, dcd=None, weights=True, cons=.25, setup=True):
        rng, s = self.rng, "S%d" % len(self.spaces)
        kind = kind or rng.choice(["sampled", "sampled", "plain"])
        self.op("space", s=s, k=kind, cap=cap)
        self.spaces.append(s)
        self.kind[s] = kind
        if kind == "sampled":
            p = samp or self.span // rng.choice([3, 5, 8]) + rng.randrange(10)
            d = dcd or rng.choice([p, p, max(20, p // 2), max(20, p // 3), p * 2])
            self.op("ssamp", s=s, p=p, d=d)
            self.samp[s] = (p, d)
        if weights and rng.random() < .3:
            self.op("sweights", s=s, w=[rng.randrange(1, 4) if a else rng.choice([1, 1, 5, 20]) for a in self.ax])
            if rng.random() < .2:
                self.op("suse", s=s, b=False)
        if setup and rng.random() < .3:
            d = rng.choice([d for d in range(len(self.ax))])
            if self.ax[d]:
                self.op("sbound", s=s, d=d, a=self.lim[d][0] + rng.randrange(0, 60), b=self.lim[d][1] - rng.randrange(0, 60))
        if rng.random() < cons and any(self.ax):
            c = [rng.choice([-1, 0, 1, 1]) if a else 0 for a in self.ax]
            self.op("scons", s=s, c=c, b=rng.randrange(0, 2 * self.span))
        return s

    # ---- C10
    def query(self, s):
        rng, c = self.rng, self.rng.randrange(100)
        a, b = self.cfg(), self.cfg()
        if rng.random() < .3:
            b = self.near(a, self.span // 8)
        if rng.random() < .05:
            b = a
        if c < 14:
            self.op("qdist", s=s, a=a, b=b, off=rng.random() < .4)
        elif c < 22:
            self.op("qin", s=s, c=self.cfg(True))
        elif c < 28:
            self.op("qresp", s=s, c=self.cfg(True))
        elif c < 38:
            self.op("qvalid", s=s, c=self.cfg(True), m=rng.randrange(8))
        elif c < 44:
            self.op("qfree", s=s, c=self.cfg(True))
        elif c < 50:
            self.op("qodist", s=s, c=self.cfg())
        elif c < 58:
            self.op("qint", s=s, a=a, b=b, k=rng.randrange(101))
        elif c < 70:
            self.op("qpath", s=s, a=a, b=b)
        elif c < 82:
            self.op("quntil", s=s, a=a, b=b)
        elif c < 92:
            self.op("qpv", s=s, a=a, b=b)
        elif c < 97:
            self.op("qrand", s=s, n=rng.randrange(1, 5), b=False)
        else:
            self.op("qbounds", s=s)

    def newtree(self, s):
        t = "T%d" % len(self.trees)
        self.op("tnew", s=s, t=t, u=self.rng.random() < .6)
        self.trees[t] = s
        self.count[t] = 0
        return t

    def treestep(self, t):
        rng, s = self.rng, self.trees[t]
        if not self.count[t]:
            if rng.random() < .2:
                self.op("tupd", t=t, u=rng.random() < .6)
            self.op("tapp", t=t, k=-1, c=self.free(), d=rng.random() < .3)
            self.count[t] = 1
            return
        c, k = rng.randrange(100), rng.randrange(60)
        q = self.free() if rng.random() < .7 else self.cfg()
        if c < 20:
            self.op("tapp", t=t, k=k, c=q, d=rng.random() < .3)
        elif c < 30:
            self.op("tpath", t=t, k=k, c=q)
        elif c < 42:
            self.op("tuntil", t=t, k=k, c=q)
        elif c < 48:
            n = rng.randrange(0, 4)
            self.op("tpathl", s=s, t=t, k=k, n=n, l=[x for _ in range(n) for x in self.cfg()])
        elif c < 60:
            self.op("trem", t=t, k=k)
            self.count[t] = 0 if len([e for e in self.ev if e.get("t") == t]) < 4 else self.count[t]
        elif c < 74:
            self.op("tnn", t=t, c=self.cfg())
        elif c < 86:
            self.op("tsol", t=t, k=rng.choice([0, 0, rng.randrange(60)]), l=k)
        elif c < 90:
            self.op("tlen", t=t, w=rng.random() < .5)
        elif c < 93:
            self.op("tsave", t=t, file=os.path.join(self.ctx.scratch, "tree.txt"))
        elif c < 96:
            self.op("tcheck", t=t)
        elif c < 98:
            self.op("treset", t=t)
            self.count[t] = 0
        elif rng.random() < .4:
            self.op("sreset", s=s)
            for u in self.trees:
                if self.trees[u] == s:
                    self.count[u] = 0
            for l in [l for l in self.loose if self.loose[l] == s]:
                del self.loose[l]

    def pool(self, s):
        rng = self.rng
        if self.loose and rng.random() < .5:
            l = rng.choice(sorted(self.loose))
            self.op("nrel", s=self.loose.pop(l), k=l)
        else:
            l = "l%d" % self.n
            self.n += 1
            self.op("nnew", s=s, k=l)
            self.maybe = l
            self.loose[l] = s

    # ---- C12
    def path(self, k, s, n=None):
        p = "p%d" % self.n
        self.n += 1
        self.op("pnew", p=p, k=k, s=s)
        for _ in range(self.rng.randrange(0, 6) if n is None else n):
            self.op("padd", p=p, c=self.cfg())
        return p


def emptied(ev):
    """a tree can become empty by removals: operations that need a node are preceded by a root"""
    return ev


def c10(ctx):
    ctx.build(["sab"], ["VirtualRobot", "Saba"])
    ctx.mc("MC_CTree", "MC_CTree" + ctx.scale("", "_deep"), timeout=1500)
    rng = ctx.rng("tree")
    f = os.path.join(ctx.scratch, "line.xml")
    robot_xml(f, [1], [[-2000, 2000]], [0, 0, 0])
    head = [{"op": "reset"}, {"op": "env", "file": f, "dump": True, "joints": ["j0"], "angular": [0], "obstacles": [], "ax": [1], "hb": HB, "p0": [0, 0, 0], "lim": [[-2000, 2000]]},
            {"op": "space", "s": "S", "k": "plain", "cap": 6}, {"op": "tnew", "s": "S", "t": "A", "u": True}, {"op": "tnew", "s": "S", "t": "B", "u": False}]
    hs = [head + strip(h) for h in ctx.sim("MC_CTree", "MC_CTree_sim", ctx.scale(40, 400), 44)]
    for k in range(0, len(hs), 12):
        ctx.add("specified-%d" % (k // 12), "sab", [e for h in hs[k:k + 12] for e in h], SIG, "SabaTrace", ctx.prop)
    scr = []
    for i in range(ctx.scale(60, 600)):
        g = SabaGen(ctx, rng, i, True)
        cap = rng.choice([8, 30, 60, 60])
        s = g.space(cap=cap)
        if rng.random() < .3:
            g.space(cap=cap)
        if g.kind[s] == "sampled" and rng.random() < .3:
            t = "S%d" % len(g.spaces)
            g.op("sclone", s=s, t=t)
            g.spaces.append(t)
            g.kind[t] = "sampled"
            if rng.random() < .5:
                g.op("qbounds", s=t)
        for _ in range(rng.randrange(1, 4)):
            g.newtree(rng.choice(g.spaces))
        for _ in range(ctx.scale(40, 60)):
            c = rng.randrange(100)
            if c < 12:
                g.query(rng.choice(g.spaces))
            elif c < 20:
                g.pool(rng.choice(g.spaces))
            else:
                g.treestep(rng.choice(sorted(g.trees)))
        scr.append(g.ev)
    per = 6
    for k in range(0, len(scr), per):
        ctx.add("trees-%d" % (k // per), "sab", [e for s in scr[k:k + per] for e in s], SIG, "SabaTrace", ctx.prop)
    ctx.run()


def c12(ctx):
    ctx.build(["sab"], ["VirtualRobot", "Saba"])
    ctx.mc("MC_Paths", "MC_Paths" + ctx.scale("", "_deep"), timeout=1500)
    rng = ctx.rng("paths")
    f = os.path.join(ctx.scratch, "line.xml")
    robot_xml(f, [1], [[-2000, 2000]], [0, 0, 0])
    head = [{"op": "reset"}, {"op": "env", "file": f, "dump": False, "joints": ["j0"], "angular": [0], "obstacles": [], "ax": [1], "hb": HB, "p0": [0, 0, 0], "lim": [[-2000, 2000]]},
            {"op": "space", "s": "S", "k": "sampled", "cap": 4}, {"op": "ssamp", "s": "S", "p": 20, "d": 20}, {"op": "sweights", "s": "S", "w": [2]},
            {"op": "pnew", "p": "p", "k": "cspace", "s": "S"}, {"op": "pnew", "p": "q", "k": "traj", "s": "-"}]
    hs = [head + strip(h) for h in ctx.sim("MC_Paths", "MC_Paths_sim", ctx.scale(25, 400), 44)]
    for k in range(0, len(hs), 12):
        ctx.add("specified-%d" % (k // 12), "sab", [e for h in hs[k:k + 12] for e in h], SIG, "SabaTrace", ctx.prop)
    scr = []
    for i in range(ctx.scale(70, 700)):
        g = SabaGen(ctx, rng, i, False)
        s = g.space(kind="sampled", cap=3, cons=.2)
        n = {}
        ps = []
        for _ in range(rng.randrange(2, 5)):
            k = rng.choice(["traj", "cspace", "cspace"])
            p = g.path(k, s)
            ps.append((p, k))
        subs = 0
        for _ in range(ctx.scale(60, 100)):
            p, k = rng.choice(ps)
            c, pos = rng.randrange(100), rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 12])
            if c < 8:
                g.op("padd", p=p, c=g.cfg())
            elif c < 14:
                g.op("pins", p=p, k=pos, c=g.cfg())
            elif c < 18:
                m = rng.randrange(0, 4)
                g.op("pinsl", p=p, k=pos, n=m, l=[x for _ in range(m) for x in g.cfg()])
            elif c < 23:
                q, l = rng.choice(ps)
                g.op("pinst", p=p, k=pos, q=q)
            elif c < 28:
                g.op("perase", p=p, k=pos)
            elif c < 32:
                g.op("prem", p=p, k=pos, l=pos + rng.randrange(-1, 4))
            elif c < 37:
                g.op("prev", p=p)
            elif c < 38:
                g.op("preset", p=p)
            elif c < 42:
                g.op("pset", p=p, k=pos, c=g.cfg())
            elif c < 46 and len(ps) < 8:
                q = "p%d" % g.n
                g.n += 1
                g.op("pclone", p=p, q=q)
                ps.append((q, k))
            elif c < 49:
                g.op("psub", p=p, k=pos, l=pos + rng.randrange(-1, 5), q="sub%d" % i)
                subs = 1
            elif c < 56:
                g.op("pcont", p=p)
            elif c < 59:
                g.op("pget", p=p, k=pos)
            elif c < 62:
                g.op("pgets", p=p, k=pos, l=pos + rng.randrange(-1, 4))
            elif c < 66:
                g.op("plen", p=p)
            elif c < 70:
                g.op("plenw", p=p, w=rng.random() < .5)
            elif c < 74:
                if k == "cspace":
                    g.op("plenr", p=p, k=pos, l=pos + rng.randrange(-1, 5), w=rng.random() < .5)
            elif c < 77:
                if k == "cspace":
                    g.op("ptimex", p=p, k=pos)
            elif c < 92:
                g.op("pintx", p=p, t=10 * rng.choice([0, 1000, 500, rng.randrange(1001), rng.randrange(1001), 1, 999]))
            elif c < 95:
                g.op("pws", p=p)
            elif k == "cspace":
                g.op("pcheck", p=p)
        scr.append(sized(g.ev))
    per = 6
    for k in range(0, len(scr), per):
        ctx.add("paths-%d" % (k // per), "sab", [e for s in scr[k:k + per] for e in s], SIG, "SabaTrace", ctx.prop)
    ctx.run()


def sized(ev):
    """keeps paths short, and drops queries of empty paths that have no meaning"""
    n, r = {}, []
    for e in ev:
        o, p = e["op"], e.get("p")
        if o == "pnew":
            n[p] = 0
        elif o == "padd":
            n[p] += 1
        elif o == "pins":
            n[p] += e["k"] <= n[p]
        elif o == "pinsl":
            n[p] += e["n"] if e["k"] <= n[p] else 0
        elif o == "pinst":
            if n[p] + n[e["q"]] > 14:
                continue
            n[p] += n[e["q"]] if e["k"] <= n[p] else 0
        elif o == "perase":
            n[p] -= e["k"] < n[p]
        elif o == "prem":
            if 0 <= e["k"] <= e["l"] < n[p]:
                n[p] -= e["l"] - e["k"] + 1
            elif e["l"] < 0:
                continue
        elif o == "preset":
            n[p] = 0
        elif o == "pclone":
            n[e["q"]] = n[p]
        elif o in ("pintx", "ptimex"):
            if not n[p]:
                continue
            e = dict(e, op=o[:-1])
        if o in ("psub", "pgets", "plenr") and e["l"] < 0:
            continue
        r.append(e)
    return r


def planenv(g, rng, big=False):
    """a sampled space for planning; small steps compared with the obstacles"""
    p = max(40, g.span // rng.choice([4, 6, 9])) + rng.randrange(10)
    d = rng.choice([max(30, min(110, p)), max(25, min(90, p // 2)), max(25, min(70, p // 3))])
    return g.space(kind="sampled", cap=4000, samp=p, dcd=d, cons=.15 if not big else 0), p


def planner(g, rng, s, p, maxc=None):
    m = "m%d" % g.n
    g.n += 1
    k = rng.choice(["rrt", "birrt"])
    ma, mb = rng.choice(["extend", "connect", "complete"]), rng.choice(["extend", "connect", "complete"])
    step = rng.choice([p, p, max(20, p // 2), p * 2])
    g.op("mnew", m=m, k=k, s=s, ma=ma, mb=mb if k == "birrt" else ma, p=rng.choice([5, 10, 30, 50]), step=step, maxc=maxc if maxc is not None else rng.choice([1, 2, 3, 40, 120, 120, 200]))
    return m


MODES = ["extend", "connect", "complete"]


def lattice(ctx, rng, hs, samp=1000):
    """behaviours of MC_Plan and MC_Post"""
    f = os.path.join(ctx.scratch, "lattice.xml")
    lim = [[-450, 450], [-450, 450]]
    robot_xml(f, [1, 2], lim, [0, 0, 0])
    head = [{"op": "reset"}, {"op": "env", "file": f, "dump": False, "joints": ["j0", "j1"], "angular": [0, 0], "obstacles": [0, 0, 0, 100, 100, 100], "ax": [1, 2], "hb": HB, "p0": [0, 0, 0], "lim": lim},
            {"op": "space", "s": "S", "k": "sampled", "cap": 3000}, {"op": "ssamp", "s": "S", "p": samp, "d": 100}]
    return [head + more + strip(h) for h, more in hs]


def c11(ctx):
    ctx.build(["sab"], ["VirtualRobot", "Saba"])
    for k in ["rrt", "birrt"]:
        ctx.mc("MC_Plan", "MC_Plan_" + k + ctx.scale("", "_deep"), timeout=1500)
    rng = ctx.rng("plan")
    scr = lattice(ctx, rng, [(h, [{"op": "mnew", "m": "M", "k": k, "s": "S", "ma": rng.choice(MODES), "mb": rng.choice(MODES), "p": 10, "step": 500, "maxc": 60}])
                             for k in ["rrt", "birrt"] for h in ctx.sim("MC_Plan", "MC_Plan_sim_" + k, ctx.scale(20, 200), 26)])
    for i in range(ctx.scale(60, 600)):
        g = SabaGen(ctx, rng, i, False, ax=rng.choice([[1], [1, 2], [1, 2], [1, 2], [2, 1, 3], [1, 0], [0, 1, 2], [1, 2, 0]]), nobs=rng.choice([0, 1, 2, 3, 4]), span=rng.choice([300, 500, 800]))
        s, p = planenv(g, rng)
        m = planner(g, rng, s, p)
        if rng.random() < .15:
            g.op("watch", w="w", s=s, at=0, us=0)
        for r in range(rng.randrange(1, 6)):
            c = rng.randrange(100)
            if c < 8 and r:
                g.op("mreset", m=m)
            if c < 70 or r == 0:
                a = g.free() if rng.random() < .85 else g.cfg(True)
                b = g.free() if rng.random() < .85 else g.cfg(True)
                if rng.random() < .06:
                    b = a
                elif rng.random() < .1:
                    b = g.near(a, p // 2)
                if rng.random() < .93:
                    g.op("mstart", m=m, c=a)
                if rng.random() < .93:
                    g.op("mgoal", m=m, c=b)
            if rng.random() < .1:
                g.op("mtimeout", m=m, ms=rng.choice([0, 0, 1000000]))
            g.op("minit", m=m)
            g.op("mplan", m=m, seed=rng.randrange(10000), vis=rng.random() < .7, q="q%d" % r)
            if rng.random() < .5:
                g.op("msol", m=m, q="r%d" % r)
            if rng.random() < .5:
                g.op("mtree", m=m)
            if rng.random() < .3:
                g.op("mplan", m=m, seed=rng.randrange(10000), vis=rng.random() < .7, q="z%d" % r)
        scr.append(g.ev)
    # a planner that is stopped by a request made during planning: there is no way around a wall
    for i in range(ctx.scale(12, 100)):
        g = SabaGen(ctx, rng, 1000 + i, False, ax=rng.choice([[1], [1, 2]]), nobs=0, span=500, wall=True)
        s = g.space(kind="sampled", cap=8000, samp=100, dcd=rng.choice([50, 100]), cons=0, weights=False, setup=False)
        g.op("watch", w="w", s=s, at=0, us=0)
        m = planner(g, rng, s, 100, 20000)
        y = [0] * (len(g.ax) - 1)
        g.op("mstart", m=m, c=[-rng.randrange(250, 480)] + y)
        g.op("mgoal", m=m, c=[rng.randrange(250, 480)] + y)
        g.op("warm", w="w", m=m, at=rng.randrange(1, 80), us=0)
        g.op("mplan", m=m, seed=i, vis=True, q="a")
        g.op("msol", m=m, q="b")
        if rng.random() < .5:
            g.op("warm", w="w", m=m, at=rng.randrange(1, 80), us=0)
            g.op("mplan", m=m, seed=i, vis=True, q="a")
        scr.append(g.ev)
    per = 6
    for k in range(0, len(scr), per):
        ctx.add("planning-%d" % (k // per), "sab", [e for s in scr[k:k + per] for e in s], SIG, "SabaTrace", ctx.prop)
    ctx.run()


def c13(ctx):
    ctx.build(["sab"], ["VirtualRobot", "Saba"])
    ctx.mc("MC_Post", "MC_Post" + ctx.scale("", "_deep"), timeout=1500)
    rng = ctx.rng("post")
    scr = lattice(ctx, rng, [(h, [{"op": "pnew", "p": "p", "k": "cspace", "s": "S"}]) for h in ctx.sim("MC_Post", "MC_Post_sim", ctx.scale(20, 200), 26)], 300)
    for i in range(ctx.scale(70, 700)):
        g = SabaGen(ctx, rng, i, False, ax=rng.choice([[1], [1, 2], [1, 2], [1, 2], [2, 1, 3], [1, 0], [0, 1, 2]]), nobs=rng.choice([0, 1, 2, 3]), span=rng.choice([300, 500, 800]))
        s, p = planenv(g, rng)
        c = rng.randrange(100)
        name = "in"
        if c < 45:
            m = planner(g, rng, s, p, 150)
            a, b = g.free(), g.free()
            g.op("mstart", m=m, c=a)
            g.op("mgoal", m=m, c=b)
            g.op("mplan", m=m, seed=rng.randrange(10000), vis=True, q=name)
            n = None
        else:
            g.op("pnew", p=name, k="cspace", s=s)
            n = rng.choice([0, 1, 2, 2, 3, 4, 6, 9, 12])
            q = g.free()
            for _ in range(n):
                g.op("padd", p=name, c=q)
                q = g.near(q, p) if rng.random() < .7 else g.free() if rng.random() < .7 else g.cfg()
            if n and rng.random() < .15:
                g.op("padd", p=name, c=q)
        for r in range(rng.randrange(1, 4)):
            kind = rng.choice(["short", "short", "short", "elastic"])
            x = "x%d" % r
            g.op("xnew", x=x, k=kind, p=name)
            for _ in range(rng.randrange(1, 5)):
                c = rng.randrange(100)
                if kind == "elastic":
                    if g.obs:
                        g.op("xopt", x=x, n=rng.randrange(0, 8), seed=rng.randrange(10000), vis=rng.random() < .7, q="e%d" % r)
                elif c < 40:
                    g.op("xopt", x=x, n=rng.choice([0, 1, 5, 30]), seed=rng.randrange(10000), vis=rng.random() < .7, q="s%d" % r)
                elif c < 50:
                    g.op("xlimit", x=x, n=rng.choice([1, 5, 20]), d=rng.choice([2, 3, 5, 100]), seed=rng.randrange(10000))
                elif c < 65:
                    g.op("xprune", x=x)
                else:
                    k = rng.randrange(0, rng.choice([2, 3, n or 8]))
                    l = k + rng.randrange(1, 6)
                    if c < 78:
                        g.op("xcut", x=x, k=k, l=l)
                    elif c < 90:
                        g.op("xok", x=x, k=k, l=l)
                    else:
                        g.op("xsel", x=x, d=rng.choice([2, 3, 6]), seed=rng.randrange(1000))
                if rng.random() < .3:
                    g.op("pcont", p=name)
            g.op("pcont", p=name)
        scr.append(g.ev)
    # long detours around obstacles: a point may be passed only after a later one has gone
    for i in range(ctx.scale(24, 240)):
        g = SabaGen(ctx, rng, 3000 + i, False, ax=[1, 2], nobs=rng.choice([1, 2, 3]), span=rng.choice([500, 800]))
        s, p = planenv(g, rng)
        for k in range(4):
            name = "in%d" % k
            g.op("pnew", p=name, k="cspace", s=s)
            for _ in range(rng.choice([5, 7, 9, 12])):
                g.op("padd", p=name, c=g.free())
            g.op("xnew", x="x%d" % k, k="short", p=name)
            g.op("xprune", x="x%d" % k)
        scr.append(g.ev)
    per = 7
    for k in range(0, len(scr), per):
        ctx.add("processing-%d" % (k // per), "sab", [e for s in scr[k:k + per] for e in s], SIG, "SabaTrace", ctx.prop)
    ctx.run()


def c18(ctx):
    ctx.build(["sab"], ["VirtualRobot", "Saba"])
    ctx.mc("MC_Threads", "MC_Threads" + ctx.scale("", "_deep"), workers=2)
    rng = ctx.rng("threads")
    scr = []
    for i in range(ctx.scale(40, 400)):
        g = SabaGen(ctx, rng, i, False, ax=rng.choice([[1], [1, 2]]), nobs=0, span=500, wall=True)
        s = g.space(kind="sampled", cap=60000, samp=100, dcd=rng.choice([50, 100]), cons=0, weights=False, setup=False)
        g.op("watch", w="w", s=s, at=0, us=0)
        y = [0] * (len(g.ax) - 1)
        left = lambda: [-rng.randrange(250, 480)] + y
        right = lambda: [rng.randrange(250, 480)] + y
        if rng.random() < .65:
            k = rng.choice(["rrt", "birrt"])
            ma = rng.choice(MODES)
            g.op("mnew", m="m", k=k, s=s, ma=ma, mb=rng.choice(MODES) if k == "birrt" else ma, p=20, step=100, maxc=100000000)
            g.op("thnew", t="t", m="m")
            if rng.random() < .3:
                g.op("thres", t="t", q="r", sure=False)
            if rng.random() < .2:
                g.op("thstop", t="t", i=rng.random() < .5, e=0)
            endless = False
            for r in range(rng.randrange(1, 5)):
                ready = rng.random() < .92 or r
                g.op("warm", w="w", m="m", at=0, us=rng.choice([0, 100, 500]))
                a = left()
                if ready:
                    g.op("mstart", m="m", c=a)
                endless = rng.random() < .6
                g.op("mgoal", m="m", c=right() if endless else left())
                if not ready:
                    endless = False
                c = rng.randrange(100)
                if endless:
                    if c < 15:
                        g.op("thrace", t="t", n=rng.choice([3, 8]), us=rng.choice([0, 0, 20, 300]), e=0)
                        g.op("thres", t="t", q="q%d" % r, sure=False)
                        continue
                    g.op("thstart", t="t", n=1, e=1, endless=True)
                    running = True
                    for _ in range(rng.randrange(0, 4)):
                        d = rng.randrange(4)
                        if d == 0:
                            g.op("thrun", t="t")
                        elif d == 1:
                            g.op("thstart", t="t", n=1, e=1, endless=True)
                        elif d == 2:
                            g.op("thbusy", t="t", w="w", n=rng.randrange(1, 20))
                        else:
                            g.op("thres", t="t", q="z", sure=False)
                    if c < 35:
                        g.op("thbusy", t="t", w="w", n=1)
                        g.op("thint", t="t")
                        if rng.random() < .3:
                            g.op("thint", t="t")
                        g.op("thwait", t="t", e=0)
                    elif c < 45:
                        g.op("thdel", t="t", e=0)
                        g.op("thnew", t="t", m="m")
                        continue
                    else:
                        g.op("thstop", t="t", i=rng.random() < .4, e=0)
                else:
                    g.op("thstart", t="t", n=1, e=-1, endless=False)
                    if rng.random() < .3:
                        g.op("thrun", t="t")
                    if c < 80:
                        g.op("thwait", t="t", e=0)
                    elif ready or c < 90:
                        g.op("thstop", t="t", i=rng.random() < .4, e=0)
                    else:
                        g.op("thdel", t="t", e=0)
                        g.op("thnew", t="t", m="m")
                        continue
                g.op("thrun", t="t")
                g.op("thres", t="t", q="q%d" % r, sure=not endless and bool(ready) and c < 80)
                if rng.random() < .3:
                    g.op("msol", m="m", q="m%d" % r)
                if rng.random() < .2:
                    g.op("thstop", t="t", i=False, e=0)
                if not ready:
                    g.op("thres", t="t", q="y", sure=False)
        else:
            n = rng.choice([0, 1, 2, 4, 8, 12])
            g.op("pnew", p="p", k="cspace", s=s)
            q = left()
            for _ in range(n):
                g.op("padd", p="p", c=q)
                q = g.near(q, 100)
                q[0] = max(-490, min(-250, q[0]))
            kind = rng.choice(["short", "short", "elastic"])
            g.op("xnew", x="x", k=kind, p="p")
            g.op("thnew", t="t", m="x")
            if rng.random() < .5:
                g.op("thres", t="t", q="r", sure=False)
            for r in range(rng.randrange(1, 5)):
                endless = n > 2 and rng.random() < .6
                c = rng.randrange(100)
                if endless and c < 20:
                    g.op("thrace", t="t", n=rng.choice([3, 8]), us=rng.choice([0, 0, 20, 300]), e=0)
                    g.op("thres", t="t", q="q%d" % r, sure=False)
                    continue
                g.op("thstart", t="t", n=2000000000 if endless else rng.choice([0, 1, 10, 50]), e=1 if endless else -1, endless=endless)
                for _ in range(rng.randrange(0, 3)):
                    d = rng.randrange(3)
                    if d == 0:
                        g.op("thrun", t="t")
                    elif d == 1 and endless:
                        g.op("thstart", t="t", n=1, e=1, endless=True)
                    elif endless:
                        g.op("thres", t="t", q="z", sure=False)
                if endless or c < 30:
                    if c < 15 and endless:
                        g.op("thdel", t="t", e=0)
                        g.op("thnew", t="t", m="x")
                        continue
                    g.op("thstop", t="t", i=rng.random() < .4, e=0)
                else:
                    g.op("thwait", t="t", e=0)
                g.op("thrun", t="t")
                g.op("thres", t="t", q="q%d" % r, sure=False)
                if rng.random() < .3:
                    g.op("pcont", p="p")
        scr.append(g.ev)
    per = 5
    for k in range(0, len(scr), per):
        ctx.add("threads-%d" % (k // per), "sab", [e for s in scr[k:k + per] for e in s], SIG, "SabaTrace", ctx.prop)
    ctx.run()
