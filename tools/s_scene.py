"""Suites on scene objects (C03), scenes (C06) and grasps (C15)."""
import os
from framework import parse_sig
from gen_robots import rpose

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "data")
SIG = parse_sig("""
reset
forest
robot r:s file:s
new x:s nm:s c:i p:P
att,det p:s x:s
move x:s p:P
up,drop x:s
fq x:s v:i
rpose r:s p:P
oclonef x:s y:s nm:s
fatt r:s n:s x:s p:P
fdet r:s x:s
hasch p:s x:s b:b
fname x:s nm:s
haschn p:s nm:s b:b
fupv,fupc x:s b:b
robdel r:s
nodes r:s
frames x:s y:s p:P
""")
I = [1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0]


def strip(h, *also):
    return [{k: v for k, v in e.items() if k not in ("ok", "res") + also} for e in h]


def tree_xml(rng, path, n, sensors=True):
    """a robot with wide limits; returns name -> parent and the joints"""
    par, typ = {}, {}
    names = ["n%d" % i for i in range(n)]
    kids = {k: [] for k in names}
    for i, k in enumerate(names):
        par[k] = "" if i == 0 else names[rng.randrange(max(0, i - 3), i)]
        typ[k] = rng.choice(["fixed", "revolute", "revolute", "prismatic"])
        if i:
            kids[par[k]].append(k)
    o, sens = ["<Robot Type='Tree' RootNode='n0'>"], []
    for k in names:
        p = rpose(rng, 200, 10)
        o.append("<RobotNode name='%s'><Transform><Matrix4x4>%s<row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4></Transform>" % (
            k, "".join("<row%d c1='%d' c2='%d' c3='%d' c4='%d'/>" % (r + 1, p[3 * r], p[3 * r + 1], p[3 * r + 2], p[9 + r]) for r in range(3))))
        ax = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 0, 0)])
        if typ[k] == "revolute":
            o.append("<Joint type='revolute'><Limits lo='-7200' hi='7200' units='degree'/><Axis x='%d' y='%d' z='%d'/></Joint>" % ax)
        elif typ[k] == "prismatic":
            o.append("<Joint type='prismatic'><Limits lo='-10000' hi='10000' units='mm'/><TranslationDirection x='%d' y='%d' z='%d'/></Joint>" % ax)
        if sensors and rng.random() < .4:
            sens.append(k + "/s" + k)
            o.append("<Sensor type='position' name='s%s'><Transform><Translation x='%d' y='%d' z='%d'/></Transform></Sensor>" % ((k,) + tuple(rng.randrange(-5, 6) * 10 for _ in range(3))))
        o += ["<Child name='%s'/>" % c for c in kids[k]]
        o.append("</RobotNode>")
    o.append("</Robot>")
    open(path, "w").write("\n".join(o))
    return par, typ, sens


class ForestGen:
    def __init__(self, ctx, rng, i):
        self.rng, self.ev, self.k = rng, [{"op": "reset"}, {"op": "forest"}], 0
        self.objs, self.robots, self.pairs, self.nm = [], {}, [], {}
        for r in range(rng.choice([0, 1, 1, 2])):
            f = os.path.join(ctx.scratch, "forest%d-%d.xml" % (i, r))
            par, typ, sens = tree_xml(rng, f, rng.randrange(2, 6))
            rid = "R%d" % r
            self.op("robot", r=rid, file=f)
            self.robots[rid] = {"par": par, "typ": typ, "sens": sens}

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def nodes(self):
        return [r + "/" + n for r in sorted(self.robots) for n in self.robots[r]["par"]]

    def any(self):
        return self.objs * 3 + sorted(self.robots) + self.nodes() * 2 + [r + "/" + s for r in sorted(self.robots) for s in self.robots[r]["sens"]]

    def under(self, r, n):
        p, res = self.robots[r]["par"], [n]
        for m in p:
            if p[m] in res:
                res.append(m)
        return res

    def step(self):
        rng, c = self.rng, self.rng.randrange(100)
        pose = lambda: rpose(rng, 500, 10)
        if not self.objs or (c < 9 and len(self.objs) < 7):
            x = "o%d" % self.k
            self.k += 1
            self.op("new", x=x, nm=rng.choice(["box%d" % self.k, "box%d" % self.k, "lid", "n1", "n2"]), c=rng.randrange(3), p=pose())
            self.nm[x] = self.ev[-1]["nm"]
            self.objs.append(x)
        elif c < 30:
            last = [p for p, x in self.pairs[-4:] if p in self.any()]
            self.op("att", p=rng.choice(last) if last and rng.random() < .4 else rng.choice(self.any()), x=rng.choice(self.objs))
            self.pairs.append((self.ev[-1]["p"], self.ev[-1]["x"]))
        elif c < 40:
            live = [p for p in self.pairs if p[0] in self.any() and p[1] in self.objs]
            p = rng.choice(live) if live and rng.random() < .6 else (rng.choice(self.any()), rng.choice(self.objs))
            self.op("det", p=p[0], x=p[1])
        elif c < 55:
            self.op("move", x=rng.choice(self.objs), p=pose())
        elif c < 57:
            if len(self.objs) > 1 and rng.random() < .6:       # an object takes the name of its sibling
                x, y = rng.sample(self.objs, 2)
                p = rng.choice([o for o in self.any() if o not in (x, y)] or [x])
                for q, z in self.pairs:
                    if z in (x, y) and q in self.any():
                        self.op("det", p=q, x=z)
                for z in (x, y):
                    self.op("att", p=p, x=z)
                    self.pairs.append((p, z))
                self.op("fname", x=x, nm=self.nm[y])
                self.nm[x] = self.nm[y]
                self.op("haschn", p=p, nm=self.nm[y], b=False)
                self.op("det", p=p, x=rng.choice([x, y]))
            else:
                x = rng.choice(self.objs)
                self.nm[x] = rng.choice(["box1", "box2", "lid", "n1", "n2"])
                self.op("fname", x=x, nm=self.nm[x])
        elif c < 59:
            self.op("up", x=rng.choice(self.objs + self.nodes()))
        elif c < 67 and self.robots:
            self.op("rpose", r=rng.choice(sorted(self.robots)), p=pose())
        elif c < 77 and self.robots:
            r = rng.choice(sorted(self.robots))
            js = [n for n in self.robots[r]["par"] if self.robots[r]["typ"][n] != "fixed"]
            if js:
                n = rng.choice(js)
                self.op("fq", x=r + "/" + n, v=rng.choice([0, 90, -90, 180, 270, 450]) if self.robots[r]["typ"][n] == "revolute" else rng.choice([0, 30, -120, 500]))
        elif c < 79 and len(self.objs) > 1:
            self.op("drop", x=self.objs.pop(rng.randrange(len(self.objs))))
        elif c < 82 and len(self.objs) < 7:
            x = "o%d" % self.k
            self.k += 1
            self.op("oclonef", x=rng.choice(self.objs), y=x, nm="copy%d" % self.k)
            self.nm[x] = "copy%d" % self.k
            self.objs.append(x)
        elif c < 86 and self.robots:
            r = rng.choice(sorted(self.robots))
            self.op("fatt", r=r, n=r + "/" + rng.choice(list(self.robots[r]["par"])), x=rng.choice(self.objs), p=pose())
        elif c < 88 and self.robots and rng.random() < .6:
            r = rng.choice(sorted(self.robots))
            n = rng.choice(list(self.robots[r]["par"]))
            self.op("fdet", r=r, x=r + "/" + n)
            if self.robots[r]["par"][n]:
                for m in self.under(r, n):
                    self.robots[r]["par"].pop(m)
                    self.robots[r]["sens"] = [s for s in self.robots[r]["sens"] if s.split("/")[0] != m]
        elif c < 91:
            self.op("hasch", p=rng.choice(self.any()), x=rng.choice(self.any()), b=rng.random() < .6)
        elif c < 93:
            self.op("haschn", p=rng.choice(self.any()), nm=rng.choice(["lid", "n1", "n2", "box1", "box2"]), b=rng.random() < .6)
        elif c < 95:
            self.op("fupv" if rng.random() < .7 else "fupc", x=rng.choice(self.objs), b=rng.random() < .5)
        elif c < 99:
            self.op("frames", x=rng.choice(self.any()), y=rng.choice(self.any()), p=pose())
        elif self.robots:
            self.op("nodes", r=rng.choice(sorted(self.robots)))

    def end(self):
        for r in sorted(self.robots):
            if self.rng.random() < .5:
                self.op("nodes", r=r)
                self.op("robdel", r=r)
                if self.objs:
                    self.op("move", x=self.rng.choice(self.objs), p=rpose(self.rng, 500, 10))
                for x in self.objs:
                    self.op("att", p=self.rng.choice(self.objs), x=x)
        return self.ev


def batch(ctx, label, scripts, module, per=6, sig=None):
    for k in range(0, len(scripts), per):
        ctx.add("%s-%d" % (label, k // per), "scn", [e for s in scripts[k:k + per] for e in s], sig or SIG, module, ctx.prop)


def c03(ctx):
    ctx.build(["scn"], ["VirtualRobot"])
    ctx.mc("MC_Forest", "MC_Forest" + ctx.scale("", "_deep"), timeout=1500)
    sims = [strip(h) for h in ctx.sim("MC_Forest", "MC_Forest_sim", ctx.scale(40, 400), 39)]
    for s in sims:
        for e in s:
            if e["op"] == "robot":
                e["file"] = os.path.join(DATA, "mc_forest.xml")
    batch(ctx, "specified", sims, "ForestTrace")
    rng, scr = ctx.rng("forest"), []
    for i in range(ctx.scale(50, 500)):
        g = ForestGen(ctx, rng, i)
        for _ in range(ctx.scale(45, 80)):
            g.step()
        scr.append(g.end())
    batch(ctx, "objects", scr, "ForestTrace")
    ctx.run()


# ---------------------------------------------------------------- C15
SIG.update(parse_sig("""
grasping
gnew g:s nm:s rt:s eef:s p:P cr:s q:i pre:s m:M
gname g:s nm:s
gtrafo g:s p:P
gqual g:s q:i
gpre g:s pre:s
gcfg g:s m:M
gclone g:s t:s
gpose g:s p:P
grob r:s file:s
gtarget g:s r:s m:M p:P
gsnew s:s nm:s rt:s eef:s gs:S
gsadd,gsrem s:s g:s
gsremi s:s k:i
gsclear s:s how:i
gsinc,gsclone s:s t:s
gspre s:s pre:s
gsq s:s g:s nm:s k:i
onew o:s nm:s p:P
omove o:s p:P
oadd,oinc o:s s:s
oclone o:s t:s nm:s
oq o:s s:s rt:s eef:s nm:s
oqr o:s r:s eef:s
osave o:s file:s
oload t:s file:s
oxml o:s t:s
"""))


def grasp_script(ctx, rng, i, n):
    ev = [{"op": "reset"}, {"op": "grasping"}, {"op": "grob", "r": "H", "file": os.path.join(DATA, "holder.xml")}]
    op = lambda name, **k: ev.append(dict({"op": name}, **k))
    gr, gs, ob, kind, cnt = {}, {}, {}, {}, [0]      # the grasps of a set / sets of an object only as far as ids are needed
    eefs, rts = ["left", "right", "none"], ["Holder", "Holder", "Other"]
    names = ["top", "side", "g1", "Grasp 2".replace(" ", "_")]

    def new(k):
        cnt[0] += 1
        return "%s%d" % (k, cnt[0])

    def copy(t, src):
        ids = ["%s.%d" % (t, k) for k in range(len(gs[src]))]
        gs[t], kind[t] = ids, kind[src]
        for x in ids:
            gr[x] = 1
        return t
    pose = lambda: rpose(rng, 300, 10)
    cfg = lambda: {n: rng.choice([0, 10, 45, -30, 90]) for n in rng.sample(["fl", "fr", "j1"], rng.randrange(0, 4))}
    for _ in range(n):
        c = rng.randrange(100)
        g = rng.choice(sorted(gr)) if gr else None
        s = rng.choice(sorted(gs)) if gs else None
        o = rng.choice(sorted(ob)) if ob else None
        if not gr or c < 10 and len(gr) < 40:
            x = new("g")
            op("gnew", g=x, nm=rng.choice(names), rt=rng.choice(rts), eef=rng.choice(eefs), p=pose(), cr=rng.choice(["-", "auto", "teached"]), q=rng.randrange(0, 40), pre=rng.choice(["-", "open", "wide"]), m=cfg())
            gr[x] = 1
        elif not gs or c < 16 and len(gs) < 10:
            x = new("s")
            l = rng.sample(sorted(gr), rng.randrange(0, min(4, len(gr)) + 1))
            kind[x] = (rng.choice(rts), rng.choice(eefs))
            op("gsnew", s=x, nm=rng.choice(["set", "top", x]), rt=kind[x][0], eef=kind[x][1], gs=list(l))
            gs[x] = l
        elif not ob or c < 19 and len(ob) < 5:
            x = new("o")
            op("onew", o=x, nm=rng.choice(["cup", "box", x]), p=pose())
            ob[x] = []
        elif c < 24:
            k = rng.randrange(5)
            if k == 0: op("gname", g=g, nm=rng.choice(names))
            elif k == 1: op("gtrafo", g=g, p=pose())
            elif k == 2: op("gqual", g=g, q=rng.randrange(0, 40))
            elif k == 3: op("gpre", g=g, pre=rng.choice(["-", "open", "wide"]))
            else: op("gcfg", g=g, m=cfg())
        elif c < 26:
            x = new("c")
            op("gclone", g=g, t=x)
            gr[x] = 1
        elif c < 40:
            op("gsadd", s=s, g=g)
            if g not in gs[s]: gs[s].append(g)
        elif c < 45:
            if gs[s] and rng.random() < .7:
                g = rng.choice(gs[s])
            op("gsrem", s=s, g=g)
            if g in gs[s]: gs[s].remove(g)
        elif c < 48:
            k = rng.randrange(0, len(gs[s]) + 2)
            op("gsremi", s=s, k=k)
            if k < len(gs[s]): gs[s].pop(k)
        elif c < 49:
            op("gsclear", s=s, how=rng.randrange(2))
            gs[s] = []
        elif c < 54:
            t = rng.choice(sorted(gs))
            op("gsinc", s=s, t=t)
            gs[s] = gs[s] + [x for x in gs[t] if x not in gs[s]]
        elif c < 56 and len(gs) < 12:
            x = new("k")
            op("gsclone", s=s, t=x)
            copy(x, s)
        elif c < 58:
            op("gspre", s=s, pre=rng.choice(["-", "open", "wide"]))
        elif c < 66:
            op("oadd", o=o, s=s)
            if s not in ob[o]: ob[o].append(s)
        elif c < 69:
            op("oinc", o=o, s=s)
            m = [x for x in ob[o] if kind[x] == kind[s]]
            if m:
                gs[m[-1]] = gs[m[-1]] + [x for x in gs[s] if x not in gs[m[-1]]]
        elif c < 71:
            op("omove", o=o, p=pose())
        elif c < 76 and len(ob) < 7 and sum(len(gs[x]) for x in ob[o]) < 25:
            x = new("m")
            k = rng.randrange(3)
            if k == 0:
                op("oclone", o=o, t=x, nm="copy")
            elif k == 1:
                op("oxml", o=o, t=x)
            else:
                f = os.path.join(ctx.scratch, "obj%d-%s.xml" % (i, x))
                op("osave", o=o, file=f)
                ev.append({"op": "oload", "t": x, "file": f, "from": o})
            ob[x] = [copy("%s.%d" % (x, k), y) for k, y in enumerate(ob[o])]
        elif c < 83:
            op("gpose", g=g, p=pose())
        elif c < 88:
            op("gtarget", g=g, r="H", m={"j1": rng.choice([0, 90, 180, -90, 270]), "j2": rng.choice([0, 50, -100])}, p=pose())
        elif c < 94:
            op("gsq", s=s, g=g, nm=rng.choice(names), k=rng.randrange(0, 5))
        elif c < 98:
            op("oq", o=o, s=s, rt=rng.choice(rts), eef=rng.choice(eefs), nm=rng.choice(["set", "top", s]))
        else:
            op("oqr", o=o, r="H", eef=rng.choice(["left", "right"]))
    return ev


def c15(ctx):
    ctx.build(["scn"], ["VirtualRobot"])
    ctx.mc("MC_Grasps", "MC_Grasps" + ctx.scale("", "_deep"), timeout=1500)
    batch(ctx, "specified", [strip(h) for h in ctx.sim("MC_Grasps", "MC_Grasps_sim", ctx.scale(30, 300), 39)], "GraspTrace")
    rng = ctx.rng("grasps")
    batch(ctx, "grasps", [grasp_script(ctx, rng, i, ctx.scale(70, 100)) for i in range(ctx.scale(36, 400))], "GraspTrace")
    ctx.run()


# ---------------------------------------------------------------- C06
SIG.update(parse_sig("""
scene nm:s
srob x:s file:s nm:s
sq x:s m:M
spose x:s p:P
sobst x:s nm:s l:i kg:i p:P how:i
sman x:s nm:s file:s l:i p:P
smanfile file:s nm:s l:i p:P
smove k:s x:s p:P
scfg x:s r:s nm:s tcp:s m:M
straj x:s r:s nm:s rns:s vs:L
sset x:s nm:s
ssadd,ssrem,sshas s:s k:s x:s
ssall s:s t:s
ssclone s:s t:s nm:s
sreg,sdereg,shas k:s x:s
sderegn,sget k:s nm:s
sregc r:s cs:S
sderegc r:s c:s
sderegcn r:s nm:s
sgetc r:s nm:s c:s
sgetcn rn:s nm:s
strajs rn:s
srns rn:s nm:s
sdump
slist
ssave file:s
sload file:s
"""))
NAMES = {"rb": ["r1", "r2", "arm"], "ob": ["wall", "floor", "table", "box"], "mo": ["cup", "pot", "can"], "se": ["setA", "setB"], "tr": ["p1", "p2", "p3"], "cf": ["home", "far", "up"]}


def scene_tree(rng, path):
    par, typ, _ = tree_xml(rng, path, rng.randrange(2, 6), sensors=False)
    js = [n for n in par if typ[n] != "fixed"]
    sets = {}
    if js:
        sets["joints"] = js
        sets["some"] = rng.sample(js, rng.randrange(1, len(js) + 1))
    s = open(path).read().replace("</Robot>", "".join("<RobotNodeSet name='%s' kinematicRoot='n0'>%s</RobotNodeSet>" % (k, "".join("<Node name='%s'/>" % n for n in v)) for k, v in sets.items()) + "</Robot>")
    open(path, "w").write(s)
    return {"joints": js, "typ": typ, "sets": sets, "nodes": list(par)}


def scene_script(ctx, rng, i, n):
    ev = [{"op": "reset"}, {"op": "scene", "nm": "scene%d" % i}]
    op = lambda name, **k: ev.append(dict({"op": name}, **k))
    pose = lambda: rpose(rng, 500, 10) if rng.random() < .85 else list(I)
    val = lambda R, n: rng.choice([0, 90, -90, 30, 200, -45]) if R["typ"][n] == "revolute" else rng.choice([0, 30, -120, 500])
    it = {k: {} for k in ("rb", "ob", "mo", "se", "tr", "cf")}
    files = []
    for r in range(rng.choice([1, 2, 2, 3])):
        f = os.path.join(ctx.scratch, "rob%d-%d.xml" % (i, r))
        if r and rng.random() < .4:
            files.append(files[-1])
        else:
            files.append((f, scene_tree(rng, f)))
        it["rb"]["R%d" % r] = files[-1][1]
        op("srob", x="R%d" % r, nm=rng.choice(NAMES["rb"]), file=files[-1][0], rns=sorted(files[-1][1]["sets"]))
    cnt = [0]

    def new(k):
        cnt[0] += 1
        return "%s%d" % (k, cnt[0])

    def make(k):
        x = new(k)
        nm = rng.choice(NAMES[k])
        r = rng.choice(sorted(it["rb"]))
        R = it["rb"][r]
        if k == "ob":
            op("sobst", x=x, nm=nm, l=10 * rng.randrange(1, 9), kg=rng.choice([0, 1, 5]), p=pose(), how=rng.choice([0, 0, 1, 2]))
        elif k == "mo":
            l = 10 * rng.randrange(1, 9)
            if rng.random() < .5:
                f = os.path.join(ctx.scratch, "mo%d-%s.xml" % (i, x))
                op("smanfile", file=f, nm=rng.choice([nm, "other"]), l=l, p=pose())
                op("sman", x=x, nm=nm, file=f, l=l, p=pose())
            else:
                op("sman", x=x, nm=nm, file="-", l=l, p=pose())
        elif k == "se":
            op("sset", x=x, nm=nm)
        elif k == "cf":
            op("scfg", x=x, r=r, nm=nm, tcp=rng.choice(["-", rng.choice(R["nodes"])]), m={j: val(R, j) for j in rng.sample(R["joints"], rng.randrange(0, len(R["joints"]) + 1))})
            it["cf"][x] = r
            return
        elif k == "tr":
            if not R["sets"]:
                return
            s = rng.choice(sorted(R["sets"]))
            ns = R["sets"][s]
            op("straj", x=x, r=r, nm=nm, rns=s, n=len(ns), vs=[val(R, j) for _ in range(rng.randrange(1, 4)) for j in ns])
        it[k][x] = 1
    for k in ("ob", "ob", "mo", "se", "tr", "cf", "cf"):
        make(k)
    reg = {k: [] for k in it}

    def some(k):
        return rng.choice(sorted(it[k])) if it[k] else None

    def member():
        k = rng.choice(["ob", "ob", "mo"])
        return k, some(k)
    for _ in range(n):
        c = rng.randrange(100)
        k = rng.choice(["rb", "ob", "ob", "mo", "mo", "se", "tr"])
        x = some(k)
        if c < 12:
            make(rng.choice(["ob", "mo", "se", "tr", "cf", "cf"]))
        elif x is None:
            make(k)
        elif c < 34:
            op("sreg", k=k, x=x)
        elif c < 38:
            op("sdereg", k=k, x=x)
        elif c < 40:
            op("sderegn", k=k, nm=rng.choice(NAMES[k]))
        elif c < 43:
            op("shas", k=k, x=x)
        elif c < 48:
            op("sget", k=k, nm=rng.choice(NAMES[k]))
        elif c < 58:
            s = some("se")
            kk, m = member()
            if s and m:
                op(rng.choice(["ssadd", "ssadd", "ssadd", "ssrem", "sshas"]), s=s, k=kk, x=m)
        elif c < 61:
            s, t = some("se"), some("se")
            if s:
                if rng.random() < .5:
                    op("ssall", s=s, t=t)
                else:
                    x = new("se")
                    op("ssclone", s=s, t=x, nm=rng.choice(NAMES["se"]))
                    it["se"][x] = 1
        elif c < 71:
            r = some("rb")
            cs = [x for x in sorted(it["cf"]) if it["cf"][x] == r]
            if cs:
                op("sregc", r=r, cs=rng.sample(cs, rng.randrange(1, len(cs) + 1)))
        elif c < 73:
            y = some("cf")
            if y:
                if rng.random() < .5:
                    op("sderegc", r=it["cf"][y], c=y)
                else:
                    op("sderegcn", r=it["cf"][y], nm=rng.choice(NAMES["cf"]))
        elif c < 77:
            y = some("cf")
            if y:
                op("sgetc", r=rng.choice(sorted(it["rb"])), nm=rng.choice(NAMES["cf"]), c=y)
        elif c < 79:
            op("sgetcn", rn=rng.choice(NAMES["rb"]), nm=rng.choice(NAMES["cf"]))
        elif c < 81:
            op("strajs", rn=rng.choice(NAMES["rb"]))
        elif c < 83:
            op("srns", rn=rng.choice(NAMES["rb"]), nm=rng.choice(["joints", "some", "none"]))
        elif c < 87:
            r = some("rb")
            R = it["rb"][r]
            op("sq", x=r, m={j: val(R, j) for j in rng.sample(R["joints"], rng.randrange(0, len(R["joints"]) + 1))})
        elif c < 90:
            op("spose", x=some("rb"), p=pose())
        elif c < 93:
            kk, m = member()
            if m:
                op("smove", k=kk, x=m, p=pose())
        elif c < 96:
            op("slist")
        else:
            store(ctx, rng, ev, i)
    # make the scene one that can be stored
    for r in sorted(it["rb"]):
        op("sreg", k="rb", x=r)
    op("slist")
    store(ctx, rng, ev, i)
    return ev


def store(ctx, rng, ev, i):
    f = os.path.join(ctx.scratch, "scene%s-%d.xml" % (i, len(ev)))
    ev += [{"op": "sdump"}, {"op": "ssave", "file": f}, {"op": "sload", "file": f}]


def c06(ctx):
    ctx.build(["scn"], ["VirtualRobot"])
    ctx.mc("MC_Scene", "MC_Scene" + ctx.scale("", "_deep"), timeout=1500)
    rng, sims = ctx.rng("scene"), []
    for k, h in enumerate(ctx.sim("MC_Scene", "MC_Scene_sim", ctx.scale(20, 300), 36)):
        ev = []
        for e in h:
            e = {a: b for a, b in e.items() if a not in ("ok", "res")}
            if e["op"] == "srob":
                e["file"] = os.path.join(DATA, "scene_robot.xml")
            ev.append(e)
            if len(ev) > 15 and rng.random() < .3:
                ev.append({"op": "slist"})
            if len(ev) > 15 and rng.random() < .12:
                store(ctx, rng, ev, "s%d" % k)
        store(ctx, rng, ev, "s%d" % k)
        sims.append(ev)
    batch(ctx, "specified", sims, "SceneTrace")
    batch(ctx, "scenes", [scene_script(ctx, rng, i, ctx.scale(60, 90)) for i in range(ctx.scale(36, 400))], "SceneTrace")
    ctx.run()
