"""Suites on workspace data (C16)."""
from framework import parse_sig
from s_scene import strip

SIG = parse_sig("""
new id:s h:L lo:L adj:b based:b ori:s kind:s
move p:P
add id:s q:L k:i
set id:s q:L e:i k:i
tcp id:s q:L how:s e:i
setv id:s v:L e:i k:i how:s
bin,bis,clear,tot,sample id:s
holes id:s k:i
clone id:s to:s
save id:s f:s
load id:s f:s kind:s own:b
get id:s q:L
vget,at,mid id:s v:L
cut id:s q:L sum:b
reach id:s p:P qs:Q
gnew id:s h:L p:L
gset id:s q:L e:i s:s around:b
gcell id:s q:L e:i s:s
gget id:s q:L
greset id:s
gmove id:s p:L
grand id:s min:i
gfill id:s w:s q:L s:s move:b
gmerge ids:S
""")
ROTS = [[1, 0, 0, 0, 1, 0, 0, 0, 1], [0, -1, 0, 1, 0, 0, 0, 0, 1], [-1, 0, 0, 0, -1, 0, 0, 0, 1], [1, 0, 0, 0, 0, -1, 0, 1, 0], [0, 0, 1, 0, 1, 0, -1, 0, 0], [0, 0, 1, 1, 0, 0, 0, 1, 0]]


def nvox(h):
    return [x // 2 + 1 for x in h]


class WspGen:
    def __init__(self, rng, size=None):
        self.rng, self.ev, self.ws, self.files, self.grids = rng, [], {}, {}, {}
        self.size = size
        self.rot = 0

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def new(self, id):
        rng = self.rng
        if self.size:
            h = list(self.size)
        else:
            while True:
                h = [rng.choice([1, 2, 3, 4, 4, 5, 8]) for _ in range(3)] + [rng.choice([1, 2, 3, 4]) for _ in range(3)]
                t = 1
                for n in nvox(h):
                    t *= n
                if t <= 320:
                    break
        lo = [rng.randrange(-8, 5) * 50 for _ in range(3)] + [0, 0, 0]
        w = dict(h=h, lo=lo, adj=rng.random() < .6, based=rng.random() < .7, ori=rng.choice(["hopf", "hopf", "ext", "xyz", "rpy"]), kind=rng.choice(["ws", "reach"]))
        self.ws[id] = w
        self.op("new", id=id, **w)

    def pose(self, rots=ROTS):
        return list(self.rng.choice(rots)) + [self.rng.randrange(-6, 7) * 50 for _ in range(3)]

    def q(self, w, out=.12, focus=.5):
        rng, n = self.rng, nvox(w["h"])
        q = []
        hot = w.get("hot")
        if hot and rng.random() < focus:
            q = list(hot)
            if rng.random() < .6:
                for d in range(3):
                    q[d] = q[d] // 4 * 4 + rng.randrange(1, 4)
        else:
            q = [rng.randrange(0, n[d]) * 4 + rng.randrange(1, 4) for d in range(3)] + [rng.randrange(0, n[d]) for d in range(3, 6)]
            w["hot"] = list(q)
        if rng.random() < out:
            for d in rng.sample(range(3), rng.choice([1, 1, 2])):
                q[d] = rng.choice([-3, -5, -6, -7, -9, -13, 4 * n[d] + 3, 4 * n[d] + 5, 4 * n[d] + 9])
        elif rng.random() < out * .4:
            d = rng.choice([3, 5]) if w["ori"] != "hopf" else 3
            q[d] = n[d] + 1
        return q

    def vox(self, w, out=0):
        n = nvox(w["h"])
        if "hot" in w and self.rng.random() < .4:
            q = w["hot"]
            return [q[d] // 4 for d in range(3)] + q[3:]
        v = [self.rng.randrange(0, k) for k in n]
        if self.rng.random() < out:
            d = self.rng.randrange(6)
            v[d] = n[d] + self.rng.randrange(0, 3)
        return v

    def step(self):
        rng, c = self.rng, self.rng.randrange(100)
        if not self.ws or (c < 3 and len(self.ws) < 3):
            return self.new("w%d" % rng.randrange(3))
        id = rng.choice(sorted(self.ws))
        w = self.ws[id]
        if c < 20:
            self.op("add", id=id, q=self.q(w), k=rng.choice([1, 1, 1, 2, 3, 90, 130, 255, 300]))
        elif c < 30:
            self.op("set", id=id, q=self.q(w), e=rng.choice([0, 0, 1, 2, 7, 100, 200, 255]), k=rng.choice([0, 0, 0, 1, 2]))
        elif c < 36:
            self.op("tcp", id=id, q=self.q(w), how=rng.choice(["add", "set", "lower"]), e=rng.choice([0, 1, 3, 40, 255]))
        elif c < 43:
            how = rng.choice("wdn")
            self.op("setv", id=id, v=self.vox(w), e=rng.choice([0, 0, 1, 2, 50, 255]), k=rng.choice([0, 1, 2]) if how == "n" else 0, how=how)
        elif c < 45:
            self.op("bin", id=id)
        elif c < 47:
            self.op("bis", id=id)
        elif c < 48:
            self.op("clear", id=id)
        elif c < 52:
            to = rng.choice([x for x in ("w0", "w1", "w2") if x != id])
            self.ws[to] = dict(w)
            self.op("clone", id=id, to=to)
        elif c < 56:
            f = rng.choice(["f", "g"])
            self.files[f] = dict(w)
            self.op("save", id=id, f=f)
        elif c < 60:
            f = rng.choice(["f", "g"])
            if f in self.files:
                id = "w%d" % rng.randrange(3)
                own = id in self.ws and rng.random() < .5
                kind = self.ws[id]["kind"] if own else rng.choice(["ws", "reach"])
                self.ws[id] = dict(self.files[f], adj=True, kind=kind)
                self.op("load", id=id, f=f, kind=kind, own=own)
            else:
                self.op("load", id=id, f="missing", kind="ws", own=False)
        elif c < 63:
            self.op("move", p=self.pose())
        elif c < 76:
            self.op("get", id=id, q=self.q(w, .25, .7))
        elif c < 80:
            self.op("vget", id=id, v=self.vox(w, .3))
        elif c < 86:
            self.op("at", id=id, v=self.vox(w)[:3])
        elif c < 91:
            self.op("tot", id=id)
        elif c < 94:
            self.op("mid", id=id, v=self.vox(w))
        elif c < 97:
            self.op("sample", id=id)
        elif w["kind"] == "reach":
            self.op("reach", id=id, p=self.pose(), qs={"g%d" % k: self.q(w, .2, .6) for k in range(rng.randrange(1, 5))})

    # ---- cuts and grids
    def gnew(self, id):
        rng = self.rng
        g = dict(h=[rng.choice([1, 2, 3, 4, 5, 7, 8]) for _ in range(2)], p=[rng.randrange(-8, 4) * 50 for _ in range(2)])
        self.grids[id] = g
        self.op("gnew", id=id, **g)

    def gq(self, g, out=.15):
        rng, n = self.rng, nvox(g["h"])
        q = [rng.randrange(0, k) * 4 + rng.randrange(1, 4) for k in n]
        if rng.random() < out:
            q[rng.randrange(2)] = rng.choice([-1, -2, -3, -5, 4 * max(n) + 1, 4 * max(n) + 3])
        return q

    def gstep(self):
        rng, c = self.rng, self.rng.randrange(100)
        if not self.ws:
            while True:
                self.size = [rng.choice([4, 8]), rng.choice([4, 8]), rng.choice([1, 2, 3]), rng.choice([1, 2]), 1, rng.choice([1, 2])]
                break
            self.new("w0")
            return
        if not self.grids or (c < 8 and len(self.grids) < 4):
            return self.gnew("g%d" % rng.randrange(4))
        w = self.ws["w0"]
        id = rng.choice(sorted(self.grids))
        g = self.grids[id]
        s = rng.choice(["-", "a", "b", "c"])
        e = rng.choice([0, 1, 2, 5, 99, 100, 101, 150, 220])
        if c < 22:
            self.op("add", id="w0", q=self.q(w, .1, .3), k=rng.choice([1, 2, 5]))
        elif c < 28:
            q = self.q(w, 0, .3)
            self.op("set", id="w0", q=q, e=rng.choice([1, 7, 120]), k=rng.choice([0, 1, 2]))
        elif c < 38:
            if not w["based"] or not self.rot:
                self.op("cut", id="w0", q=self.q(w, .1, .5), sum=rng.random() < .4)
        elif c < 50:
            self.op("gset", id=id, q=self.gq(g), e=e, s=s, around=rng.random() < .5)
        elif c < 55:
            self.op("gcell", id=id, q=[x // 4 for x in self.gq(g)], e=e, s=s)
        elif c < 70:
            self.op("gget", id=id, q=self.gq(g, .3))
        elif c < 72:
            self.op("greset", id=id)
        elif c < 76:
            g["p"] = [rng.randrange(-8, 4) * 50 for _ in range(2)]
            self.op("gmove", id=id, p=g["p"])
        elif c < 84:
            self.op("grand", id=id, min=rng.choice([0, 1, 1, 2, 5, 50, 101, 300]))
        elif c < 92:
            if w["based"]:
                self.op("move", p=ROTS[0] + [0, 0, 0])
                self.rot = 0
            q = self.q(w, 0, .6)
            n = nvox(w["h"])
            for d in range(2):
                for a in range(w["h"][d] // 2):
                    num = (50 * w["h"][d] * q[d] - 4 * n[d] * (50 + 100 * a + g["p"][d])) * nvox(g["h"])[d]
                    if num % (200 * n[d] * g["h"][d]) == 0:
                        return
            self.op("gfill", id=id, w="w0", q=q, s=s, move=w["based"] and rng.random() < .5)
        elif c < 97:
            if len(self.grids) > 1:
                self.op("gmerge", ids=rng.sample(sorted(self.grids), rng.randrange(2, len(self.grids) + 1)))
        else:
            self.op("move", p=self.pose(ROTS[:1]))


def c16(ctx):
    ctx.build(["wsp"], ["VirtualRobot"])
    ctx.mc("MC_Workspace", "MC_Workspace" + ctx.scale("", "_deep"), timeout=1500)
    scr = [("model", strip(h)) for h in ctx.sim("MC_Workspace", "MC_Workspace_sim", ctx.scale(24, 300), 32)]
    rng = ctx.rng("workspace")
    for i in range(ctx.scale(60, 900)):
        g = WspGen(rng)
        for _ in range(60):
            g.step()
        scr.append(("work", g.ev))
    for i in range(ctx.scale(6, 80)):       # holes need three voxels in every dimension
        g = WspGen(rng, [4, 4, 5, 4, 4, 4] if i % 2 else [4] * 6)
        g.new("w0")
        w = g.ws["w0"]
        for _ in range(14):
            m = [1] * 6
            if rng.random() < .8:
                m[rng.randrange(6)] += rng.choice([-1, 1])
            m[2] = min(m[2], nvox(w["h"])[2] - 1)
            g.op("setv", id="w0", v=m, e=rng.choice([0, 1, 3, 8, 40, 255]), k=0, how="w")
            if rng.random() < .3:
                g.op("holes", id="w0", k=rng.choice([0, 1, 2, 3, 5]))
            if rng.random() < .2:
                g.step()
        scr.append(("holes", g.ev))
    for i in range(ctx.scale(50, 700)):
        g = WspGen(rng)
        for _ in range(60):
            g.gstep()
        scr.append(("grids", g.ev))
    for k, (lab, ev) in enumerate(scr):
        ctx.add("%s-%d" % (lab, k), "wsp", ev, SIG, "WorkspaceTrace", ctx.prop)
    ctx.run()
