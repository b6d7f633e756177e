"""C17: concurrent access to robots."""
import json
from framework import parse_sig
from gen_robots import AX, mm, rot, rpose

SIG = parse_sig("""
reset
robot r:s
node r:s n:s par:s typ:s ax:V loc:P lo:f hi:f mass:i com:V
build r:s
set r:s s:s ns:S kin:s
p t:i r:s o:s n:s m:s ns:S k:L p:P
go seed:i keep:i want:L
""")
I = [1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0]


def trans(v):
    return I[:9] + list(v)


class Gen:
    def __init__(self, ctx, rng, k):
        self.rng, self.ev, self.R = rng, [], {}
        self.op("reset")
        for r in ("A", "B") if rng.random() < .5 else ("A",):
            self.robot(r)

    def op(self, name, **k):
        self.ev.append(dict({"op": name}, **k))

    def robot(self, r):
        rng = self.rng
        d = {"nd": {}, "sets": {}}
        self.op("robot", r=r)

        def node(n, par, typ):
            loc = trans([rng.choice([0, 50, 100, -30]) for _ in range(3)]) if rng.random() < .5 else rpose(rng, 100, 50)
            lo, hi = (0, 0)
            if typ == "rev":
                lo, hi = rng.choice([(-180, 180), (-90, 180), (-90, 90), (0, 90)])
            elif typ == "pris":
                lo, hi = rng.choice([(-100, 100), (0, 200)])
            d["nd"][n] = typ
            self.op("node", r=r, n=n, par=par, typ=typ, ax=rng.choice(AX) if typ != "fixed" else [0, 0, 0], loc=I if par == "-" and rng.random() < .5 else loc,
                    lo=lo, hi=hi, mass=rng.choice([1, 2, 3]), com=[rng.choice([0, 10, -20]) for _ in range(3)])

        node("root", "-", "fixed")
        par, js = "root", []
        for k in range(rng.choice([2, 3, 3, 4])):
            n = "j%d" % k
            typ = "rev" if k == 0 or rng.random() < .65 else "pris"
            node(n, par if rng.random() < .8 else "root", typ)
            js.append(n)
            par = n
        node("tcp", par, "fixed")
        self.op("build", r=r)
        d["js"] = js
        s = rng.sample(js, rng.randrange(2, len(js) + 1))
        for name, ns, kin in (("S", js, "-"), ("W", s, rng.choice(["-", "root"]))):
            d["sets"][name] = ns
            self.op("set", r=r, s=name, ns=ns, kin=kin)
        self.R[r] = d

    def vals(self, r, ns):
        return [self.rng.choice([-180, -90, 0, 90, 180]) if self.R[r]["nd"][n] == "rev" else self.rng.choice([-100, 0, 50, 100, 200]) for n in ns]

    def one(self, r, lock):
        """an operation on robot r"""
        rng, d = self.rng, self.R[r]
        js, nodes = d["js"], sorted(d["nd"])
        e = {"r": r, "o": "", "n": "-", "m": "-", "ns": [], "k": [], "p": I}
        x = rng.random()
        if x < .45:
            z = rng.random()
            if z < .2:
                e["o"] = rng.choice(["node", "rob", "robn"])
                e["ns"] = [rng.choice(js)]
            elif z < .45:
                e["o"] = rng.choice(["map", "mapn", "vec", "cfg", "cfg0", "cfgr", "setconfig", "mapu"])
                e["ns"] = rng.sample(js, rng.randrange(1, len(js) + 1))
            elif z < .7:
                e["o"] = rng.choice(["set", "seteig", "setcfg", "rset", "rseteig", "rsetcfg", "traj"])
                e["n"] = rng.choice(sorted(d["sets"]))
                e["ns"] = list(d["sets"][e["n"]])
            elif z < .85:
                e["o"] = "pose"
                e["p"] = rpose(rng, 300, 50)
            elif z < .93:
                e["o"] = rng.choice(["fornode", "posfornode"])
                e["n"] = rng.choice(nodes)
                e["p"] = rpose(rng, 300, 50)
            elif z < .96:
                e["o"] = "apply"
            elif z < .98:
                e["o"], e["n"] = "short", "S"
                e["ns"] = list(d["sets"]["S"])
            else:
                e["o"] = "nonode"
            other = [q for q in self.R if q != r]
            if e["o"] in ("map", "vec", "cfg", "cfg0", "cfgr") and other and not lock and rng.random() < .5 and self.foreign(e):
                return e
            e["k"] = self.vals(r, e["ns"])
        elif x < .75:
            e["o"] = rng.choice(["gp", "gp", "q", "q", "gpos", "gpose", "inroot", "posroot", "inrootp", "local", "global", "base", "where"])
            if e["o"] != "base":
                e["n"] = rng.choice(js if e["o"] == "q" else nodes)
            if e["o"] in ("gpose", "inrootp", "local", "global", "where"):
                e["p"] = rpose(rng, 300, 50)
        else:
            e["o"] = rng.choice(["getset", "getsetv", "getseteig", "getsetcfg", "getsetmap", "getcfg", "com", "scom", "axis", "dir", "clone", "axisof", "dirof"])
            o = e["o"]
            if o.startswith("getset") or o == "scom":
                e["n"] = rng.choice(sorted(d["sets"]))
                e["ns"] = list(d["sets"][e["n"]]) if o != "scom" else []
            elif o == "getcfg":
                e["ns"] = js
            elif o == "clone":
                e["ns"], e["n"] = js, rng.choice(nodes)
            elif o in ("axis", "dir", "axisof", "dirof"):
                typ = "rev" if o[0] == "a" else "pris"
                cand = [n for n in js if d["nd"][n] == typ]
                other = [q for q in self.R if q != r]
                if not cand or (o.endswith("of") and (lock or not other)):
                    e["o"], e["n"] = "gp", rng.choice(nodes)
                else:
                    e["n"] = rng.choice(cand)
                    e["m"] = other[0] if o.endswith("of") else rng.choice(["-"] + nodes)
        return e

    def foreign(self, e):
        """the configuration of another robot is applied to the robot of e"""
        r, rng = e["r"], self.rng
        d, q = self.R[r], [q for q in self.R if q != r][0]
        b = self.R[q]
        ns = [n for n in b["js"] if d["nd"].get(n, b["nd"][n]) == b["nd"][n]]
        if rng.random() < .8:
            ns = [n for n in ns if n in d["nd"]]
        if not ns:
            return False
        e["o"], e["m"], e["ns"] = "cfgo", q, rng.sample(ns, rng.randrange(1, len(ns) + 1))
        e["k"] = self.vals(q, e["ns"])
        return True

    def cross(self):
        """operations that concern two robots, in both directions"""
        rng = self.rng
        for t in range(rng.choice([2, 2, 3])):
            r = "AB"[t % 2]
            for _ in range(rng.choice([1, 2])):
                e = {"r": r, "o": "", "n": "-", "m": "-", "ns": [], "k": [], "p": I}
                typ = {j: self.R[r]["nd"][j] for j in self.R[r]["js"]}
                if rng.random() < .4 or not self.foreign(e):
                    j = rng.choice(sorted(typ))
                    e["n"], e["o"], e["m"] = j, "axisof" if typ[j] == "rev" else "dirof", "B" if r == "A" else "A"
                self.op("p", t=t + 1, **e)

    def program(self):
        rng = self.rng
        r = rng.choice(sorted(self.R))
        mk = lambda o, **k: dict({"r": r, "o": o, "n": "-", "m": "-", "ns": [], "k": [], "p": I}, **k)
        if rng.random() < .35:
            w = rng.random() < .5
            body = []
            for _ in range(rng.choice([1, 2, 3])):
                if w and rng.random() < .2:
                    body.append(mk("pose0", p=rpose(rng, 300, 50)))
                    body.append(mk("apply") if rng.random() < .5 else mk("map", ns=self.R[r]["js"], k=self.vals(r, self.R[r]["js"])))
                else:
                    body.append(self.one(r, True))
            ops = [mk("wlock" if w else "rlock")] + body + [mk("unlock")]
            if rng.random() < .3:
                ops = [mk("rlock")] + ops + [mk("unlock")]
            return ops
        return [self.one(rng.choice([r, r, rng.choice(sorted(self.R))]), False) for _ in range(rng.choice([1, 2, 2, 3]))]

    def round(self):
        rng = self.rng
        if len(self.R) == 2 and rng.random() < .2:
            self.cross()
        else:
            for t in range(rng.choice([2, 2, 2, 3, 3, 4])):
                for e in self.program():
                    self.op("p", t=t + 1, **e)
        self.op("go", seed=rng.randrange(1 << 30), keep=rng.choice([0, 30, 60, 80, 95]), want=[])


def model():
    """the robots of MC_Conc.tla"""
    ev = [{"op": "reset"}]
    for r in "AB":
        ev.append({"op": "robot", "r": r})
        for n, par, typ, ax, loc, lo, hi, m, c in (("a", "-", "fixed", [0, 0, 0], I, 0, 0, 1, [0, 0, 0]), ("b", "a", "pris", [1, 0, 0], trans([0, 0, 5]), -3, 3, 1, [0, 0, 0]),
                                                   ("c", "b", "rev", [0, 0, 1], trans([2, 0, 0]), -90, 90, 2, [1, 0, 0])):
            ev.append({"op": "node", "r": r, "n": n, "par": par, "typ": typ, "ax": ax, "loc": loc, "lo": lo, "hi": hi, "mass": m, "com": c})
        ev += [{"op": "build", "r": r}, {"op": "set", "r": r, "s": "S", "ns": ["b", "c"], "kin": "-"}]
    return ev


def c17(ctx):
    ctx.build(["conc"], ["VirtualRobot"])
    ctx.mc("MC_Conc", "MC_Conc" + ctx.scale("", "_deep"), timeout=1500)
    scr, ev = [], model()
    for k, (prg, sched, _) in enumerate(ctx.sim("MC_Conc", "MC_Conc_sim", ctx.scale(150, 2000), 200)):
        if k % 15 == 0 and k:
            scr.append(ev)
            ev = model()
        for t, ops in enumerate(prg):
            ev += [dict({"op": "p", "t": t + 1}, **o) for o in ops]
        # a step of the model corresponds to several gates of the code
        ev.append({"op": "go", "seed": k, "keep": 50, "want": [t for t in sched for _ in range(1 + k % 3)]})
    scr.append(ev)
    rng = ctx.rng("conc")
    for k in range(ctx.scale(90, 1200)):
        g = Gen(ctx, rng, k)
        for _ in range(ctx.scale(12, 20)):
            g.round()
        scr.append(g.ev)
    per = 5
    for k in range(0, len(scr), per):
        ctx.add("conc-%d" % (k // per), "conc", [e for s in scr[k:k + per] for e in s], SIG, "ConcTrace", ctx.prop, nondet=True)
    ctx.assumptions += ["schedules switch between threads where the code calls virtual functions of the robot's nodes and where it waits for a lock",
                        "operations of SceneObject on two nodes (getTransformationTo and the like) do not take part in locking"]
    ctx.run()
