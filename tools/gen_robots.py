"""Seeded generation of robot descriptions on the lattice and of operation scripts on them.

A description is the content of the XML file as declared (units included); RobotFile.tla says what loading it means."""
import itertools, math, os

AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


def mm(a, b):
    r = [sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]
    return r + [sum(a[3 * i + k] * b[9 + k] for k in range(3)) + a[9 + i] for i in range(3)]


def rot(ax, k):
    c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
    x, y, z = ax
    v = 1 - c
    return [c + v * x * x, v * x * y - s * z, v * x * z + s * y, v * x * y + s * z, c + v * y * y, v * y * z - s * x,
            v * x * z - s * y, v * y * z + s * x, c + v * z * z, 0, 0, 0]


def rpose(rng, lim=300, step=10):
    m = mm(rot(AX[0], rng.randrange(4)), mm(rot(AX[2], rng.randrange(4)), rot(AX[4], rng.randrange(4))))
    m[9:] = [rng.randrange(-lim, lim + 1, step) for _ in range(3)]
    return m


def xforms(rng, files):
    """sequence of transformation elements"""
    r = []
    if files:
        for _ in range(rng.randrange(0, 4)):
            k = rng.choice(["trans", "rpy", "mat", "mat3", "dh", "quat"])
            if k == "trans":
                u = rng.choice(["mm", "m", "", "millimeter", "meter"])
                big = u in ("m", "meter")
                r.append({"k": k, "v": [rng.randrange(-2, 3) if big else rng.randrange(-300, 301, 20) for _ in range(3)], "u": u})
            elif k == "rpy":
                r.append({"k": k, "v": [90 * rng.randrange(-1, 3), 90 * rng.randrange(-1, 3), 90 * rng.randrange(-1, 3)],
                          "u": rng.choice(["degree", "radian", "deg", "rad"])})
            elif k == "mat":
                m = rpose(rng, 200, 20)
                u = rng.choice(["", "mm", "m"])
                if u == "m":
                    m[9:] = [rng.randrange(-2, 3) for _ in range(3)]
                r.append({"k": k, "v": m, "u": u})
            elif k == "mat3":
                r.append({"k": k, "v": rpose(rng)[:9] + [0, 0, 0], "u": ""})
            elif k == "quat":
                ax, n = rng.choice(AX), rng.randrange(4)
                r.append({"k": k, "v": ax + [90 * n], "u": ""})
            else:
                u = rng.choice(["mm", "m"])
                big = u == "m"
                r.append({"k": k, "v": [rng.randrange(-2, 3) if big else 20 * rng.randrange(-5, 6), rng.randrange(-2, 3) if big else 20 * rng.randrange(-5, 6),
                                        90 * rng.randrange(-1, 3), 90 * rng.randrange(-1, 3)], "u": u, "ua": rng.choice(["degree", "radian"])})
        return r
    return [{"k": "mat", "v": rpose(rng, 300, 20), "u": ""}]


class RobotGen:
    """files=True uses the whole expressiveness of the file format"""

    def __init__(self, rng, name, nmax=7, files=False, prop=True, vis=True, eef=False, sens=True, phys=True, depthy=False, limitless=True, scalable=False, joints_only=False, prefix=""):
        self.rng, self.files = rng, files
        n = rng.randrange(max(2, nmax - 3), nmax + 1)
        self.names = ["%s%s%d" % (prefix, rng.choice("abcdefgh"), i) for i in range(n)]
        self.inc = []
        if rng.random() < .5:
            self.names[1:] = sorted(self.names[1:], reverse=True)
        nodes, order = {}, list(self.names)
        for i, k in enumerate(order):
            par = "" if i == 0 else (order[i - 1] if (depthy and rng.random() < .75) else order[rng.randrange(0, i)])
            nodes[k] = self.node(k, par, i, vis, sens, phys, limitless, scalable, joints_only)
        self.nodes, self.order, self.root = nodes, order, order[0]
        self.type = "T" + name
        self.prop = {}
        if prop:
            self.mkprop()
        self.rns, self.eef = {}, {}
        if eef:
            self.mkeef()

    def node(self, k, par, i, vis, sens, phys, limitless, scalable, joints_only):
        rng = self.rng
        jt = rng.choice(["revolute"] * 5 + ["prismatic"] * 2 + (["fixed", "none"] if not joints_only else []))
        nd = {"par": par, "jt": jt, "ax": rng.choice(AX), "free": False, "off": 0, "init": 0, "lim": {"lo": 0, "hi": 0, "u": "none"},
              "tf": xforms(rng, self.files), "vel": {"v": -1, "ul": "", "ut": "", "ua": ""}, "acc": {"v": -1, "ul": "", "ut": "", "ua": ""},
              "tor": {"v": -1, "ul": ""}, "ph": {"def": False}, "sens": {}, "vis": "", "col": "", "prop": {}, "box": [90, 120, 150]}
        if jt == "revolute":
            if limitless and rng.random() < .3:
                nd["free"] = True
                lo = rng.choice([-180, -180, 0, -360, 90, -450] if not self.files else [-180, 0, -90])
                nd["lim"] = {"lo": lo, "hi": lo + 360, "u": "degree"}
                if self.files and rng.random() < .4:
                    nd["lim"] = {"lo": -100, "hi": 100, "u": rng.choice(["degree", "radian"])}
            else:
                lo, hi = rng.choice([-180, -135, -90, -45, 0]), rng.choice([45, 90, 180, 360])
                nd["lim"] = {"lo": lo, "hi": hi, "u": rng.choice(["degree", "radian", "deg", "rad"]) if self.files else "degree"}
                if self.files and rng.random() < .15:
                    nd["lim"]["u"] = "none"
            nd["off"] = rng.choice([0, 0, 0, 90, -90, 180, 45])
            nd["init"] = rng.choice([0, 0, 45, 90, -90, 270])
        elif jt == "prismatic":
            u = rng.choice(["mm", "m", "millimeter"]) if self.files else "mm"
            if u == "m":
                nd["lim"] = {"lo": rng.randrange(-2, 1), "hi": rng.randrange(1, 4), "u": u}
            else:
                nd["lim"] = {"lo": rng.choice([-300, -100, 0]), "hi": rng.choice([100, 250, 400]), "u": u}
            nd["off"] = rng.choice([0, 0, 10, -20])
            nd["init"] = rng.choice([0, 0, 50, -150, 500])
            if self.files and rng.random() < .3:
                nd["ax"] = [2 * x for x in nd["ax"]]
        if self.files and jt in ("revolute", "prismatic"):
            if nd["lim"]["u"] != "none" and not nd["free"] and rng.random() < .25:
                nd["lim"].pop(rng.choice(["lo", "hi"]))
            for key in ("vel", "acc"):
                if rng.random() < .5:
                    nd[key] = {"v": rng.choice([6, 12, 30, 60]), "ul": rng.choice(["", "m", "mm"]), "ut": rng.choice(["", "sec", "min", "s", "h"]), "ua": rng.choice(["", "rad", "deg"])}
                    if nd[key]["ut"] == "h":
                        nd[key]["v"] *= 600 if key == "vel" else 20000
                    if nd[key]["ul"] == "mm" and nd[key]["ut"] == "h":
                        nd[key]["ul"] = "m"
                    if nd[key]["ul"] == "mm":
                        nd[key]["v"] *= 1000
                    if nd[key]["ul"]:
                        nd[key]["ua"] = ""
            if rng.random() < .5:
                nd["tor"] = {"v": rng.choice([1, 5, 20]), "ul": rng.choice(["", "m", "meter"])}
                if rng.random() < .3:
                    nd["tor"] = {"v": rng.choice([1000, 3000]), "ul": rng.choice(["mm", "millimeter"])}
        if phys and rng.random() < .6:
            u = rng.choice(["kg", "g", "t", "kilogram", "gram"]) if self.files else "kg"
            ul = rng.choice(["mm", "m", ""]) if self.files else ""
            nd["ph"] = {"def": True, "mass": rng.choice([1, 2, 5]) * (1000 if u in ("g", "gram") else 1), "um": u, "comdef": rng.random() < .8,
                        "com": [rng.randrange(-2, 3) if ul == "m" else rng.randrange(-40, 41, 4) for _ in range(3)], "ul": ul,
                        "in": [], "uw": "", "uil": "", "sim": rng.choice(["", "", "static", "dynamic", "kinematic"]), "ign": [], "fr": -1000}
            if rng.random() < .6:
                uw, uil = (rng.choice(["", "kg", "g", "t"]), rng.choice(["", "m", "mm"])) if self.files else ("", "")
                f = {"": 1, "kg": 1, "g": 1000, "t": 1}[uw] * (1000000 if uil == "mm" else 1)
                nd["ph"]["in"] = [rng.randrange(1, 4 if f < 10**9 else 3) * f if a == b else 0 for a in range(3) for b in range(3)]
                nd["ph"]["uw"], nd["ph"]["uil"] = uw, uil
            if rng.random() < .3:
                nd["ph"]["ign"] = sorted(set(rng.sample(self.names, min(2, len(self.names)))))
            if self.files and rng.random() < .3:
                nd["ph"]["fr"] = rng.choice([500, 250, 1000, 0])
        if sens and rng.random() < .35:
            nd["sens"] = {"s%s%d" % (k, j): xforms(rng, self.files)[:1] or [{"k": "trans", "v": [0, 0, 20], "u": "mm"}] for j in range(rng.choice([1, 2]))}
        if vis and rng.random() < .6:
            nd["vis"] = "box"
        if vis and rng.random() < .5:
            nd["col"] = "box"
        return nd

    def blank(self, k, par):
        """a frame without joint, body and sensors"""
        self.nodes[k] = {"par": par, "jt": "none", "ax": [0, 0, 1], "free": False, "off": 0, "init": 0, "lim": {"lo": 0, "hi": 0, "u": "none"},
                         "tf": xforms(self.rng, self.files), "vel": {"v": -1, "ul": "", "ut": "", "ua": ""}, "acc": {"v": -1, "ul": "", "ut": "", "ua": ""},
                         "tor": {"v": -1, "ul": ""}, "ph": {"def": False, "mass": 0, "um": "kg", "comdef": False, "com": [0, 0, 0], "ul": "", "in": [], "uw": "", "uil": "", "sim": "", "ign": [], "fr": -1000},
                         "sens": {}, "vis": "", "col": "", "prop": {}, "box": [90, 120, 150]}
        self.order.append(k)
        self.names.append(k)

    @classmethod
    def from_desc(cls, rng, d):
        """the writer for a description made by the specification"""
        def e(x):
            if isinstance(x, dict):
                return {k: e(v) for k, v in x.items() if k != "_"}
            return [e(v) for v in x] if isinstance(x, list) else x
        g = cls.__new__(cls)
        d = e(d)
        m = lambda x: x or {}
        g.rng, g.files, g.inc, g.prop = rng, True, [], {}
        g.type, g.root, g.nodes, g.rns, g.eef = d["type"], d["root"], d["nodes"], m(d["rns"]), m(d["eef"])
        for nd in g.nodes.values():
            nd["prop"], nd["sens"] = m(nd["prop"]), m(nd["sens"])
        g.order = sorted(g.nodes, key=lambda k: g.depth(k))
        g.names = list(g.order)
        return g

    def joints(self):
        return [k for k in self.order if self.nodes[k]["jt"] in ("revolute", "prismatic")]

    def depth(self, k):
        return 0 if not self.nodes[k]["par"] else 1 + self.depth(self.nodes[k]["par"])

    def sub(self, k):
        r = [k]
        for m in self.order:
            if self.nodes[m]["par"] == k:
                r += self.sub(m)
        return r

    def mkprop(self):
        """driven joints: every target has one driver, no cycles"""
        rng, js = self.rng, [j for j in self.joints() if not self.nodes[j]["free"]]
        if len(js) < 2:
            return
        rng.shuffle(js)
        for a, b in list(zip(js, js[1:]))[:rng.choice([0, 1, 1, 2])]:
            if self.nodes[a]["jt"] == "revolute" and self.nodes[b]["jt"] == "revolute" and not self.nodes[a]["off"] % 90:
                f = rng.choice([1, -1, 2, -2, 1, -1])
                self.nodes[a]["prop"][b] = f
                self.prop[a] = {b: f}
                self.nodes[a]["init"] = self.nodes[b]["init"] = 0
                # initial values agree with the driving: all zero unless outside the limits

    def mkeef(self):
        rng = self.rng
        js = self.joints()
        if len(js) < 2:
            return
        rng.shuffle(js)
        base = rng.choice(self.order)
        k = rng.randrange(1, len(js))
        acts = {"act0": [[n, rng.choice([1, -1, 1]), rng.choice(["All", "None", "Actors", "Static", ""])] for n in js[:k]]}
        if js[k:]:
            acts["act1"] = [[n, rng.choice([1, -1]), "All"] for n in js[k:k + 2]]
        pre = {}
        for p in range(rng.randrange(0, 3)):
            pre["pre%d" % p] = {n: self.value(n, True) for n in rng.sample(js, rng.randrange(1, len(js) + 1))}
        self.eef = {"eef": {"base": base, "tcp": rng.choice(self.order), "gcp": rng.choice(["", rng.choice(self.order)]),
                            "stat": sorted(rng.sample(self.order, rng.choice([0, 1, 1, 2]))), "act": acts, "pre": pre, "ptcp": {p: rng.choice(["", rng.choice(self.order)]) for p in pre}}}

    def mkrns(self, k=2):
        rng = self.rng
        for i in range(k):
            ns = rng.sample(self.order, rng.randrange(1, min(5, len(self.order)) + 1))
            if rng.random() < .5:
                ns.sort(key=lambda x: (self.depth(x), x))
            self.rns["set%d" % i] = {"nodes": ns, "root": rng.choice(["", rng.choice(self.order), self.root]), "tcp": rng.choice(["", rng.choice(self.order)])}
        # a real chain and its joints
        leaf = max(self.order, key=self.depth)
        ch = []
        while leaf:
            ch.insert(0, leaf)
            leaf = self.nodes[leaf]["par"]
        self.rns["chain"] = {"nodes": ch, "root": "", "tcp": ""}
        return self

    def value(self, k, lattice=None):
        """a joint value in specification units, away from the seam of limitless joints"""
        rng, nd = self.rng, self.nodes[k]
        if nd["jt"] == "prismatic":
            return rng.choice([-1000, -100, -50, 0, 20, 50, 100, 240, 330, 5000])
        if nd["jt"] == "revolute":
            if nd["free"]:
                # never at the seam: lo + 360 k
                lo = nd["lim"].get("lo", -180)
                v = rng.choice([0, 90, -90, 45, 120, -150, 450, -450, 810, 300, -300, 1170, -1260 + 45, 3690, 60])
                if nd["lim"].get("hi", 180) - lo != 360:
                    lo = -180
                while (v - lo) % 360 == 0:
                    v += 90
                return v
            return rng.choice([0, 90, -90, 180, -180, 45, 30, -60, 270, 400, -400, 90, 0])
        return rng.choice([0, 90])

    # ------------------------------------------------------------ XML
    def tfxml(self, tf):
        s = ""
        for e in tf:
            u = " units='%s'" % e["u"] if e["u"] else ""
            v = e["v"]
            if e["k"] == "trans":
                s += "<Translation x='%g' y='%g' z='%g'%s/>" % (v[0], v[1], v[2], u)
            elif e["k"] == "rpy":
                w = v if e["u"].startswith("deg") else [math.radians(x) for x in v]
                s += "<rollpitchyaw roll='%.7f' pitch='%.7f' yaw='%.7f'%s/>" % (w[0], w[1], w[2], u)
            elif e["k"] == "mat":
                s += "<Matrix4x4%s>" % u + "".join("<row%d c1='%g' c2='%g' c3='%g' c4='%g'/>" % (i + 1, v[3 * i], v[3 * i + 1], v[3 * i + 2], v[9 + i]) for i in range(3)) + "<row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4>"
            elif e["k"] == "mat3":
                s += "<Matrix3x3>" + "".join("<row%d c1='%g' c2='%g' c3='%g'/>" % (i + 1, v[3 * i], v[3 * i + 1], v[3 * i + 2]) for i in range(3)) + "</Matrix3x3>"
            elif e["k"] == "quat":
                a = math.radians(v[3]) / 2
                s += "<Quaternion x='%.7f' y='%.7f' z='%.7f' w='%.7f'/>" % (v[0] * math.sin(a), v[1] * math.sin(a), v[2] * math.sin(a), math.cos(a))
            elif e["k"] == "dh":
                w = v[2:] if e["ua"] == "degree" else [math.radians(x) for x in v[2:]]
                s += "<DH a='%g' d='%g' alpha='%.7f' theta='%.7f' unitsLength='%s' unitsAngle='%s'/>" % (v[0], v[1], w[0], w[1], e["u"], e["ua"])
        return s

    def xml(self, root=True):
        rng = self.rng
        o = ["<?xml version='1.0' encoding='UTF-8' ?>", "<Robot Type='%s' RootNode='%s'>" % (self.type, self.root)]
        order = list(self.order)
        if self.files:
            rng.shuffle(order)
        for k in order:
            nd = self.nodes[k]
            o.append("<RobotNode name='%s'>" % k)
            if nd["tf"]:
                o.append("<Transform>%s</Transform>" % self.tfxml(nd["tf"]))
            if nd["jt"] != "none":
                rev = nd["jt"] == "revolute"
                cv = (lambda x: "%.7f" % math.radians(x)) if rev else (lambda x: "%g" % x)
                o.append("<Joint type='%s' offset='%s' initialvalue='%s'>" % (nd["jt"], cv(nd["off"]), cv(nd["init"])))
                if rev:
                    o.append("<Axis x='%d' y='%d' z='%d'/>" % tuple(nd["ax"]))
                elif nd["jt"] == "prismatic":
                    o.append("<TranslationDirection x='%d' y='%d' z='%d'/>" % tuple(nd["ax"]))
                l = nd["lim"]
                if l["u"] != "none":
                    w = (lambda x: "%.7f" % math.radians(x)) if l["u"].startswith("rad") else (lambda x: "%g" % x)
                    o.append("<Limits %s %s unit='%s'%s/>" % ("lo='%s'" % w(l["lo"]) if "lo" in l else "", "hi='%s'" % w(l["hi"]) if "hi" in l else "", l["u"], " limitless='true'" if nd["free"] else ""))
                for key, tag in (("vel", "MaxVelocity"), ("acc", "MaxAcceleration"), ("tor", "MaxTorque")):
                    d = nd[key]
                    if d["v"] != -1:
                        o.append("<%s value='%g'%s%s%s/>" % (tag, d["v"], " unitsLength='%s'" % d["ul"] if d["ul"] else "", " unitsTime='%s'" % d["ut"] if d.get("ut") else "", " unitsAngle='%s'" % d["ua"] if d.get("ua") else ""))
                for t, f in nd["prop"].items():
                    o.append("<PropagateJointValue name='%s' factor='%g'/>" % (t, f))
                o.append("</Joint>")
            if nd["vis"]:
                o.append("<Visualization><Primitives><Box width='90' height='120' depth='150'/></Primitives></Visualization>")
            if nd["col"]:
                o.append("<CollisionModel><Primitives><Box width='90' height='120' depth='150'/></Primitives></CollisionModel>")
            p = nd["ph"]
            if p["def"]:
                o.append("<Physics><Mass value='%g' units='%s'/>" % (p["mass"], p["um"]))
                if p["comdef"]:
                    o.append("<CoM x='%g' y='%g' z='%g'%s/>" % (p["com"][0], p["com"][1], p["com"][2], " units='%s'" % p["ul"] if p["ul"] else ""))
                if p["in"]:
                    o.append("<InertiaMatrix%s%s>" % (" unitsWeight='%s'" % p["uw"] if p["uw"] else "", " unitsLength='%s'" % p["uil"] if p["uil"] else "") +
                             "".join("<row%d c1='%g' c2='%g' c3='%g'/>" % (i + 1, p["in"][3 * i], p["in"][3 * i + 1], p["in"][3 * i + 2]) for i in range(3)) + "</InertiaMatrix>")
                for g in p["ign"]:
                    o.append("<IgnoreCollision name='%s'/>" % g)
                if p["sim"]:
                    o.append("<SimulationType value='%s'/>" % p["sim"])
                if p["fr"] >= 0:
                    o.append("<Friction value='%g'/>" % (p["fr"] / 1000.0))
                o.append("</Physics>")
            for s, tf in nd["sens"].items():
                o.append("<Sensor type='position' name='%s'><Transform>%s</Transform></Sensor>" % (s, self.tfxml(tf)))
            for c in self.order:
                if self.nodes[c]["par"] == k:
                    o.append("<Child name='%s'/>" % c)
            for at, g, eef in self.inc:
                if at == k:
                    o.append("<ChildFromRobot><File importEEF='%s'>%s.xml</File></ChildFromRobot>" % ("true" if eef else "false", g.type))
            o.append("</RobotNode>")
        for s, d in self.rns.items():
            o.append("<RobotNodeSet name='%s'%s%s>" % (s, " kinematicRoot='%s'" % d["root"] if d["root"] else "", " tcp='%s'" % d["tcp"] if d["tcp"] else "") +
                     "".join("<Node name='%s'/>" % n for n in d["nodes"]) + "</RobotNodeSet>")
        for s, d in self.eef.items():
            o.append("<Endeffector name='%s' base='%s'%s%s>" % (s, d["base"], " tcp='%s'" % d["tcp"] if d["tcp"] else "", " gcp='%s'" % d["gcp"] if d["gcp"] else ""))
            for p, m in d["pre"].items():
                o.append("<Preshape name='%s'%s>" % (p, " tcp='%s'" % d["ptcp"][p] if d["ptcp"].get(p) else "") + "".join(self.prenode(n, v) for n, v in m.items()) + "</Preshape>")
            if d["stat"]:
                o.append("<Static>" + "".join("<Node name='%s'/>" % n for n in d["stat"]) + "</Static>")
            for a, l in d["act"].items():
                o.append("<Actor name='%s'>" % a + "".join("<Node name='%s' direction='%g'%s/>" % (n, dr, " considerCollisions='%s'" % cm if cm else "") for n, dr, cm in l) + "</Actor>")
            o.append("</Endeffector>")
        o.append("</Robot>")
        return "\n".join(o)

    def prenode(self, n, v):
        rng = self.rng
        if self.nodes[n]["jt"] == "revolute":
            u = rng.choice(["radian", "degree"]) if self.files else "radian"
            return "<Node name='%s' unit='%s' value='%.7f'/>" % (n, u, v if u == "degree" else math.radians(v))
        u = rng.choice(["mm", "m"]) if self.files else "mm"
        return "<Node name='%s' unit='%s' value='%.7f'/>" % (n, u, v / 1000.0 if u == "m" else v)

    def write(self, path):
        open(path, "w").write(self.xml())
        for k, (at, g, eef) in enumerate(self.inc):
            g.write(os.path.join(os.path.dirname(path), g.type + ".xml"))
        return path

    def desc(self):
        def e(x):
            if isinstance(x, dict):
                return {k: e(v) for k, v in x.items()} or {"_": 0}
            return [e(v) for v in x] if isinstance(x, list) else x
        return e({"type": self.type, "root": self.root, "nodes": self.nodes, "rns": self.rns, "eef": self.eef,
                  "inc": [{"at": at, "desc": g.desc(), "eef": eef} for at, g, eef in self.inc]})
