#line 2002 "sabpath.h"
// paths and trajectories (C12) and their processing (C13)
static TrajectoryPtr path(Args& a) { return get(paths, a.s()); }
static CSpacePathPtr cpath(TrajectoryPtr p) { return boost::dynamic_pointer_cast<CSpacePath>(p); }
OP("pnew")
{
    std::string p = a.s(), k = a.s(), s = a.s();
    if (k == "traj") paths[p].reset(new Trajectory(rob->getRobotNodeSet("joints"), p));
    else paths[p].reset(new CSpacePath(get(spaces, s), p));
    return (int)paths[p]->getDimension();
}
OP("padd") { TrajectoryPtr p = path(a); p->addPoint(cfg(a)); return 0; }
OP("pins") { TrajectoryPtr p = path(a); int k = a.n(); p->insertPosition(k, cfg(a)); return 0; }
OP("pinsl") { TrajectoryPtr p = path(a); int k = a.n(); std::vector<Eigen::VectorXf> v = cfgs(a); p->insertPosition(k, v); return (int)v.size(); }
OP("pinst") { TrajectoryPtr p = path(a); int k = a.n(); TrajectoryPtr q = path(a); p->insertTrajectory(k, q); return 0; }
OP("perase") { TrajectoryPtr p = path(a); p->erasePosition(a.n()); return 0; }
OP("prem") { TrajectoryPtr p = path(a); int k = a.n(), l = a.n(); return (int)p->removePositions(k, l); }
OP("prev") { path(a)->reverse(); return 0; }
OP("preset") { path(a)->reset(); return 0; }
OP("pset") { TrajectoryPtr p = path(a); int k = a.n(); p->getPointRef(k) = cfg(a); return 0; }
OP("pclone")
{
    TrajectoryPtr p = path(a); std::string q = a.s();
    if (cpath(p)) paths[q] = cpath(p)->clone(); else paths[q] = p->clone();
    return Arr().add(paths[q] != p).add(paths[q]->getName() == p->getName()).add(paths[q]->getRobotNodeSet() == p->getRobotNodeSet());
}
OP("psub")
{
    TrajectoryPtr p = path(a); int k = a.n(), l = a.n(); std::string q = a.s();
    TrajectoryPtr r = p->createSubPath(k, l);
    if (r) paths[q] = r;
    return (bool)r;
}
OP("pcont") { TrajectoryPtr p = path(a); return Obj().set("n", p->getNrOfPoints()).set("p", points(p)).set("same", p->getPoints() == p->getData() && p->getData().size() == p->getNrOfPoints()); }
OP("pget") { TrajectoryPtr p = path(a); int k = a.n(); return out(p->getPoint(k)); }
OP("pgets")
{
    TrajectoryPtr p = path(a); int k = a.n(), l = a.n(); std::vector<Eigen::VectorXf> v; bool r = p->getPoints(k, l, v);
    Arr x; for (auto& c : v) x.add(out(c));
    return Obj().set("r", r).set("p", x);
}
OP("plen") { return hundredth(path(a)->getLength()); }
OP("plenw") { TrajectoryPtr p = path(a); if (!cpath(p)) return hundredth(p->getLength()); return hundredth(cpath(p)->getLength(a.b())); }
OP("plenr") { TrajectoryPtr p = path(a); int k = a.n(), l = a.n(); bool w = a.b(); if (!cpath(p)) throw std::logic_error("script: no c-space path"); return hundredth(cpath(p)->getLength(k, l, w)); }
OP("ptime") { TrajectoryPtr p = path(a); int k = a.n(); if (!cpath(p)) throw std::logic_error("script: no c-space path"); return (int)std::floor(cpath(p)->getTime(k) * 10000 + .5); }
OP("pint")
{
    TrajectoryPtr p = path(a); double t = a.d() / 10000; Eigen::VectorXf c; int i = -7;
    p->interpolate((float)t, c, &i);
    Eigen::VectorXf c2; p->interpolate((float)t, c2);
    return Arr().add(out(c)).add(i).add(c == c2);
}
// poses of the tool along the path, in tenths; the robot keeps its joint values
OP("pws")
{
    TrajectoryPtr p = path(a);
    RobotNodeSetPtr js = p->getRobotNodeSet();
    std::vector<float> b = js->getJointValues();
    std::vector<Eigen::Matrix4f> m = cpath(p) ? cpath(p)->createWorkspacePath(RobotNodePtr()) : p->createWorkspaceTrajectory();
    Arr x; for (auto& g : m) { Arr y; for (int k = 0; k < 3; k++) y.add((int)std::floor(g(k, 3) * 10 + .5)); x.add(y); }
    return Obj().set("p", x).set("kept", b == js->getJointValues());
}
OP("pcheck") { CSpacePathPtr p = cpath(path(a)); if (!p) throw std::logic_error("script: no c-space path"); return p->getCSpace()->checkSolution(p); }
// ------------------------------------------------------------------ processing
static boost::shared_ptr<CSpaceSampled> sampled(CSpacePathPtr p)
{
    auto s = p ? boost::dynamic_pointer_cast<CSpaceSampled>(p->getCSpace()) : boost::shared_ptr<CSpaceSampled>();
    if (!s) throw std::logic_error("script: space is not sampled");
    return s;
}
OP("xnew")
{
    std::string x = a.s(), k = a.s(); CSpacePathPtr p = cpath(path(a));
    auto s = sampled(p);
    if (k == "short") procs[x].reset(new ShortcutProcessor(p, s));
    else procs[x].reset(new ElasticBandProcessor(p, s, rob->getRobotNode("tool"), obstacles));
    return 0;
}
static J processed(CSpacePathPtr r, bool vis0)
{
    return Obj().set("has", (bool)r).set("p", points(r)).set("vis", rob->getUpdateVisualizationStatus() == vis0);
}
OP("xopt")
{
    std::string x = a.s(); int n = a.n(), seed = a.n(); bool vis = a.b(); std::string q = a.s();
    srand(seed);
    rob->setUpdateVisualization(vis);
    CSpacePathPtr r = get(procs, x)->optimize(n);
    bool same = r == get(procs, x)->getOptimizedPath();
    if (r) paths[q] = r;
    Obj o; o.set("has", (bool)r).set("p", points(r)).set("vis", rob->getUpdateVisualizationStatus() == vis).set("same", same);
    rob->setUpdateVisualization(true);
    return o;
}
static boost::shared_ptr<ShortcutProcessor> shortcut(Args& a)
{
    auto p = boost::dynamic_pointer_cast<ShortcutProcessor>(get(procs, a.s()));
    if (!p) throw std::logic_error("script: no shortcut processor");
    return p;
}
OP("xlimit") { auto x = shortcut(a); int n = a.n(), d = a.n(), seed = a.n(); srand(seed); CSpacePathPtr r = x->shortenSolutionRandom(n, d); return Obj().set("has", (bool)r).set("p", points(r)); }
OP("xprune") { auto x = shortcut(a); x->doPathPruning(); CSpacePathPtr r = x->getOptimizedPath(); return Obj().set("has", (bool)r).set("p", points(r)); }
OP("xcut") { auto x = shortcut(a); int k = a.n(), l = a.n(); int n = x->doShortcut(k, l); CSpacePathPtr r = x->getOptimizedPath(); return Obj().set("n", n).set("has", (bool)r).set("p", points(r)); }
OP("xok") { auto x = shortcut(a); int k = a.n(), l = a.n(); return x->validShortcut(k, l); }
OP("xsel") { auto x = shortcut(a); int d = a.n(), seed = a.n(), k = -7, l = -7; srand(seed); bool r = x->selectCandidatesRandom(k, l, d); return Arr().add(r).add(k).add(l); }
