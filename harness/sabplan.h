#line 4002 "sabplan.h"
// planners (C11) and background threads (C18)
static Rrt::RrtMethod method(const std::string& m) { return m == "extend" ? Rrt::eExtend : m == "connect" ? Rrt::eConnect : Rrt::eConnectCompletePath; }
OP("mnew")
{
    std::string m = a.s(), k = a.s(), s = a.s(), x = a.s(), y = a.s(); double p = a.d() / 100, step = a.d() / 10; int mc = a.n();
    Planner& q = planners[m];
    if (k == "rrt") q.p.reset(new Rrt(get(spaces, s), method(x), (float)p, (float)step));
    else q.p.reset(new BiRrt(get(spaces, s), method(x), method(y), (float)step));
    q.space = s;
    q.p->setMaxCycles(mc);
    return 0;
}
OP("mstart") { Planner& m = get(planners, a.s()); Eigen::VectorXf c = cfg(a); bool r = m.p->setStart(c); return Arr().add(r).add(m.p->getStartConfig() == c); }
OP("mgoal") { Planner& m = get(planners, a.s()); Eigen::VectorXf c = cfg(a); bool r = m.p->setGoal(c); return Arr().add(r).add(m.p->getGoalConfig() == c); }
OP("minit") { return get(planners, a.s()).p->isInitialized(); }
OP("mreset") { get(planners, a.s()).p->reset(); return 0; }
OP("mtimeout") { Planner& m = get(planners, a.s()); m.p->setPlanningTimeout((float)a.d()); return 0; }
// watch w s at us: a constraint of space s that asks the planner or processor attached to it to stop at its at-th evaluation, and slows down evaluations
OP("watch") { std::string w = a.s(); CSpacePtr s = get(spaces, a.s()); long at = a.n(); int us = a.n(); watches[w].reset(new Watch(s->getDimension(), at, us)); s->addConstraintCheck(watches[w]); return 0; }
OP("warm") { auto w = get(watches, a.s()); std::string m = a.s(); w->at = a.n(); w->us = a.n(); w->n = 0; w->p.reset(); w->proc = nullptr; if (planners.count(m)) w->p = planners[m].p; else if (procs.count(m)) w->proc = procs[m].get(); return 0; }
static J solved(Planner& m, const std::string& q)
{
    CSpacePathPtr s = m.p->getSolution();
    paths[q] = s ? s : CSpacePathPtr(new CSpacePath(get(spaces, m.space)));
    Obj o;
    o.set("has", (bool)s).set("p", points(s)).set("cs", s ? s->getCSpace() == spaces[m.space] : true);
    return o;
}
OP("mplan")
{
    Planner& m = get(planners, a.s()); int seed = a.n(); bool vis = a.b(); std::string q = a.s();
    spaces[m.space]->setRandomSeed(seed);
    RobotPtr r = spaces[m.space]->getRobot();
    r->setUpdateVisualization(vis);
    bool thrown = false, res = false;
    try { res = m.p->plan(true); }
    catch (const std::exception&) { thrown = true; }
    bool kept = r->getUpdateVisualizationStatus() == vis;
    r->setUpdateVisualization(true);
    J s = solved(m, q);
    bool fired = false; for (auto& w : watches) if (w.second->p == m.p && w.second->at > 0 && w.second->n >= w.second->at) fired = true;
    return Obj().set("fired", fired).set("r", res).set("thrown", thrown).set("vis", kept).set("cyc", m.p->getNrOfCycles()).set("sol", s).set("time", m.p->getPlanningTimeMS() >= 0);
}
OP("msol") { Planner& m = get(planners, a.s()); return solved(m, a.s()); }
OP("mtree")
{
    Planner& m = get(planners, a.s());
    Arr r;
    std::vector<CSpaceTreePtr> ts{m.p->getTree()};
    auto b = boost::dynamic_pointer_cast<BiRrt>(m.p);
    if (b) ts.push_back(b->getTree2());
    for (auto& t : ts)
    {
        Arr ns;
        for (auto& n : t->getNodes()) ns.add(Arr().add((int)n->ID).add(n->parentID < 0 ? J(-1) : J(n->parentID)).add(out(n->configuration)));
        r.add(ns);
    }
    return r;
}
// ------------------------------------------------------------------ threads
#include "sabthread.h"
