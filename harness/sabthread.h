#line 5002 "sabthread.h"
// background planning and processing (C18).  A run that does not end by itself: the space is watched, evaluations are slowed down
static std::map<std::string, boost::shared_ptr<PlanningThread>> pthreads;
static std::map<std::string, boost::shared_ptr<PathProcessingThread>> xthreads;
static std::map<std::string, std::string> tOf;
static int tasks()
{
    std::ifstream is("/proc/self/status"); std::string l; int n = -1;
    while (std::getline(is, l)) if (l.compare(0, 8, "Threads:") == 0) n = atoi(l.c_str() + 8);
    return n;
}
static int tasks0 = -1;
static bool runs(const std::string& t) { return pthreads.count(t) ? pthreads[t]->isRunning() : get(xthreads, t)->isRunning(); }
// number of threads beyond those there were; a thread that was joined may be about to vanish
static int extra(int expect) { for (int k = 0; expect >= 0 && k < 10000 && tasks() - tasks0 != expect; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return tasks() - tasks0; }
OP("thnew")
{
    std::string t = a.s(), m = a.s();
    if (tasks0 < 0) tasks0 = tasks();
    tOf[t] = m; pthreads.erase(t); xthreads.erase(t);
    if (planners.count(m)) pthreads[t].reset(new PlanningThread(planners[m].p));
    else xthreads[t].reset(new PathProcessingThread(get(procs, m)));
    return runs(t);
}
static void begin(const std::string& t, int n) { if (pthreads.count(t)) pthreads[t]->start(); else get(xthreads, t)->start(n); }
static void halt(const std::string& t) { if (pthreads.count(t)) pthreads[t]->stop(); else get(xthreads, t)->stop(); }
static void halt(const std::string& t, bool wait) { if (pthreads.count(t)) pthreads[t]->interrupt(wait); else get(xthreads, t)->interrupt(wait); }
// expected number of threads is only used to wait for it
OP("thstart") { std::string t = a.s(); int n = a.n(), e = a.n(); begin(t, n); return Arr().add(runs(t)).add(extra(e)); }
OP("thstop") { std::string t = a.s(); bool i = a.b(); int e = a.n(); if (i) halt(t, true); else halt(t); bool r = runs(t); return Arr().add(r).add(extra(e)); }
OP("thint") { std::string t = a.s(); halt(t, false); return 0; }
OP("thrun") { return runs(a.s()); }
// waits until a watch was evaluated some times
OP("thbusy") { auto w = get(watches, a.s()); long n = a.n(), s = w->n; for (int k = 0; k < 20000 && w->n < s + n; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return w->n >= s + n; }
OP("thwait") { std::string t = a.s(); int e = a.n(); for (int k = 0; k < 60000 && runs(t); k++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); bool r = runs(t); return Arr().add(r).add(r ? 0 : extra(e)); }
// the result offered
OP("thres")
{
    std::string t = a.s(), q = a.s(); bool r = runs(t);
    if (pthreads.count(t))
    {
        Planner& m = get(planners, tOf[t]);
        CSpacePathPtr s = r ? CSpacePathPtr() : pthreads[t]->getPlanner()->getSolution();
        if (!r) paths[q] = s ? s : CSpacePathPtr(new CSpacePath(get(spaces, m.space)));
        return Obj().set("run", r).set("has", (bool)s).set("p", points(s));
    }
    CSpacePathPtr s = get(xthreads, t)->getProcessedPath();
    if (s && !r) paths[q] = s;
    return Obj().set("run", r).set("has", (bool)s).set("p", r ? J(Arr()) : points(s));
}
// start and stop right after each other
OP("thrace")
{
    std::string t = a.s(); int n = a.n(), us = a.n(), e = a.n(); bool ok = true;
    for (int k = 0; k < n; k++) { begin(t, 1000000); if (us) std::this_thread::sleep_for(std::chrono::microseconds(us * k)); halt(t); ok = ok && !runs(t); }
    return Arr().add(ok).add(extra(e));
}
OP("thdel") { std::string t = a.s(); int e = a.n(); pthreads.erase(t); xthreads.erase(t); return extra(e); }
static void endThreads() { pthreads.clear(); xthreads.clear(); tOf.clear(); }
