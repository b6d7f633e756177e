// Driver for data files, data paths and command line values (C21).
#include "drv.h"
#include <VirtualRobot/RuntimeEnvironment.h>
#include <VirtualRobot/XML/BaseIO.h>
#include <VirtualRobot/XML/rapidxml.hpp>
#include <sys/stat.h>
#include <limits.h>
using namespace VirtualRobot;
using namespace drv;
static std::string root;      // absolute name of the scratch tree

static std::string join(const std::vector<std::string>& c)
{
    std::string r;
    for (size_t i = 0; i < c.size(); i++)
        if (i == 0 && c[0] == "@") r = root;
        else r += (r.empty() ? "" : "/") + c[i];
    return r;
}
static std::string path(Args& a) { return join(a.strs()); }
static std::string place(Args& a) { std::string r = root; for (auto& c : a.strs()) r += "/" + c; return r; }
static J split(const std::string& s)
{
    Arr r;
    std::string t = s;
    if (t.compare(0, root.size(), root) == 0 && (t.size() == root.size() || t[root.size()] == '/')) { r.add("@"); t = t.substr(root.size()); }
    else if (!t.empty() && t[0] == '/') r.add("outside");
    std::string w;
    for (char ch : t + "/") if (ch == '/') { if (!w.empty()) r.add(w); w.clear(); } else w += ch;
    return r;
}
static std::string in(const std::string& s)       // "@" stands for the root
{
    std::string r = s;
    size_t k = r.find("@/");
    if (k != std::string::npos) r.replace(k, 1, root);
    return r;
}
static std::string out(const std::string& s)
{
    std::string r = s;
    size_t k = r.find(root + "/");
    if (k != std::string::npos) r.replace(k, root.size(), "@");
    return r;
}
OP("reset")
{
    char t[] = "treeXXXXXX", full[PATH_MAX];
    if (!mkdtemp(t) || !realpath(t, full)) throw std::logic_error("script: no scratch directory");
    root = full;
    if (chdir(full)) throw std::logic_error("script: no scratch directory");
    unsetenv("SIMOX_DATA_PATH"); unsetenv("VIRTUAL_ROBOT_DATA_PATH"); unsetenv("Simox_DIR");
    return 0;
}
OP("setenv") { std::string v = a.s(), p = path(a); const char* n = v == "simox" ? "SIMOX_DATA_PATH" : "VIRTUAL_ROBOT_DATA_PATH"; if (p.empty()) unsetenv(n); else setenv(n, p.c_str(), 1); return 0; }
OP("mkdir") { std::string p = place(a); if (::mkdir(p.c_str(), 0755)) throw std::logic_error("script: mkdir " + p); return 0; }
OP("mkfile") { std::string p = place(a); std::ofstream f(p); f << "x"; if (!f) throw std::logic_error("script: mkfile " + p); return 0; }
OP("mklink") { std::string p = place(a), q = place(a); if (symlink(q.c_str(), p.c_str())) throw std::logic_error("script: link " + p); return 0; }
OP("rm") { std::string p = place(a); if (p.compare(0, root.size() + 1, root + "/") || p.find("..") != std::string::npos || unlink(p.c_str())) throw std::logic_error("script: rm " + p); return 0; }
OP("cd") { std::string p = place(a); if (chdir(p.c_str())) throw std::logic_error("script: cd " + p); return 0; }
OP("adddp") { return RuntimeEnvironment::addDataPath(path(a), true); }
OP("dps")
{
    Arr r;
    for (auto& p : RuntimeEnvironment::getDataPaths())
        if (p[0] != '/' || p.compare(0, root.size(), root) == 0) r.add(split(p));
    return r;
}
OP("resolve") { std::string p = path(a); bool f = RuntimeEnvironment::getDataFileAbsolute(p); return Obj().set("found", f).set("p", split(p)); }
OP("key") { RuntimeEnvironment::considerKey(a.s()); return 0; }
OP("cmd")
{
    std::vector<std::string> v = a.strs();
    std::vector<char*> c;
    v.insert(v.begin(), "program");
    for (auto& s : v) { s = in(s); c.push_back(&s[0]); }
    RuntimeEnvironment::processCommandLine((int)c.size(), c.data());
    return 0;
}
OP("kvset") { std::string k = a.s(); RuntimeEnvironment::addKeyValuePair(k, in(a.s())); return 0; }
OP("kvget") { std::string k = a.s(), d = a.s(); return Obj().set("has", RuntimeEnvironment::hasValue(k)).set("v", out(RuntimeEnvironment::getValue(k))).set("par", out(RuntimeEnvironment::checkParameter(k, d))); }
OP("kvall") { Obj o; o.set("_", 0); for (auto& p : RuntimeEnvironment::getKeyValuePairs()) o.set(p.first, out(p.second)); return o; }
OP("rest") { Arr r; for (auto& s : RuntimeEnvironment::getUnrecognizedOptions()) r.add(out(s)); return r; }
OP("vfile") { std::string k = a.s(), p = path(a); return split(RuntimeEnvironment::checkValidFileParameter(k, p)); }
OP("abs") { std::string b = path(a), p = path(a); BaseIO::makeAbsolutePath(b, p); return split(p); }
OP("rel") { std::string b = path(a), p = path(a); BaseIO::makeRelativePath(b, p); return split(p); }
OP("relabs") { std::string b = path(a), p = path(a); BaseIO::makeRelativePath(b, p); BaseIO::makeAbsolutePath(b, p); return split(p); }
OP("fnode")
{
    std::string b = path(a), p = path(a), how = a.s();
    std::string x = "<File" + (how == "-" ? std::string() : " path='" + how + "'") + ">" + p + "</File>";
    std::vector<char> t(x.begin(), x.end());
    t.push_back(0);
    rapidxml::xml_document<char> d;
    d.parse<0>(t.data());
    return split(BaseIO::processFileNode(d.first_node(), b));
}
OP("tovec")
{
    std::vector<double> v = a.nums();
    bool o = a.b(), c = a.b();
    std::ostringstream s;
    if (o) s << "(";
    for (size_t i = 0; i < v.size(); i++) s << (i ? "," : "") << v[i];
    if (c) s << ")";
    Eigen::Vector3f r(7, 7, 7);
    bool ok = RuntimeEnvironment::toVector3f(s.str(), r);
    return Obj().set("ok", ok).set("v", vec3(r));
}
int main(int argc, char** argv) { return drv::main(argc, argv); }
