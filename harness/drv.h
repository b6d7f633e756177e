// Common part of all drivers: reads one operation per line, writes one JSON line per operation.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <set>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <fcntl.h>
#include <unistd.h>

namespace drv
{
    // ---------------------------------------------------------------- JSON values
    struct J
    {
        std::string s;
        J() : s("0") {}
        J(bool b) : s(b ? "true" : "false") {}
        J(int v) : s(std::to_string(v)) {}
        J(unsigned v) : s(std::to_string(v)) {}
        J(long v) : s(std::to_string(v)) {}
        J(unsigned long v) : s(std::to_string(v)) {}
        J(const char* c) { str(c); }
        J(const std::string& c) { str(c); }
        void str(const std::string& c)
        {
            s = "\"";
            for (char ch : c)
            {
                if (ch == '"' || ch == '\\') { s += '\\'; s += ch; }
                else if ((unsigned char)ch < 32) { s += ' '; }
                else s += ch;
            }
            s += '"';
        }
        static J raw(const std::string& r) { J j; j.s = r; return j; }
    };
    struct Arr
    {
        std::string b; bool first = true;
        Arr& add(const J& j) { if (!first) b += ','; first = false; b += j.s; return *this; }
        operator J() const { return J::raw("[" + b + "]"); }
    };
    struct Obj
    {
        std::string b; bool first = true;
        Obj& set(const std::string& k, const J& j)
        {
            if (!first) b += ',';
            first = false;
            b += J(k).s + ":" + j.s;
            return *this;
        }
        operator J() const { return J::raw("{" + b + "}"); }
    };

    // ---------------------------------------------------------------- numbers
    const int BAD = 77777777;      // "not an integer on the lattice": no specification value equals it
    // v in the unit the specification uses; tol absolute
    inline int I(double v, double tol = 0.02)
    {
        if (!(v == v) || std::fabs(v) > 2e7) return BAD;
        double r = std::floor(v + 0.5);
        double t = tol + 4e-6 * std::fabs(v);
        if (std::fabs(v - r) > t) return BAD;
        return (int)r;
    }
    inline J jI(double v, double tol = 0.02) { return J(I(v, tol)); }
    inline double deg(double rad) { return rad * 180.0 / M_PI; }
    inline double rad(double d) { return d * M_PI / 180.0; }

    inline bool onLattice(const Eigen::Matrix4f& m)
    {
        for (int r = 0; r < 3; r++)
        {
            for (int c = 0; c < 3; c++) if (I(m(r, c), 2e-3) == BAD) return false;
            if (I(m(r, 3), 0.05) == BAD) return false;
        }
        return true;
    }
    // 12 integers: rotation row by row, then translation; last row must be (0 0 0 1)
    inline J pose(const Eigen::Matrix4f& m)
    {
        Arr a;
        for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) a.add(jI(m(r, c), 2e-3));
        for (int r = 0; r < 3; r++) a.add(jI(m(r, 3), 0.05));
        if (std::fabs(m(3, 0)) > 1e-5 || std::fabs(m(3, 1)) > 1e-5 || std::fabs(m(3, 2)) > 1e-5 || std::fabs(m(3, 3) - 1) > 1e-5) a.add(BAD);
        return a;
    }
    inline J vec3(const Eigen::Vector3f& v, double tol = 0.05)
    {
        return Arr().add(jI(v(0), tol)).add(jI(v(1), tol)).add(jI(v(2), tol));
    }
    // deviation of two poses, 0 when equal up to float noise
    inline int residual(const Eigen::Matrix4f& a, const Eigen::Matrix4f& b, double posTol = 0.05, double rotTol = 2e-3)
    {
        double r = 0, p = 0;
        for (int i = 0; i < 3; i++)
        {
            for (int j = 0; j < 3; j++) r = std::max(r, (double)std::fabs(a(i, j) - b(i, j)));
            p = std::max(p, (double)std::fabs(a(i, 3) - b(i, 3)));
        }
        double sc = 1.0 + 1e-5 * (b.block<3, 1>(0, 3).norm());
        if (!(r == r) || !(p == p)) return BAD;
        if (r <= rotTol && p <= posTol * sc) return 0;
        return 1 + (int)std::min(1e6, std::max(r / rotTol, p / posTol));
    }

    // ---------------------------------------------------------------- operations
    struct Args
    {
        std::vector<std::string> t; size_t i = 0;
        bool more() const { return i < t.size(); }
        std::string s() { if (i >= t.size()) throw std::logic_error("script: missing argument in " + t[0]); return t[i++]; }
        int n() { return std::atoi(s().c_str()); }
        double d() { return std::atof(s().c_str()); }
        bool b() { return n() != 0; }
        Eigen::Matrix4f pose()
        {
            Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
            for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m(r, c) = (float)d();
            for (int r = 0; r < 3; r++) m(r, 3) = (float)d();
            return m;
        }
        Eigen::Vector3f v3() { Eigen::Vector3f v; v(0) = d(); v(1) = d(); v(2) = d(); return v; }
        std::vector<std::string> strs() { int k = n(); std::vector<std::string> r; while (k-- > 0) r.push_back(s()); return r; }
        std::vector<double> nums() { int k = n(); std::vector<double> r; while (k-- > 0) r.push_back(d()); return r; }
    };
    typedef std::function<J(Args&)> Op;
    inline std::map<std::string, Op>& ops() { static std::map<std::string, Op> o; return o; }
    // called after each op: fields added to the event (projected state)
    inline std::function<void(const std::string& op, Obj&)>& projector() { static std::function<void(const std::string&, Obj&)> p; return p; }
    struct Reg { Reg(const char* n, Op f) { ops()[n] = f; } };

    inline int main(int argc, char** argv)
    {
        if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT OUT\n"); return 2; }
        std::ifstream in(argv[1]);
        FILE* out = fopen(argv[2], "w");
        if (!in || !out) { fprintf(stderr, "cannot open script or output\n"); return 2; }
        // the libraries write a lot to stdout/stderr
        int dn = open(getenv("DRV_VERBOSE") ? "/dev/stderr" : "/dev/null", O_WRONLY);
        if (dn >= 0) { dup2(dn, 1); if (!getenv("DRV_VERBOSE")) dup2(dn, 2); }
        std::string line;
        while (std::getline(in, line))
        {
            Args a; std::istringstream is(line); std::string tok;
            while (is >> tok) a.t.push_back(tok);
            if (a.t.empty()) continue;
            a.i = 1;
            auto it = ops().find(a.t[0]);
            if (it == ops().end()) { fprintf(out, "{\"script_error\":\"unknown op %s\"}\n", a.t[0].c_str()); fclose(out); return 2; }
            Obj o;
            try
            {
                J r = it->second(a);
                o.set("ok", true).set("res", r);
            }
            catch (const std::logic_error& e)
            {
                if (std::string(e.what()).substr(0, 7) == "script:") { fprintf(out, "{\"script_error\":\"%s\"}\n", e.what()); fclose(out); return 2; }
                o.set("ok", false).set("res", 0);
                if (getenv("DRV_VERBOSE")) std::cerr << "EXC " << e.what() << std::endl;
            }
            catch (const std::exception& e)
            {
                o.set("ok", false).set("res", 0);
                if (getenv("DRV_VERBOSE")) std::cerr << "EXC " << e.what() << std::endl;
            }
            catch (...)
            {
                o.set("ok", false).set("res", 0);
            }
            if (projector()) projector()(a.t[0], o);
            J j = o;
            fprintf(out, "%s\n", j.s.c_str());
            fflush(out);
        }
        fclose(out);
        _exit(0);   // no static destruction: it is not under test
    }
}
#define OP3(name, id, reg) static drv::J id(drv::Args& a); static drv::Reg reg(name, id); static drv::J id(drv::Args& a)
#define OP2(name, l) OP3(name, op_##l, reg_##l)
#define OPX(name, l) OP2(name, l)
#define OP(name) OPX(name, __LINE__)
