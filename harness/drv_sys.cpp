// Driver for grids, variable managers and solvers: executes operations from a script on real objects (public API
// only) and records after every one the contents of every variable that changed.
#include "qkjson.hpp"
#include <stdexcept>
#include <type_traits>
#include "lib/range.h"
#include "lib/indexer.h"
#include "lib/exception.h"
#include "grid/rectilinear.h"
#include "grid/structured.h"
#include "basis/basis.h"
#include "basis/volume_average.h"
#include "basis/face_basis.h"
#include "variable/variable.h"
#include "variable/variable_id.h"
#include "variable/variable_manager.h"
#include "solver/solver.h"
#include "solver/bc_conducting_wall.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_periodic.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/current_source.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/euler.h"
#include "solver/fill.h"
#include "solver/gaussian.h"
#include "solver/gem_challenge.h"
#include "solver/lorentz_force.h"
#include "solver/magnetic_pulse.h"
#include "solver/maxwell.h"
#include "solver/print.h"
#include "solver/radial_shock_tube.h"
#include "solver/rk1.h"
#include "solver/shock_tube.h"
#include "solver/ssprk2_advection.h"
#include "solver/ssprk3.h"
#include "solver/swap.h"

using qk::variable::variable;
using qk::variable::variable_id;
using qk::variable::variable_manager;
namespace S = qk::solver;

static qk::range mk(const J &j) {
    std::vector<int> l, u;
    for (auto &x : j.a) { l.push_back(x[0].n()); u.push_back(x[1].n()); }
    return qk::range((int) l.size(), l.data(), u.data());
}
static std::string jr(const qk::range &r) {
    std::vector<std::string> b;
    for (int i = 0; i < r.num_dims(); ++i) b.push_back("[" + js(r.lower(i)) + "," + js(r.upper(i)) + "]");
    return jraw(b);
}
static qk::basis::basis mkbasis(const J &j) {
    std::string bn = j["bn"].s; int np = j["np"].n();
    if (bn == "volume_average" && np == 1) return qk::basis::volume_average();
    if (bn == "face_basis") { qk::basis::face_basis f; f.setup(np, 1); return f; }
    return qk::basis::basis(bn, np);
}
// The structured grid is abstract (no write_vtk): derive it
struct sgrid : qk::grid::structured {
    sgrid(const qk::range &r, const double *s, const double *w) : qk::grid::structured(r, s, w) {}
    void write_vtk(std::ofstream &, const qk::basis::basis &) const {}
};

struct Mgr { std::shared_ptr<qk::grid::rectilinear> g; std::unique_ptr<variable_manager> m; };
struct Seen { std::vector<double> v; };
struct Sol { std::string name; std::unique_ptr<S::solver> s; };
static std::map<int, Mgr> mg;
static std::map<int, variable_id> ids;
static std::map<std::pair<int, int>, Seen> seen;
static std::map<int, Sol> sols;
static std::map<int, std::unique_ptr<sgrid>> sg;
static std::map<int, std::unique_ptr<qk::grid::rectilinear>> rg;
static std::map<int, qk::basis::face_basis> fbs;
static std::map<int, qk::basis::basis> bss;
static std::map<const void *, int> ptrs;
static bool want_ptr = false;
static int pnum(const void *p) { auto it = ptrs.find(p); if (it == ptrs.end()) it = ptrs.insert(std::make_pair(p, (int) ptrs.size() + 1)).first; return it->second; }

static std::vector<double> contents(const variable &v) {
    std::vector<double> out;
    for (qk::indexer ci = v.indexer(); ci.exists(); ci.next()) {
        const qk::data::extended_datachunk &c = v[ci];
        const qk::range &r = c.range(); int n = r.num_dims();
        std::vector<int> x(n); bool ok = n > 0;
        for (int i = 0; i < n; ++i) { x[i] = r.lower(i); if (r.lower(i) >= r.upper(i)) ok = false; }
        while (ok) {
            out.push_back(*c.data(x.data()));
            int d = n - 1;
            while (d >= 0 && ++x[d] >= r.upper(d)) { x[d] = r.lower(d); --d; }
            if (d < 0) break;
        }
    }
    return out;
}
static bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
// All variables reachable by a declared id: what is new, what changed since the last operation
static std::string changes() {
    std::vector<std::string> ch, nw, pt, gone;
    for (auto &m : mg) for (auto &i : ids) {
        const variable *v = nullptr;
        try { v = &m.second.m->input_variable(i.second); } catch (const std::exception &) { if (seen.count(std::make_pair(m.first, i.first))) gone.push_back("[" + js(m.first) + "," + js(i.first) + "]"); continue; }
        std::vector<double> c = contents(*v);
        auto key = std::make_pair(m.first, i.first);
        auto it = seen.find(key);
        std::string tag = "\"m\":" + js(m.first) + ",\"i\":" + js(i.first);
        if (it == seen.end()) {
            std::vector<std::string> names; for (auto &n : v->component_names()) names.push_back(q(n));
            int nch = 0; for (qk::indexer ci = v->indexer(); ci.exists(); ci.next()) ++nch;
            const qk::data::extended_datachunk &ck = v->data()[0];
            nw.push_back("{" + tag + ",\"name\":" + q(v->name()) + ",\"comps\":" + jraw(names) + ",\"bn\":" + q(v->basis().name()) + ",\"np\":" + js(v->basis().num_points()) +
                         ",\"b\":" + jr(ck.range()) + ",\"in\":" + jr(ck.internal_range()) + ",\"g\":" + js(ck.num_ghost_layers()) + ",\"nch\":" + js(nch) + ",\"n\":" + js((int) c.size()) + "}");
            bool z = true; for (double d : c) if (d != 0 || std::signbit(d)) z = false;
            if (!z) ch.push_back("{" + tag + ",\"v\":" + jarr(c) + "}");
            seen[key].v = c;
        } else if (!same(it->second.v, c)) { ch.push_back("{" + tag + ",\"v\":" + jarr(c) + "}"); it->second.v = c; }
        if (want_ptr) pt.push_back("[" + js(m.first) + "," + js(i.first) + "," + js(pnum(v)) + "," + js(pnum(v->data()[0].data())) + "]");
    }
    std::string r = "\"ch\":" + jraw(ch) + ",\"nw\":" + jraw(nw) + ",\"gone\":" + jraw(gone);
    if (want_ptr) {
        r += ",\"pt\":" + jraw(pt);
        std::vector<std::string> t; for (auto &m : mg) t.push_back("[" + js(m.first) + "," + js(m.second.m->time()) + "," + js(m.second.m->dt()) + "]");
        r += ",\"tm\":" + jraw(t);
    }
    return r;
}

static S::solver *mksolver(const std::string &s) {
    if (s == "bc_periodic") return new S::bc_periodic();
    if (s == "bc_copy_out") return new S::bc_copy_out();
    if (s == "bc_no_slip") return new S::bc_no_slip();
    if (s == "bc_free_slip") return new S::bc_free_slip();
    if (s == "bc_conducting_wall") return new S::bc_conducting_wall();
    if (s == "brio_wu_shock_tube") return new S::brio_wu_shock_tube();
    if (s == "current_source") return new S::current_source();
    if (s == "electromagnetic_wave_1D") return new S::electromagnetic_wave_1D();
    if (s == "euler") return new S::euler();
    if (s == "fill") return new S::fill();
    if (s == "gaussian") return new S::gaussian();
    if (s == "gem_challenge") return new S::gem_challenge();
    if (s == "lorentz_force") return new S::lorentz_force();
    if (s == "magnetic_pulse") return new S::magnetic_pulse();
    if (s == "maxwell") return new S::maxwell();
    if (s == "print") return new S::print();
    if (s == "radial_shock_tube") return new S::radial_shock_tube();
    if (s == "rk1") return new S::rk1();
    if (s == "shock_tube") return new S::shock_tube();
    if (s == "ssprk2_advection") return new S::ssprk2_advection();
    if (s == "ssprk3") return new S::ssprk3();
    if (s == "swap") return new S::swap();
    fprintf(stderr, "driver: unknown solver %s\n", s.c_str()); _exit(97);
}
// A copy of a solver object, made by copy construction or by assignment over a fresh one; the original when its type has no copies
template <class T> typename std::enable_if<std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value, S::solver *>::type dup(S::solver *o, bool assign) {
    if (!assign) return new T(*static_cast<T *>(o));
    T *n = new T(); *n = *static_cast<T *>(o); return n;
}
template <class T> typename std::enable_if<!(std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value), S::solver *>::type dup(S::solver *, bool) { return nullptr; }
static S::solver *cpsolver(const std::string &s, S::solver *o, bool assign) {
    if (s == "bc_periodic") return dup<S::bc_periodic>(o, assign);
    if (s == "bc_copy_out") return dup<S::bc_copy_out>(o, assign);
    if (s == "bc_no_slip") return dup<S::bc_no_slip>(o, assign);
    if (s == "bc_free_slip") return dup<S::bc_free_slip>(o, assign);
    if (s == "bc_conducting_wall") return dup<S::bc_conducting_wall>(o, assign);
    if (s == "brio_wu_shock_tube") return dup<S::brio_wu_shock_tube>(o, assign);
    if (s == "current_source") return dup<S::current_source>(o, assign);
    if (s == "electromagnetic_wave_1D") return dup<S::electromagnetic_wave_1D>(o, assign);
    if (s == "euler") return dup<S::euler>(o, assign);
    if (s == "fill") return dup<S::fill>(o, assign);
    if (s == "gaussian") return dup<S::gaussian>(o, assign);
    if (s == "gem_challenge") return dup<S::gem_challenge>(o, assign);
    if (s == "lorentz_force") return dup<S::lorentz_force>(o, assign);
    if (s == "magnetic_pulse") return dup<S::magnetic_pulse>(o, assign);
    if (s == "maxwell") return dup<S::maxwell>(o, assign);
    if (s == "print") return dup<S::print>(o, assign);
    if (s == "radial_shock_tube") return dup<S::radial_shock_tube>(o, assign);
    if (s == "rk1") return dup<S::rk1>(o, assign);
    if (s == "shock_tube") return dup<S::shock_tube>(o, assign);
    if (s == "ssprk2_advection") return dup<S::ssprk2_advection>(o, assign);
    if (s == "ssprk3") return dup<S::ssprk3>(o, assign);
    if (s == "swap") return dup<S::swap>(o, assign);
    return nullptr;
}
static void setup(const std::string &s, S::solver *o, const J &p) {
    auto D = [&](const char *k) { return p[k].d(); };
    if (s == "bc_periodic") static_cast<S::bc_periodic *>(o)->setup(p["dims"].ints());
    else if (s == "bc_copy_out") static_cast<S::bc_copy_out *>(o)->setup(p["dims"].ints());
    else if (s == "bc_no_slip") static_cast<S::bc_no_slip *>(o)->setup(p["dims"].ints());
    else if (s == "bc_free_slip") static_cast<S::bc_free_slip *>(o)->setup(p["dims"].ints());
    else if (s == "bc_conducting_wall") static_cast<S::bc_conducting_wall *>(o)->setup(p["dims"].ints());
    else if (s == "brio_wu_shock_tube") static_cast<S::brio_wu_shock_tube *>(o)->setup(D("gamma"), D("me"), D("mi"), D("nl"), D("nr"), D("Pl"), D("Pr"), D("Bx"), D("By"));
    else if (s == "current_source") static_cast<S::current_source *>(o)->setup(D("eps0"), p["q"].ds(), p["ms"].ds());
    else if (s == "electromagnetic_wave_1D") static_cast<S::electromagnetic_wave_1D *>(o)->setup(p["dim"].n(), D("c"), D("k"), D("Bx"), D("By"), D("Bz"));
    else if (s == "euler") static_cast<S::euler *>(o)->setup(D("gamma"));
    else if (s == "fill") static_cast<S::fill *>(o)->setup(D("value"));
    else if (s == "gaussian") static_cast<S::gaussian *>(o)->setup(D("amp"), p["avg"].ds(), D("sd"));
    else if (s == "gem_challenge") static_cast<S::gem_challenge *>(o)->setup(D("lambda"), D("Lx"), D("n0"), D("n1"), D("gamma"), D("qe"), D("me"), D("ue"), D("Te"), D("qi"), D("mi"), D("ui"), D("Ti"), D("B0"));
    else if (s == "lorentz_force") static_cast<S::lorentz_force *>(o)->setup(D("q"), D("ms"));
    else if (s == "magnetic_pulse") static_cast<S::magnetic_pulse *>(o)->setup(D("amp"), D("sd"));
    else if (s == "maxwell") static_cast<S::maxwell *>(o)->setup(D("c"));
    else if (s == "radial_shock_tube") { if (p.has("center")) static_cast<S::radial_shock_tube *>(o)->setup(D("r"), D("rho"), D("P"), D("gamma"), p["center"].ds()); else static_cast<S::radial_shock_tube *>(o)->setup(D("r"), D("rho"), D("P"), D("gamma")); }
    else if (s == "shock_tube") static_cast<S::shock_tube *>(o)->setup(D("rho"), D("P"), D("gamma"));
    else if (s == "ssprk2_advection") static_cast<S::ssprk2_advection *>(o)->setup(p["vel"].ds());
}

struct Capture {  // what the code under test prints goes to out
    std::stringstream out; std::streambuf *old;
    Capture() { old = std::cout.rdbuf(out.rdbuf()); }
    ~Capture() { std::cout.rdbuf(old); }
};
static std::string rows(const std::string &text) {  // rows "( coordinates ) value" of printed text
    std::vector<std::string> r; std::istringstream in(text); std::string line;
    while (std::getline(in, line)) {
        size_t a = line.find('('), b = line.find(')', a == std::string::npos ? 0 : a);
        if (a == std::string::npos || b == std::string::npos) continue;
        std::vector<int> c; const char *p = line.c_str() + a, *e = line.c_str() + b;
        while (p < e) { if (isdigit((unsigned char) *p) || (*p == '-' && isdigit((unsigned char) p[1]))) { char *x; c.push_back((int) strtol(p, &x, 10)); p = x; } else ++p; }
        p = e; while (*p && !(isdigit((unsigned char) *p) || *p == '-' || *p == '.' || *p == 'n' || *p == 'i')) ++p;
        if (!*p) continue;
        r.push_back("{\"x\":" + jarr(c) + ",\"v\":" + js(strtod(p, nullptr)) + "}");
    }
    return jraw(r);
}
// A legacy VTK file, tokenised
static std::string vtk(const std::string &path) {
    std::ifstream in(path.c_str());
    if (!in) return "{\"file\":false}";
    std::string l1, l2, l3; std::getline(in, l1); std::getline(in, l2); std::getline(in, l3);
    std::string dataset, w; std::vector<int> dims; std::vector<double> org, spc; int cells = -1; bool junk = false;
    std::vector<std::string> fields; std::string fname; std::vector<double> vals; bool open = false; int ncomp = 0;
    auto num = [&](double &x) { std::string t; if (!(in >> t)) return false; char *e; x = strtod(t.c_str(), &e); if (*e || e == t.c_str()) { junk = true; return false; } return true; };
    auto flush = [&]() { if (open) fields.push_back("{\"name\":" + q(fname) + ",\"nc\":" + js(ncomp) + ",\"v\":" + jarr(vals) + "}"); open = false; vals.clear(); };
    std::vector<std::string> order;
    while (in >> w) {
        if (w == "DATASET") { in >> dataset; order.push_back(w); }
        else if (w == "DIMENSIONS") { for (int i = 0; i < 3; ++i) { double x; if (num(x)) dims.push_back(asint(x)); } order.push_back(w); }
        else if (w == "ORIGIN") { for (int i = 0; i < 3; ++i) { double x; if (num(x)) org.push_back(x); } order.push_back(w); }
        else if (w == "SPACING") { for (int i = 0; i < 3; ++i) { double x; if (num(x)) spc.push_back(x); } order.push_back(w); }
        else if (w == "CELL_DATA") { double x; if (num(x)) cells = asint(x); order.push_back(w); }
        else if (w == "SCALARS") { flush(); open = true; std::string ty, rest; in >> fname >> ty; std::getline(in, rest); ncomp = rest.find_first_not_of(" \r\t") == std::string::npos ? 1 : atoi(rest.c_str()); }
        else if (w == "LOOKUP_TABLE") { std::string t; in >> t; if (!open) junk = true; }
        else { char *e; double x = strtod(w.c_str(), &e); if (*e || e == w.c_str() || !open) junk = true; else vals.push_back(x); }
    }
    flush();
    std::vector<std::string> oq; for (auto &x : order) oq.push_back(q(x));
    return "{\"file\":true,\"magic\":" + jb(l1.find("# vtk DataFile Version") == 0) + ",\"ascii\":" + jb(l3.substr(0, 5) == "ASCII") + ",\"ds\":" + q(dataset) + ",\"dims\":" + jarr(dims) + ",\"org\":" + jarr(org) +
        ",\"spc\":" + jarr(spc) + ",\"cells\":" + js(cells) + ",\"junk\":" + jb(junk) + ",\"order\":" + jraw(oq) + ",\"fields\":" + jraw(fields) + "}";
}
static std::vector<variable_id> idlist(const J &j) { std::vector<variable_id> v; for (auto &x : j.a) v.push_back(ids.at((int) x.i)); return v; }
static std::string cmp2(std::function<bool()> f) { try { return f() ? "\"T\"" : "\"F\""; } catch (const qk::exception &e) { return std::string(e.what()).empty() ? "\"empty\"" : "\"X\""; } catch (...) { return "\"other\""; } }

static std::string sgview(const sgrid &g) {
    std::vector<std::string> d; 
    for (int i = 0; i < g.num_dims(); ++i) {
        std::vector<double> dx, xc;
        for (int k = g.lower(i); k < g.upper(i); ++k) { dx.push_back(g.dx(i, k)); xc.push_back(g.centroid(i, k)); }
        d.push_back("{\"s\":" + js(g.start(i)) + ",\"w\":" + js(g.width(i)) + ",\"dx\":" + jarr(dx) + ",\"xc\":" + jarr(xc) + "}");
    }
    return jraw(d);
}
static std::string rgview(const qk::grid::rectilinear &g) {
    std::vector<std::string> d;
    for (int i = 0; i < g.num_dims(); ++i) {
        std::vector<double> xc; for (int k = g.lower(i); k < g.upper(i); ++k) xc.push_back(g.centroid(i, k));
        d.push_back("{\"s\":" + js(g.start(i)) + ",\"w\":" + js(g.width(i)) + ",\"dx\":" + js(g.dx(i)) + ",\"xc\":" + jarr(xc) + "}");
    }
    std::vector<std::string> cells;  // whole cells including two ghost layers, through xc()
    qk::range ext = g.range(); for (int i = 0; i < ext.num_dims(); ++i) ext.expand(i, -2, 2);
    for (qk::indexer x(ext, ext); x.exists(); x.next()) { std::vector<double> c(g.num_dims()); g.xc(x, c.data()); std::vector<int> k; for (int i = 0; i < g.num_dims(); ++i) k.push_back(x[i]); cells.push_back("{\"k\":" + jarr(k) + ",\"x\":" + jarr(c) + "}"); }
    return "{\"d\":" + jraw(d) + ",\"cells\":" + jraw(cells) + "}";
}

static std::string extra;  // additional observation of the current operation
static void run(const J &j) {
    const std::string &op = j["op"].s;
    extra = "";
    if (op == "reset") { sols.clear(); seen.clear(); mg.clear(); ids.clear(); sg.clear(); rg.clear(); fbs.clear(); bss.clear(); ptrs.clear(); want_ptr = j.has("ptr"); return; }
    if (op == "note") return;
    if (op == "grid") {
        Mgr &m = mg[j["m"].n()]; auto s = j["start"].ds(), w = j["width"].ds();
        if (j.has("share")) m.g = mg.at(j["share"].n()).g;      // two managers of one grid
        else m.g.reset(new qk::grid::rectilinear(mk(j["b"]), s.data(), w.data()));
        m.m.reset(new variable_manager(*m.g)); return;
    }
    if (op == "id") { std::vector<std::string> c = j["comps"].strs(); ids[j["i"].n()] = variable_id(j["name"].s, c, mkbasis(j)); return; }
    if (op == "clone") { variable_id c = ids.at(j["of"].n()).unique_clone(); ids[j["i"].n()] = c; std::vector<std::string> n; for (auto &x : c.component_names()) n.push_back(q(x));
        extra = ",\"clone\":{\"name\":" + q(c.name()) + ",\"comps\":" + jraw(n) + ",\"bn\":" + q(c.basis().name()) + ",\"np\":" + js(c.basis().num_points()) + "}"; return; }
    if (op == "tag") { extra = ",\"tag\":" + js(variable_id::unique_tag()); return; }
    if (op == "cmpid") { const variable_id &a = ids.at(j["a"].n()), &b = ids.at(j["b"].n()); extra = ",\"lt\":" + cmp2([&]() { return a < b; }) + ",\"eq\":" + cmp2([&]() { return a == b; }); return; }
    if (op == "cmpbs") {
        qk::basis::basis a = mkbasis(j["a"]), b = mkbasis(j["b"]);
        extra = ",\"lt\":" + cmp2([&]() { return a < b; }) + ",\"eq\":" + cmp2([&]() { return a == b; }) + ",\"ne\":" + cmp2([&]() { return a != b; }); return; }
    if (op == "orderid" || op == "orderbs") {   // all pairs
        bool bs = op == "orderbs"; std::vector<variable_id> v; std::vector<qk::basis::basis> b;
        if (bs) for (auto &x : j["bs"].a) b.push_back(mkbasis(x)); else for (auto &x : j["ids"].a) v.push_back(ids.at((int) x.i));
        size_t n = bs ? b.size() : v.size(); std::vector<std::string> lt, eq, ne;
        for (size_t p = 0; p < n; ++p) {
            std::vector<std::string> l, e, d;
            for (size_t k = 0; k < n; ++k) {
                l.push_back(cmp2([&]() { return bs ? b[p] < b[k] : v[p] < v[k]; })); e.push_back(cmp2([&]() { return bs ? b[p] == b[k] : v[p] == v[k]; }));
                if (bs) d.push_back(cmp2([&]() { return b[p] != b[k]; }));
            }
            lt.push_back(jraw(l)); eq.push_back(jraw(e)); ne.push_back(jraw(d));
        }
        extra = ",\"lt\":" + jraw(lt) + ",\"eq\":" + jraw(eq) + ",\"ne\":" + jraw(ne); return;
    }
    if (op == "face") { qk::basis::face_basis &f = fbs[j["k"].n()]; 
        try { f.setup(j["nd"].n(), j["pp"].n()); } catch (...) { extra = ",\"fb\":{\"name\":" + q(f.name()) + ",\"np\":" + js(f.num_points()) + "}"; throw; }
        extra = ",\"fb\":{\"name\":" + q(f.name()) + ",\"np\":" + js(f.num_points()) + "}"; return; }
    if (op == "out") { mg.at(j["m"].n()).m->output_variable(ids.at(j["i"].n())); return; }
    if (op == "in") { mg.at(j["m"].n()).m->input_variable(ids.at(j["i"].n())); return; }
    if (op == "set") {  // through output_variable, whole storage (row-major by coordinates)
        variable &v = mg.at(j["m"].n()).m->output_variable(ids.at(j["i"].n()));
        auto &c = v.data()[0]; auto d = j["v"].ds(); if ((int) d.size() != c.volume()) throw std::runtime_error("the variable reached has another size");
        int k = 0; const qk::range &r = c.range(); int n = r.num_dims(); std::vector<int> x(n); for (int i = 0; i < n; ++i) x[i] = r.lower(i);
        while (true) { *c.data(x.data()) = d[k++]; int e = n - 1; while (e >= 0 && ++x[e] >= r.upper(e)) { x[e] = r.lower(e); --e; } if (e < 0) break; }
        return;
    }
    if (op == "poke") {  // single elements, by storage order
        variable &v = mg.at(j["m"].n()).m->output_variable(ids.at(j["i"].n()));
        auto &c = v.data()[0]; auto at = j["at"].ints(); auto d = j["v"].ds();
        for (size_t k = 0; k < at.size(); ++k) { if (at[k] < 0 || at[k] >= c.volume()) throw std::runtime_error("the variable reached has another size"); c.data()[at[k]] = d[k]; }
        return;
    }
    if (op == "time") { mg.at(j["m"].n()).m->set_time(j["t"].d()); return; }
    if (op == "dt") { mg.at(j["m"].n()).m->set_dt(j["dt"].d()); return; }
    if (op == "mk") {
        int k = j["k"].n(); Sol &s = sols[k];
        if (!j.has("again")) { s.name = j["s"].s; s.s.reset(mksolver(s.name)); }
        if (j.has("p")) setup(s.name, s.s.get(), j["p"]);
        if (j.has("add")) { for (auto &v : idlist(j["in"])) s.s->add_input_variable(v); for (auto &v : idlist(j["out"])) s.s->add_output_variable(v); }
        else { s.s->set_input_variables(idlist(j["in"])); s.s->set_output_variables(idlist(j["out"])); }
        if (j.has("via")) {     // work with a copy; the original goes on to be used for something else
            if (S::solver *n = cpsolver(s.name, s.s.get(), j["via"].s == "assign")) {
                if (j.has("q")) setup(s.name, s.s.get(), j["q"]);
                s.s->set_input_variables(std::vector<variable_id>()); s.s->add_output_variable(variable_id("scratch", std::vector<std::string>(1, "x"), qk::basis::volume_average()));
                s.s.reset(n);
            }
        }
        return;
    }
    if (op == "stages") { Sol &s = sols.at(j["k"].n()); extra = ",\"n\":" + js(s.name == "rk1" ? static_cast<S::rk1 *>(s.s.get())->num_stages() : static_cast<S::ssprk3 *>(s.s.get())->num_stages()); return; }
    if (op == "solve") {
        Sol &s = sols.at(j["k"].n()); Capture c;
        auto all = [&]() { std::map<std::pair<int, int>, qk::data::extended_datachunk *> r;
            for (auto &m : mg) for (auto &i : ids) try { r[std::make_pair(m.first, i.first)] = const_cast<qk::data::extended_datachunk *>(&m.second.m->input_variable(i.second).data()[0]); } catch (const std::exception &) {}
            return r; };
        typedef std::map<std::pair<int, int>, std::vector<double>> Store;
        auto save = [&]() { Store r; for (auto &x : all()) r[x.first].assign(x.second->data(), x.second->data() + x.second->volume()); return r; };
        Store before; if (j.has("rep")) before = save();
        s.s->solve(*mg.at(j["m"].n()).m, j["tag"].n());
        if (j.has("rep")) {     // the same call from the same state again and again
            Store after = save(); bool eq = true;
            for (int n = j["rep"].n(); n > 1 && eq; --n) {
                for (auto &x : all()) { auto it = before.find(x.first); if (it == before.end()) std::fill_n(x.second->data(), x.second->volume(), 0.); else std::copy(it->second.begin(), it->second.end(), x.second->data()); }
                s.s->solve(*mg.at(j["m"].n()).m, j["tag"].n());
                Store now = save(); eq = now.size() == after.size();
                for (auto &x : now) if (eq) eq = same(x.second, after[x.first]);
            }
            extra = ",\"rep\":" + jb(eq); return;
        }
        if (s.name == "print") extra = ",\"rows\":" + rows(c.out.str());
        return;
    }
    if (op == "vtk") {
        const char *f = "out.vtk"; if (!j.has("over")) unlink(f); extra = ",\"vtk\":{\"file\":false}";
        mg.at(j["m"].n()).m->write_vtk("out", ".vtk", idlist(j["ids"]));
        extra = ",\"vtk\":" + vtk(f); return;
    }
    if (op == "vtkbad") { mg.at(j["m"].n()).m->write_vtk("/nonexistent_qkv_dir/x", ".vtk", idlist(j["ids"])); return; }
    // ---- grids on their own
    if (op == "s.new") { auto s = j["start"].ds(), w = j["width"].ds(); sg[j["k"].n()].reset(new sgrid(mk(j["b"]), s.data(), w.data())); extra = ",\"g\":" + sgview(*sg[j["k"].n()]); return; }
    if (op == "s.copy") {
        const sgrid &o = *sg.at(j["of"].n()); auto &n = sg[j["k"].n()];
        if (n && j["how"].s == "assign") *n = o; else n.reset(new sgrid(o));
        extra = ",\"g\":" + sgview(*n); return;
    }
    if (op == "g.copy") {
        const qk::grid::rectilinear &o = *rg.at(j["of"].n()); auto &n = rg[j["k"].n()];
        if (n && j["how"].s == "assign") *n = o; else n.reset(new qk::grid::rectilinear(o));
        extra = ",\"g\":" + rgview(*n); return;
    }
    if (op == "s.bias") {
        sgrid &g = *sg.at(j["k"].n());
        try { if (j["how"].s == "sym") g.apply_bias_symmetric(j["d"].n(), j["pow"].d()); else g.apply_bias_linear(j["d"].n(), j["pow"].d()); } catch (...) { extra = ",\"g\":" + sgview(g); throw; }
        extra = ",\"g\":" + sgview(g); return;
    }
    if (op == "s.get") {
        sgrid &g = *sg.at(j["k"].n()); const std::string &w = j["w"].s; int d = j["d"].n(), c = j["c"].n(); double x;
        try { x = w == "start" ? g.start(d) : w == "width" ? g.width(d) : w == "dx" ? g.dx(d, c) : g.centroid(d, c); } catch (...) { extra = ",\"g\":" + sgview(g); throw; }
        extra = ",\"x\":" + js(x) + ",\"g\":" + sgview(g); return;
    }
    if (op == "g.new") { auto s = j["start"].ds(), w = j["width"].ds(); rg[j["k"].n()].reset(new qk::grid::rectilinear(mk(j["b"]), s.data(), w.data())); extra = ",\"g\":" + rgview(*rg[j["k"].n()]); return; }
    if (op == "g.get") {
        qk::grid::rectilinear &g = *rg.at(j["k"].n()); const std::string &w = j["w"].s; int d = j["d"].n(), c = j["c"].n(); double x;
        try { x = w == "start" ? g.start(d) : w == "width" ? g.width(d) : w == "dx" ? g.dx(d) : g.centroid(d, c); } catch (...) { extra = ",\"g\":" + rgview(g); throw; }
        extra = ",\"x\":" + js(x) + ",\"g\":" + rgview(g); return;
    }
    if (op == "exc") {  // exceptions on their own: every way of constructing, copying, assigning and extending
        std::string t = j["t"].s, u = j["u"].s; std::vector<std::string> v, two;
        qk::exception *a = new qk::exception(t); qk::exception b(*a), c("something else entirely, long enough not to be short"), e0; c = *a; const qk::exception f = c; e0 = f; delete a;
        std::string pad(200, 'x');
        v.push_back(q(b.what())); v.push_back(q(c.what())); v.push_back(q(f.what())); v.push_back(q(e0.what()));
        try { throw qk::exception(t); } catch (const std::exception &x) { v.push_back(q(x.what())); }
        try { throw b; } catch (qk::exception x) { qk::exception y; y = x; v.push_back(q(y.what())); }
        {   // several at once: the text of one does not depend on the others
            const qk::exception x1(t), x2(u), x3(t + u), x4(u); const char *w1 = x1.what(); x2.what(); const char *w3 = x3.what(); x4.what(); v.push_back(q(w1)); two.push_back(q(w3));
        }
        qk::exception g(t); g << u; std::stringstream ss; ss << g; qk::exception h(g); h << u;
        std::runtime_error re(t); qk::exception w((const std::exception &) re); v.push_back(q(w.what()));
        extra = ",\"same\":" + jraw(v) + ",\"app\":[" + q(g.what()) + "," + two[0]  + "," + q(ss.str()) + "],\"app2\":" + q(h.what()) + ",\"c\":" + q(c.what()); return;
    }
    fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(97);
}

int main(int argc, char **argv) {
    if (argc < 3) return 96;
    std::ifstream in(argv[1]); g_out = fopen(argv[2], "w");
    signal(SIGALRM, on_alarm);
    std::string line; qk::exception keep("initial message of the kept exception, replaced by every later one");
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        ++g_line; J j = parse(line); alarm(30);
        std::string st = "ok", msg; bool kept = true;
        try { run(j); }
        catch (const qk::exception &e) { st = "qk"; msg = e.what(); qk::exception c(e); keep = c; }
        catch (const std::exception &e) { st = "std"; msg = e.what(); }
        if (st == "qk") kept = msg == keep.what();
        if (j["op"].s.compare(0, 2, "s.") == 0 || j["op"].s.compare(0, 2, "g.") == 0) {   // which other grids show something new
            static std::map<std::string, std::string> shown; std::vector<std::string> moved; std::string own = j["op"].s.substr(0, 1) + js(j["k"].n());
            std::map<std::string, std::string> now;
            for (auto &x : sg) if (x.second) now["s" + js(x.first)] = sgview(*x.second);
            for (auto &x : rg) if (x.second) now["g" + js(x.first)] = rgview(*x.second);
            for (auto &x : now) if (x.first != own && shown.count(x.first) && shown[x.first] != x.second) moved.push_back(q(x.first));
            shown = now; extra += ",\"moved\":" + jraw(moved);
        }
        std::string obs = changes();
        fprintf(g_out, "{\"e\":%s,\"st\":%s,\"msg\":%s,\"kept\":%s,\"obs\":{%s%s}}\n", line.c_str(), q(st).c_str(), q(msg).c_str(), jb(kept).c_str(), obs.c_str(), extra.c_str());
        fflush(g_out);
    }
    fclose(g_out);
    return 0;
}
