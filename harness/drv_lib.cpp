// Driver for src/lib and src/data: executes operations from a script on real objects (public API only)
// and records the complete observable state after every one.
#include "qkjson.hpp"
#include "lib/range.h"
#include "lib/indexer.h"
#include "lib/indexer_interface.h"
#include "lib/range_set.h"
#include "lib/exception.h"
#include "data/datachunk.h"
#include "data/extended_datachunk.h"
#include "data/shared_datachunk.h"
#include "data/functions.h"
#include "data/dataset.h"
#include "variable/variable.h"
#include "basis/basis.h"
#include "basis/volume_average.h"
#include "basis/face_basis.h"
#include <algorithm>

typedef std::unique_ptr<qk::range> RP;
typedef qk::indexer_interface<int> IA;
typedef qk::indexer_interface<double> DA;

static qk::range mk(const J &j) {  // [[lo,hi],...]
    std::vector<int> l, u;
    for (auto &x : j.a) { l.push_back(x[0].n()); u.push_back(x[1].n()); }
    return qk::range((int) l.size(), l.data(), u.data());
}
static std::string jr(const qk::range &r) {
    std::vector<std::string> b;
    for (int i = 0; i < r.num_dims(); ++i) b.push_back("[" + js(r.lower(i)) + "," + js(r.upper(i)) + "]");
    return jraw(b);
}
static std::string jrfull(const qk::range &r) {
    std::vector<int> l, s;
    for (int i = 0; i < r.num_dims(); ++i) { l.push_back(r.length(i)); s.push_back(r.stride(i)); }
    return "{\"nd\":" + js(r.num_dims()) + ",\"b\":" + jr(r) + ",\"len\":" + jarr(l) + ",\"str\":" + jarr(s) + ",\"vol\":" + js(r.volume()) + "}";
}

struct Arr {
    std::string kind;  // "i" "d" "c" "e"
    std::unique_ptr<IA> ia; std::unique_ptr<DA> da;
    qk::data::datachunk *dc() { return dynamic_cast<qk::data::datachunk *>(da.get()); }
    const qk::range &rng() const { return ia ? ia->range() : da->range(); }
};

struct S {
    std::map<int, RP> r;
    std::map<int, std::unique_ptr<qk::indexer>> it;
    std::map<int, Arr> ar;
    std::unique_ptr<qk::range_set> rs;
    std::unique_ptr<qk::data::extended_datachunk> xc[4];
    std::unique_ptr<qk::variable::variable> xv[4];
} g;

static std::string obs_ranges() {
    std::vector<std::string> v;
    for (auto &p : g.r) v.push_back("{\"s\":" + js(p.first) + ",\"r\":" + jrfull(*p.second) + "}");
    return jraw(v);
}
static std::string it_proj(const qk::indexer &x) {
    std::string e = "{\"ex\":" + jb(x.exists());
    if (x.exists()) {
        std::vector<int> a, b;
        for (int i = 0; i < x.num_dims(); ++i) { a.push_back(x[i]); b.push_back(x.index(i)); }
        e += ",\"x\":" + jarr(a) + ",\"y\":" + jarr(b) + ",\"lin\":" + js(x.linear_index()) + ",\"fin\":" + js(x.final_linear_index()) + ",\"sup\":" + jr(x);
    }
    return e + "}";
}
static std::string obs_iters() {
    std::vector<std::string> v;
    for (auto &p : g.it) v.push_back("{\"s\":" + js(p.first) + ",\"i\":" + it_proj(*p.second) + "}");
    return jraw(v);
}
static void coords(const qk::range &r, std::function<void(const std::vector<int> &)> f) {
    int n = r.num_dims(); if (n == 0) return;
    std::vector<int> c(n); for (int i = 0; i < n; ++i) { c[i] = r.lower(i); if (r.lower(i) >= r.upper(i)) return; }
    while (true) {
        f(c);
        int d = n - 1;
        while (d >= 0 && ++c[d] >= r.upper(d)) { c[d] = r.lower(d); --d; }
        if (d < 0) return;
    }
}
template<class T> static std::string dump3(const qk::indexer_interface<T> &a) {
    std::vector<int> v1, v2, v3;
    int n = a.volume();
    for (int i = 0; i < n; ++i) v1.push_back(asint((double) a.data()[i]));
    coords(a.range(), [&](const std::vector<int> &c) { v2.push_back(asint((double) *a.data(c.data()))); });
    int cap = n + 2;
    for (qk::indexer x = a.indexer(); x.exists() && cap-- > 0; x.next()) v3.push_back(asint((double) a[x]));
    std::string e = "\"v\":" + jarr(v1);
    if (v2 != v1) e += ",\"v2\":" + jarr(v2);
    if (v3 != v1) e += ",\"v3\":" + jarr(v3);
    return e;
}
static std::string obs_arrays() {
    std::vector<std::string> v;
    for (auto &p : g.ar) {
        Arr &a = p.second;
        v.push_back("{\"s\":" + js(p.first) + ",\"b\":" + jr(a.rng()) + "," + (a.ia ? dump3<int>(*a.ia) : dump3<double>(*a.da)) + "}");
    }
    return jraw(v);
}
static std::string chunk_proj(qk::data::extended_datachunk &c) {
    int nm = c.num_dims() - 2;  // data ranges are always <points, components> here
    std::vector<std::string> le, li, ui, ue;
    for (int i = 0; i < nm; ++i) { le.push_back(jr(c.lower_external_range(i))); li.push_back(jr(c.lower_internal_range(i))); ui.push_back(jr(c.upper_internal_range(i))); ue.push_back(jr(c.upper_external_range(i))); }
    std::vector<int> vals; bool all0 = true;
    for (int i = 0; i < c.volume(); ++i) { vals.push_back(asint(c.data()[i])); if (c.data()[i] != 0) all0 = false; }
    std::vector<int> bycoord;
    coords(c.range(), [&](const std::vector<int> &x) { bycoord.push_back(asint(*c.data(x.data()))); });
    return "{\"rng\":" + jrfull(c.range()) + ",\"in\":" + jr(c.internal_range()) + ",\"g\":" + js(c.num_ghost_layers()) +
        ",\"le\":" + jraw(le) + ",\"li\":" + jraw(li) + ",\"ui\":" + jraw(ui) + ",\"ue\":" + jraw(ue) +
        ",\"zero\":" + jb(all0) + ",\"v\":" + (all0 ? std::string("[]") : jarr(vals)) + ",\"nv\":" + js((int) vals.size()) + ",\"same\":" + jb(vals == bycoord) + "}";
}

static std::string run(const J &j) {
    const std::string &op = j["op"].s;
    int s = j.has("s") ? j["s"].n() : -1, t = j.has("t") ? j["t"].n() : -1;
    // ---------------- ranges
    if (op == "reset") { g.r.clear(); g.it.clear(); g.ar.clear(); g.rs.reset(); for (int i = 0; i < 4; ++i) { g.xc[i].reset(); g.xv[i].reset(); } return "[]"; }
    if (op == "r.new") { g.r[s].reset(new qk::range()); return obs_ranges(); }
    if (op == "r.dims") { auto d = j["d"].ints(); g.r[s].reset(new qk::range((int) d.size(), d.data())); return obs_ranges(); }
    if (op == "r.lu") { qk::range x = mk(j["b"]); std::vector<int> l, u; for (auto &y : j["b"].a) { l.push_back(y[0].n()); u.push_back(y[1].n()); } g.r[s].reset(new qk::range((int) l.size(), l.data(), u.data())); return obs_ranges(); }
    if (op == "r.copy") { g.r[s].reset(new qk::range(*g.r[t])); return obs_ranges(); }
    if (op == "r.assign") { *g.r[s] = *g.r[t]; return obs_ranges(); }
    if (op == "r.resize") { g.r[s]->resize(*g.r[t]); return obs_ranges(); }
    if (op == "r.resizelu") { std::vector<int> l, u; for (auto &y : j["b"].a) { l.push_back(y[0].n()); u.push_back(y[1].n()); } g.r[s]->resize((int) l.size(), l.data(), u.data()); return obs_ranges(); }
    if (op == "r.extrude") { g.r[s]->extrude(j["a"].n(), j["b"].n()); return obs_ranges(); }
    if (op == "r.expand") { g.r[s]->expand(j["d"].n(), j["a"].n(), j["b"].n()); return obs_ranges(); }
    if (op == "r.shift") { g.r[s]->shift(j["d"].n(), j["a"].n()); return obs_ranges(); }
    if (op == "r.set") { g.r[s]->set(j["d"].n(), j["a"].n(), j["b"].n()); return obs_ranges(); }
    if (op == "r.cmp") { return "{\"eq\":" + jb(*g.r[s] == *g.r[t]) + ",\"ne\":" + jb(*g.r[s] != *g.r[t]) + ",\"inc\":" + jb(g.r[s]->includes(*g.r[t])) + ",\"all\":" + obs_ranges() + "}"; }
    if (op == "r.print") {
        std::stringstream ss; ss << *g.r[s] << ";";
        std::string str = ss.str(); std::vector<int> nums; const char *p = str.c_str();
        while (*p) { if (isdigit((unsigned char) *p) || (*p == '-' && isdigit((unsigned char) p[1]))) { char *e; nums.push_back((int) strtol(p, &e, 10)); p = e; } else ++p; }
        return "{\"nums\":" + jarr(nums) + ",\"cont\":" + jb(!str.empty() && str.back() == ';') + ",\"all\":" + obs_ranges() + "}";
    }
    // ---------------- indexers
    if (op == "i.new") { g.it[s].reset(new qk::indexer(mk(j["sub"]), mk(j["sup"]))); return obs_iters(); }
    if (op == "i.def") { g.it[s].reset(new qk::indexer()); return obs_iters(); }
    if (op == "i.copy") { g.it[s].reset(new qk::indexer(*g.it[t])); return obs_iters(); }
    if (op == "i.assign") { *g.it[s] = *g.it[t]; return obs_iters(); }
    if (op == "i.next") { g.it[s]->next(); return obs_iters(); }
    if (op == "i.pp") { qk::indexer &x = ++(*g.it[s]); (void) x; return obs_iters(); }
    if (op == "i.inc") { g.it[s]->increment(j["d"].n()); return obs_iters(); }
    if (op == "i.dec") { g.it[s]->decrement(j["d"].n()); return obs_iters(); }
    if (op == "i.get") { int d = j["d"].n(); int v = (*g.it[s])[d]; return "{\"val\":" + js(v) + ",\"all\":" + obs_iters() + "}"; }
    if (op == "i.get2") { int d = j["d"].n(); int v = g.it[s]->index(d); return "{\"val\":" + js(v) + ",\"all\":" + obs_iters() + "}"; }
    if (op == "i.walk") {
        qk::indexer x(mk(j["sub"]), mk(j["sup"])); int cap = j["cap"].n();
        std::vector<int> lin; std::vector<std::string> pts; int fin = x.exists() ? x.final_linear_index() : 0; bool finsame = true;
        while (x.exists() && cap-- > 0) {
            std::vector<int> c; for (int i = 0; i < x.num_dims(); ++i) c.push_back(x[i]);
            pts.push_back(jarr(c)); lin.push_back(x.linear_index());
            if (x.final_linear_index() != fin) finsame = false;
            if (j.has("pp") && j["pp"].i) ++x; else x.next();
        }
        return "{\"pts\":" + jraw(pts) + ",\"lin\":" + jarr(lin) + ",\"ended\":" + jb(!x.exists()) + ",\"fin\":" + js(fin) + ",\"finsame\":" + jb(finsame) + "}";
    }
    if (op == "i.sparse") {  // long walks: report count, end, and the points at selected visit numbers
        qk::indexer x(mk(j["sub"]), mk(j["sup"])); int cap = j["cap"].n(); auto at = j["at"].ints(); size_t k = 0; int n = 0;
        std::vector<int> lin; std::vector<std::string> pts; int fin = x.exists() ? x.final_linear_index() : 0;
        int last = -1; bool mono = true;
        while (x.exists() && n < cap) {
            if (x.linear_index() <= last) mono = false;
            last = x.linear_index();
            if (k < at.size() && at[k] == n) { std::vector<int> c; for (int i = 0; i < x.num_dims(); ++i) c.push_back(x[i]); pts.push_back(jarr(c)); lin.push_back(x.linear_index()); ++k; }
            ++n; x.next();
        }
        return "{\"n\":" + js(n) + ",\"pts\":" + jraw(pts) + ",\"lin\":" + jarr(lin) + ",\"ended\":" + jb(!x.exists()) + ",\"fin\":" + js(fin) + ",\"mono\":" + jb(mono) + ",\"last\":" + js(last) + "}";
    }
    // ---------------- arrays
    if (op == "a.new") {
        Arr a; a.kind = j["k"].s; qk::range rg = mk(j["b"]);
        if (a.kind == "i") { if (rg.num_dims() == 0) a.ia.reset(new IA()); else a.ia.reset(new IA(rg)); }
        else if (a.kind == "d") { if (rg.num_dims() == 0) a.da.reset(new DA()); else a.da.reset(new DA(rg)); }
        else {
            qk::data::datachunk *c = a.kind == "c" ? new qk::data::datachunk() : (qk::data::datachunk *) new qk::data::shared_datachunk();
            a.da.reset(c);
            if (rg.num_dims() > 0) {  // split the bounds into mesh and data dimensions
                int m = j["m"].n(); J mj, dj; mj.k = dj.k = J::ARR;
                for (int i = 0; i < (int) j["b"].size(); ++i) (i < m ? mj : dj).a.push_back(j["b"][i]);
                c->resize(mk(mj), mk(dj));
            }
        }
        g.ar[s] = std::move(a); return obs_arrays();
    }
    if (op == "a.copy") {
        Arr a; Arr &b = g.ar[t]; a.kind = b.kind;
        if (b.ia) a.ia.reset(new IA(*b.ia));
        else if (b.kind == "d") a.da.reset(new DA(*b.da));
        else if (b.kind == "c") a.da.reset(new qk::data::datachunk(*b.dc()));
        else a.da.reset(new qk::data::shared_datachunk(*dynamic_cast<qk::data::shared_datachunk *>(b.da.get())));
        g.ar[s] = std::move(a); return obs_arrays();
    }
    if (op == "a.assign") {
        Arr &a = g.ar[s], &b = g.ar[t];
        if (a.ia) *a.ia = *b.ia; else if (a.dc()) *a.dc() = *b.dc(); else *a.da = *b.da;
        return obs_arrays();
    }
    if (op == "a.resize") {
        Arr &a = g.ar[s];
        if (a.ia) a.ia->resize(mk(j["b"]));
        else if (a.dc()) { int m = j["m"].n(); J mj, dj; mj.k = dj.k = J::ARR; for (int i = 0; i < (int) j["b"].size(); ++i) (i < m ? mj : dj).a.push_back(j["b"][i]); a.dc()->resize(mk(mj), mk(dj)); }
        else a.da->resize(mk(j["b"]));
        return obs_arrays();
    }
    if (op == "a.fill") { Arr &a = g.ar[s]; if (a.ia) a.ia->fill(j["v"].n()); else a.da->fill((double) j["v"].n()); return obs_arrays(); }
    if (op == "a.fillr") { Arr &a = g.ar[s]; if (a.ia) a.ia->fill(mk(j["r"]), j["v"].n()); else a.da->fill(mk(j["r"]), (double) j["v"].n()); return obs_arrays(); }
    if (op == "a.pullr") { Arr &a = g.ar[s], &b = g.ar[t]; if (a.ia) a.ia->pull(*b.ia, mk(j["from"]), mk(j["to"])); else a.da->pull(*b.da, mk(j["from"]), mk(j["to"])); return obs_arrays(); }
    if (op == "a.pull") { Arr &a = g.ar[s], &b = g.ar[t]; if (a.ia) a.ia->pull(*b.ia); else a.da->pull(*b.da); return obs_arrays(); }
    if (op == "a.swap") { Arr &a = g.ar[s], &b = g.ar[t]; if (a.ia) a.ia->swap(*b.ia); else a.da->swap(*b.da); return obs_arrays(); }
    if (op == "a.copyto") { qk::data::copy_to(*g.ar[t].dc(), mk(j["from"]), *g.ar[s].dc(), mk(j["to"])); return obs_arrays(); }
    if (op == "a.fullcopy") { qk::data::full_copy(*g.ar[t].dc(), *g.ar[s].dc()); return obs_arrays(); }
    if (op == "a.mul") { g.ar[s].dc()->multiply_by_scalar(mk(j["r"]), (double) j["v"].n()); return obs_arrays(); }
    if (op == "a.wr") {  // write one element; how = 0 iterator, 1 coordinates, 2 storage order, 3 data(iterator)
        Arr &a = g.ar[s]; auto c = j["x"].ints(); int how = j["how"].n(), v = j["v"].n();
        qk::range one = a.rng(); for (int i = 0; i < one.num_dims(); ++i) one.set(i, c[i], c[i] + 1);
        qk::indexer x = a.ia ? a.ia->indexer(one) : a.da->indexer(one);
        int off = 0; for (int i = 0; i < one.num_dims(); ++i) { int st = 1; for (int k = i + 1; k < one.num_dims(); ++k) st *= a.rng().upper(k) - a.rng().lower(k); off += (c[i] - a.rng().lower(i)) * st; }
        if (a.ia) { if (how == 0) (*a.ia)[x] = v; else if (how == 1) *a.ia->data(c.data()) = v; else if (how == 2) a.ia->data()[off] = v; else *a.ia->data(x) = v; }
        else { if (how == 0) (*a.da)[x] = v; else if (how == 1) *a.da->data(c.data()) = v; else if (how == 2) a.da->data()[off] = v; else *a.da->data(x) = v; }
        return obs_arrays();
    }
    if (op == "a.mark") { Arr &a = g.ar[s]; int v = j["v"].n(); for (int i = 0; i < a.rng().volume(); ++i) { if (a.ia) a.ia->data()[i] = v + i + 1; else a.da->data()[i] = v + i + 1; } return obs_arrays(); }
    if (op == "a.big") {  // big arrays: pull a sub-range of an array holding its own storage offsets, report sampled elements
        qk::range fr = mk(j["fb"]), tr = mk(j["tb"]), from = mk(j["from"]), to = mk(j["to"]);
        auto at0 = j["at"].ints(); const std::string o = j.has("o") ? j["o"].s : "pull";
        if (o == "mul" || o == "fillc") {  // one chunk holding 1, 2, 3 ...: multiply by 3, or fill with -1
            J mj, dj; mj.k = dj.k = J::ARR; for (int i = 0; i < (int) j["tb"].size(); ++i) (i < j["m"].n() ? mj : dj).a.push_back(j["tb"][i]);
            qk::data::datachunk c; c.resize(mk(mj), mk(dj)); for (int i = 0; i < c.volume(); ++i) c.data()[i] = i + 1;
            if (o == "mul") c.multiply_by_scalar(to, 3.); else c.fill(to, -1.);
            std::vector<int> v; int n = 0; for (int i = 0; i < c.volume(); ++i) if (c.data()[i] != i + 1) ++n;
            for (int x : at0) v.push_back(asint(c.data()[x]));
            return "{\"n\":" + js(n) + ",\"v\":" + jarr(v) + "}";
        }
        DA a(fr), b(tr); for (int i = 0; i < a.volume(); ++i) a.data()[i] = i; b.fill(-1.);
        if (o == "fill") b.fill(to, 7.); else b.pull(a, from, to);
        auto at = j["at"].ints(); std::vector<int> v; int n = 0;
        for (int i = 0; i < b.volume(); ++i) if (b.data()[i] != -1.) ++n;
        for (int x : at) v.push_back(asint(b.data()[x]));
        return "{\"n\":" + js(n) + ",\"v\":" + jarr(v) + "}";
    }
    if (op == "a.real") {  // one operation on chunks of arbitrary doubles (also infinite, NaN, signed zeros)
        J mj, dj; mj.k = dj.k = J::ARR; for (int i = 0; i < (int) j["b"].size(); ++i) (i < j["m"].n() ? mj : dj).a.push_back(j["b"][i]);
        qk::data::datachunk a, b; a.resize(mk(mj), mk(dj)); b.resize(mk(mj), mk(dj));
        auto v = j["v"].ds(), w = j["w"].ds(); for (int i = 0; i < a.volume(); ++i) { a.data()[i] = v[i]; b.data()[i] = w[i]; }
        const std::string &o = j["o"].s;
        if (o == "mul") a.multiply_by_scalar(mk(j["r"]), j["x"].d());
        else if (o == "fill") a.fill(j["x"].d());
        else if (o == "fillr") a.fill(mk(j["r"]), j["x"].d());
        else if (o == "pull") a.pull(b);
        else if (o == "pullr") a.pull(b, mk(j["r"]), mk(j["r"]));
        else if (o == "copyto") qk::data::copy_to(b, mk(j["r"]), a, mk(j["r"]));
        else if (o == "fullcopy") qk::data::full_copy(b, a);
        else if (o == "assign") a = b;
        else if (o == "swap") a.swap(b);
        std::vector<double> x(a.data(), a.data() + a.volume()), y(b.data(), b.data() + b.volume());
        return "{\"v\":" + jarr(x) + ",\"w\":" + jarr(y) + "}";
    }
    // ---------------- range sets
    if (op == "s.split" || op == "s.resplit") {
        auto n = j["n"].ints(); qk::range b = mk(j["b"]);
        if (op == "s.split") g.rs.reset(new qk::range_set(b, n.data()));
        else { if (!g.rs) g.rs.reset(new qk::range_set()); g.rs->setup(b, n.data()); }
        std::vector<std::string> v; int cap = 20000;
        for (int i = 0; i < g.rs->volume() && i < cap; ++i) v.push_back(jr(g.rs->data()[i]));
        return "{\"shape\":" + jr(g.rs->range()) + ",\"sub\":" + jraw(v) + "}";
    }
    // ---------------- chunks with ghost layers
    if (op == "x.new") { g.xc[s].reset(new qk::data::extended_datachunk()); return "[]"; }
    if (op == "x.resize") { if (j.has("g")) g.xc[s]->resize(mk(j["mesh"]), mk(j["data"]), j["g"].n()); else g.xc[s]->resize(mk(j["mesh"]), mk(j["data"])); return chunk_proj(*g.xc[s]); }
    if (op == "x.copy") { g.xc[s].reset(new qk::data::extended_datachunk(*g.xc[t])); return chunk_proj(*g.xc[s]); }
    if (op == "x.assign") { *g.xc[s] = *g.xc[t]; return chunk_proj(*g.xc[s]); }
    if (op == "x.mark") { for (int i = 0; i < g.xc[s]->volume(); ++i) g.xc[s]->data()[i] = j["v"].n() + i; return chunk_proj(*g.xc[s]); }
    if (op == "x.var" || op == "x.varcopy") {
        if (op == "x.var") {
            auto cn = j["comps"].strs(); std::string bn = j["basis"].s; qk::basis::basis b(bn, j["np"].n());
            if (bn == "volume_average") b = qk::basis::volume_average();
            if (bn == "face_basis") { qk::basis::face_basis fb; fb.setup(j["np"].n(), 1); b = fb; }
            if (j.has("g")) g.xv[s].reset(new qk::variable::variable(j["name"].s, cn, b, mk(j["mesh"]), j["g"].n()));
            else g.xv[s].reset(new qk::variable::variable(j["name"].s, cn, b, mk(j["mesh"])));
        } else g.xv[s].reset(new qk::variable::variable(*g.xv[t]));
        std::vector<std::string> names; for (auto &c : g.xv[s]->component_names()) names.push_back(q(c));
        int chunks = 0; std::string cp;
        for (qk::indexer x = g.xv[s]->indexer(); x.exists() && chunks < 10; x.next()) { ++chunks; cp = chunk_proj((*g.xv[s])[x]); }
        return "{\"name\":" + q(g.xv[s]->name()) + ",\"comps\":" + jraw(names) + ",\"np\":" + js(g.xv[s]->basis().num_points()) + ",\"bn\":" + q(g.xv[s]->basis().name()) + ",\"chunks\":" + js(chunks) + ",\"c\":" + cp + "}";
    }
    if (op == "x.varmark") { auto &c = g.xv[s]->data()[0]; for (int i = 0; i < c.volume(); ++i) c.data()[i] = j["v"].n() + i; return chunk_proj(c); }
    fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(97);
}

int main(int argc, char **argv) {
    if (argc < 3) return 96;
    std::ifstream in(argv[1]); g_out = fopen(argv[2], "w");
    signal(SIGALRM, on_alarm);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        ++g_line; J j = parse(line); alarm(20);
        std::string st = "ok", msg, obs = "[]";
        try { obs = run(j); }
        catch (const qk::exception &e) { st = "qk"; msg = e.what(); }
        catch (const std::exception &e) { st = "std"; msg = e.what(); }
        if (st != "ok") {
            const std::string &op = j["op"].s;
            obs = op[0] == 'r' ? obs_ranges() : op[0] == 'i' ? obs_iters() : op[0] == 'a' ? obs_arrays() : "[]";
        }
        fprintf(g_out, "{\"e\":%s,\"st\":%s,\"msg\":%s,\"obs\":%s}\n", line.c_str(), q(st).c_str(), q(msg).c_str(), obs.c_str());
        fflush(g_out);
    }
    fclose(g_out);
    return 0;
}
