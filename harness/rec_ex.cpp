// Runs a shipped example with every solver call observed instead of computed on the example's own (large) grid.
// The build (checks/ex_checks.py) makes the solve() functions and the manager's variable accessors of the objects under test weak and
// keeps them reachable under a second name; the strong definitions that replace them (generated) call the functions below.
// Every call of a solver is run for real on a small probe grid with known contents, several times, with one accessed variable
// disturbed at a time: that shows which variables it reads (and whether it reads their ghost cells), which it writes and how.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include "grid/rectilinear.h"
#include "variable/variable.h"
#include "variable/variable_manager.h"
#include "lib/exception.h"

bool qk_run_example(const std::string &name, const std::string &dir);   // generated

using qk::variable::variable; using qk::variable::variable_id; using qk::variable::variable_manager;
typedef void (*solve_fn)(const void *, variable_manager &, int);
extern "C" const variable &qk_real_in(const variable_manager *, const variable_id &);
extern "C" variable &qk_real_out(variable_manager *, const variable_id &);

namespace {
struct Enough {};
FILE *out; long calls = 0, limit = 10000; bool first_int = true; double t_first = 0;
std::map<std::string, int> vid; std::vector<int> vcomps;
int num(const variable_id &id) { auto i = vid.find(id.name()); if (i != vid.end()) return i->second; int k = vid.size() + 1; vid[id.name()] = k; vcomps.push_back(id.component_names().size()); return k; }

// ---- one probe: a fresh manager on a small grid, variables filled by the order in which the solver first asks for them
struct Probe {
    std::unique_ptr<qk::grid::rectilinear> g; std::unique_ptr<variable_manager> m;
    std::vector<variable_id> order; std::vector<std::vector<double>> before, after;
    int disturb, zone; double scale; const std::vector<double> *amp;   // zone -1: interior, d >= 0: ghost cells of dimension d
} *P = 0;
uint32_t hash(uint32_t a, uint32_t b, uint32_t c) { uint32_t h = a * 2654435761u ^ (b + 0x9e3779b9u) * 40503u ^ (c + 77u) * 2246822519u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16; return h; }
double pat(int role, int k, int c, int nc) { double u = hash(role, k, c) / 4294967296.0; if (nc == 5) return c == 0 ? 1 + 0.3 * u : c == 4 ? 12 + u : 0.6 * u - 0.2; return 2 * u - 1; }
// which part of the chunk is element i in: -1 interior, d: ghost of dimension d only, -2 corner
int where(const variable &v, const qk::range &r, const qk::range &in, int nd, int i) {
    int z = -1, n = 0;
    for (int d = r.num_dims() - 1; d >= 0; --d) { int len = r.upper(d) - r.lower(d), x = r.lower(d) + i % len; i /= len; if (d < nd && (x < in.lower(d) || x >= in.upper(d))) { z = d; ++n; } }
    return n == 0 ? -1 : n == 1 ? z : -2;
}
bool upper_side(const qk::range &r, const qk::range &in, int d, int i) { int x = 0; for (int k = r.num_dims() - 1; k >= d; --k) { int len = r.upper(k) - r.lower(k); x = r.lower(k) + i % len; i /= len; } return x >= in.upper(d); }
void touch(const variable_id &id) {
    for (auto &o : P->order) if (o.name() == id.name()) return;
    int role = P->order.size(), nd = P->g->num_dims(); P->order.push_back(id);
    variable &v = qk_real_out(P->m.get(), id);
    qk::data::extended_datachunk &ck = v.data()[0]; const qk::range &r = ck.range(), &in = ck.internal_range();
    int nc = id.component_names().size(), n = ck.volume();
    for (int i = 0; i < n; ++i) {
        double x = pat(role, i, i % nc, nc);
        if (P->disturb == role && where(v, r, in, nd, i) == P->zone) x += P->amp ? (*P->amp)[i] : (nc == 5 ? 0.05 : 0.3) * (hash(5, i, 3) / 4294967296.0 + 0.1);
        ck.data()[i] = x;
    }
    P->before.push_back(std::vector<double>(ck.data(), ck.data() + n));
}
void run(Probe &p, variable_manager &real, solve_fn f, const void *self, int tag, int disturb, int zone, const std::vector<double> *amp = 0) {
    const qk::grid::grid &g = real.grid(); int nd = g.num_dims();
    std::vector<int> lo(nd), up(nd); std::vector<double> s(nd), w(nd);
    for (int d = 0; d < nd; ++d) { lo[d] = g.lower(d); up[d] = lo[d] + 4; s[d] = g.start(d); w[d] = g.width(d); }
    p.g.reset(new qk::grid::rectilinear(qk::range(nd, lo.data(), up.data()), s.data(), w.data())); p.m.reset(new variable_manager(*p.g));
    p.m->set_time(real.time()); p.m->set_dt(real.dt()); p.disturb = disturb; p.zone = zone; p.amp = amp;
    P = &p;
    try { f(self, *p.m, tag); } catch (...) { P = 0; throw; }
    P = 0;
    for (auto &id : p.order) { qk::data::extended_datachunk &ck = qk_real_out(p.m.get(), id).data()[0]; p.after.push_back(std::vector<double>(ck.data(), ck.data() + ck.volume())); }
}
bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(double)); }
struct Memo { std::string obs; };
std::map<std::string, Memo> memo;
std::string ints(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s + "]"; }
void event(const std::string &e, const std::string &st, const std::string &obs) { fprintf(out, "{\"e\":{%s},\"st\":\"%s\",\"obs\":{%s}}\n", e.c_str(), st.c_str(), obs.c_str()); fflush(out); }
}

void qk_rec_solve(const char *kind, const void *self, variable_manager &real, int tag, solve_fn f) {
    if (P) { f(self, real, tag); return; }      // a solver that calls another one: part of the same call
    ++calls;
    std::string e = std::string("\"op\":\"solve\",\"s\":\"") + kind + "\",\"tag\":" + std::to_string(tag);
    // time in steps since the first integrator call
    bool integ = !strncmp(kind, "ssprk", 5) || !strncmp(kind, "rk", 2);
    if (integ && first_int) { first_int = false; t_first = real.time(); }
    double k = first_int || real.dt() == 0 ? 0 : (real.time() - t_first) / real.dt(), kr = std::floor(k + .5);
    e += ",\"ti\":" + std::to_string((long) kr) + ",\"tok\":" + (std::fabs(k - kr) < 1e-4 ? "true" : "false") + ",\"dtpos\":" + (real.dt() > 0 ? "true" : "false");
    Probe b;
    try { run(b, real, f, self, tag, -1, -1); } catch (const std::exception &x) { P = 0; event(e, "exc", "\"rd\":[],\"wr\":[],\"fp\":0"); return; }
    int nd = b.g->num_dims(), n = b.order.size();
    uint32_t fp = 17; std::string key = std::string(kind) + "/" + std::to_string(tag) + "/" + std::to_string(nd);
    for (int i = 0; i < n; ++i) { key += "," + b.order[i].name() + ":"; const unsigned char *c = (const unsigned char *) b.after[i].data(); uint32_t h = 7; for (size_t j = 0; j < b.after[i].size() * 8; ++j) h = h * 16777619u ^ c[j]; key += std::to_string(h); fp = fp * 31 + h; }
    auto it = memo.find(key);
    if (it == memo.end()) {
        std::vector<std::string> wr, rd;
        std::vector<bool> written(n), selfdep(n); std::vector<std::vector<int>> ghosts(n); std::vector<bool> interior(n);
        auto zoneof = [&](int i, int j) { qk::data::extended_datachunk &ck = qk_real_out(b.m.get(), b.order[i]).data()[0]; return where(qk_real_out(b.m.get(), b.order[i]), ck.range(), ck.internal_range(), nd, j); };
        for (int i = 0; i < n; ++i) {
            written[i] = !same(b.before[i], b.after[i]); if (!written[i]) continue;
            qk::data::extended_datachunk &ck = qk_real_out(b.m.get(), b.order[i]).data()[0];
            std::vector<int> lo(nd, 0), hi(nd, 0);
            for (size_t j = 0; j < b.after[i].size(); ++j) if (memcmp(&b.before[i][j], &b.after[i][j], 8)) { int z = zoneof(i, j); if (z == -1) interior[i] = true; if (z >= 0) (upper_side(ck.range(), ck.internal_range(), z, j) ? hi : lo)[z] = 1; }
            for (int d = 0; d < nd; ++d) if (lo[d] && hi[d]) ghosts[i].push_back(d + 1);
        }
        for (int i = 0; i < n; ++i) {   // what depends on the interior of variable i, and on its ghost cells
            bool reads = false; std::vector<int> g;
            for (int z = -1; z < nd; ++z) {
                Probe p; run(p, real, f, self, tag, i, z);
                bool dep = false;
                for (int k = 0; k < n; ++k) if (k != i && written[k]) for (size_t j = 0; j < b.after[k].size(); ++j) if (memcmp(&p.after[k][j], &b.after[k][j], 8) && zoneof(k, j) == -1) { dep = true; break; }
                if (dep && z < 0) reads = true;
                if (dep && z >= 0) g.push_back(z + 1);
            }
            if (written[i] && interior[i]) {   // does its new interior depend on its old one? (disturbed by as much as it changed)
                std::vector<double> amp(b.after[i].size()); for (size_t j = 0; j < amp.size(); ++j) amp[j] = 0.37 * std::max(1e-3, std::fabs(b.after[i][j] - b.before[i][j]));
                Probe p; run(p, real, f, self, tag, i, -1, &amp);
                for (size_t j = 0; j < amp.size(); ++j) if (memcmp(&p.after[i][j], &b.after[i][j], 8) && zoneof(i, j) == -1) selfdep[i] = true;
            }
            if (reads || !g.empty()) rd.push_back("{\"v\":" + std::to_string(num(b.order[i])) + ",\"g\":" + ints(g) + "}");
        }
        for (int i = 0; i < n; ++i) if (written[i]) {
            bool zero = true; for (size_t j = 0; j < b.after[i].size(); ++j) if (b.after[i][j] != 0 && zoneof(i, j) == -1) zero = false;
            int copy = 0; for (int k = 0; k < n; ++k) if (k != i && same(b.after[i], b.before[k])) copy = num(b.order[k]);
            const char *how = !interior[i] ? "bc" : copy ? "copy" : zero ? "zero" : selfdep[i] ? "acc" : "set";
            wr.push_back("{\"v\":" + std::to_string(num(b.order[i])) + ",\"nc\":" + std::to_string(b.order[i].component_names().size()) + ",\"how\":\"" + how + "\",\"gh\":" + ints(ghosts[i]) + ",\"of\":" + std::to_string(copy) + "}");
        }
        std::string o = "\"nd\":" + std::to_string(nd) + ",\"rd\":["; for (size_t i = 0; i < rd.size(); ++i) o += (i ? "," : "") + rd[i]; o += "],\"wr\":["; for (size_t i = 0; i < wr.size(); ++i) o += (i ? "," : "") + wr[i];
        std::vector<int> acc; for (auto &x : b.order) acc.push_back(num(x));
        o += "],\"ac\":" + ints(acc) + ",\"fp\":" + std::to_string(fp & 0x3fffffff);
        it = memo.insert(std::make_pair(key, Memo{o})).first;
    }
    event(e, "ok", it->second.obs);
}
const variable &qk_rec_in(const variable_manager *m, const variable_id &id) { if (P && m == P->m.get()) touch(id); return qk_real_in(m, id); }
variable &qk_rec_out(variable_manager *m, const variable_id &id) { if (P && m == P->m.get()) touch(id); return qk_real_out(m, id); }
void qk_rec_vtk(const std::vector<variable_id> &ids) {
    if (P) return;
    std::vector<int> v; for (auto &i : ids) v.push_back(num(i));
    event("\"op\":\"write\"", "ok", "\"v\":" + ints(v));
    if (calls >= limit) throw Enough();
}

int main(int argc, char **argv) {
    if (argc < 4) return 96;
    std::string ex = argv[1]; out = fopen(argv[2], "w"); limit = atol(argv[3]); freopen("/dev/null", "w", stdout);
    std::string st = "ok", how = "complete";
    try {
        if (!qk_run_example(ex, "/nonexistent_qkv_dir")) return 96;
    } catch (const Enough &) { how = "stopped"; } catch (const std::exception &e) { st = "exc"; }
    event("\"op\":\"end\"", st, "\"how\":\"" + how + "\",\"calls\":" + std::to_string(calls));
    fclose(out);
    return 0;
}
