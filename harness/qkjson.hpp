// Minimal JSON reader/writer for the drivers: one operation per input line, one event per output line.
#ifndef QKV_JSON_HPP
#define QKV_JSON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <memory>
#include <functional>
#include <map>
#include <unistd.h>
#include <signal.h>

struct J {
    enum K { NUL, BOOL, INT, STR, ARR, OBJ } k = NUL;
    long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J *find(const std::string &key) const { for (auto &p : o) if (p.first == key) return &p.second; return nullptr; }
    bool has(const std::string &key) const { return find(key) != nullptr; }
    const J &operator[](const std::string &key) const {
        const J *p = find(key);
        if (!p) { fprintf(stderr, "driver: missing field %s\n", key.c_str()); _exit(97); }
        return *p;
    }
    const J &operator[](size_t n) const { return a.at(n); }
    size_t size() const { return a.size(); }
    int n() const { return (int) i; }
    std::vector<int> ints() const { std::vector<int> v; for (auto &x : a) v.push_back((int) x.i); return v; }
    double d() const {  // a double travels as [hi32, lo32]
        if (k == INT) return (double) i;
        uint64_t b = ((uint64_t) (uint32_t) (int32_t) a.at(0).i << 32) | (uint32_t) (int32_t) a.at(1).i;
        double x; memcpy(&x, &b, 8); return x;
    }
    std::vector<double> ds() const { std::vector<double> v; for (auto &x : a) v.push_back(x.d()); return v; }
    std::vector<std::string> strs() const { std::vector<std::string> v; for (auto &x : a) v.push_back(x.s); return v; }
};

struct JParse {
    const char *p;
    void ws() { while (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n') ++p; }
    J val() {
        ws(); J j;
        if (*p == '{') {
            ++p; j.k = J::OBJ; ws();
            if (*p == '}') { ++p; return j; }
            while (true) { ws(); J key = val(); ws(); ++p; J v = val(); j.o.emplace_back(key.s, v); ws(); if (*p == ',') { ++p; continue; } ++p; break; }
        } else if (*p == '[') {
            ++p; j.k = J::ARR; ws();
            if (*p == ']') { ++p; return j; }
            while (true) { j.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } ++p; break; }
        } else if (*p == '"') {
            ++p; j.k = J::STR;
            while (*p && *p != '"') { if (*p == '\\') { ++p; } j.s += *p++; }
            ++p;
        } else if (!strncmp(p, "true", 4)) { j.k = J::BOOL; j.i = 1; p += 4; }
        else if (!strncmp(p, "false", 5)) { j.k = J::BOOL; j.i = 0; p += 5; }
        else { char *e; j.k = J::INT; j.i = strtol(p, &e, 10); if (e == p) { fprintf(stderr, "driver: bad json at %.40s\n", p); _exit(97); } p = e; }
        return j;
    }
};
inline J parse(const std::string &s) { JParse q{s.c_str()}; return q.val(); }

// ---- output helpers
inline std::string q(const std::string &s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char b[8]; snprintf(b, 8, "<%02x>", (unsigned char) c); r += b; } else r += c; }
    return r + "\"";
}
inline std::string js(int x) { return std::to_string(x); }
inline std::string jb(bool b) { return b ? "true" : "false"; }
inline std::string js(double x) {
    uint64_t b; memcpy(&b, &x, 8);
    return "[" + std::to_string((int32_t) (b >> 32)) + "," + std::to_string((int32_t) (uint32_t) b) + "]";
}
template<class T> std::string jarr(const std::vector<T> &v) {
    std::string r = "["; bool f = true;
    for (auto &x : v) { if (!f) r += ","; f = false; r += js(x); }
    return r + "]";
}
inline std::string jraw(const std::vector<std::string> &v) {
    std::string r = "["; bool f = true;
    for (auto &x : v) { if (!f) r += ","; f = false; r += x; }
    return r + "]";
}

#define QKV_INT_ANY 2000000001
// integral value of a double that is meant to be a small integer; anything else becomes a sentinel
inline int asint(double x) { if (!(x > -1e9 && x < 1e9) || x != std::floor(x)) return 2000000002; return (int) x; }

static FILE *g_out = stdout;
static volatile long g_line = 0;
inline void on_alarm(int) { const char m[] = "driver: command timed out\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); }
#endif
