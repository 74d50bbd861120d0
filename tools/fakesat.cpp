// A small CDCL SAT solver speaking the DIMACS solver convention (problem on stdin, "s"/"v" lines on
// stdout), used as the external solver of the eager encoder.  Environment:
//   VHSAT_SEED    different seeds return different satisfying assignments (0 = all-false bias)
//   VHSAT_FORMAT  layout of the answer (0..3)
//   VHSAT_FAULT   a way to misbehave (see below)
//   VHSAT_CONF    give up (s UNKNOWN) after that many conflicts, creating the file VHSAT_GAVEUP
//   VHSAT_DUMP    file that receives the problem exactly as read
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
using namespace std;
static uint64_t S;
static uint64_t rnd() {
    uint64_t z = (S += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static string env(const char *k) { const char *v = getenv(k); return v ? v : ""; }
static void out(const string &s, int code) {
    size_t o = 0;
    while (o < s.size()) { ssize_t k = write(1, s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
    _exit(code);
}
typedef int Lit; // 2*v+sign
static int nv;
static vector<vector<Lit>> cls;
static vector<vector<int>> watch;
static vector<signed char> val;   // per literal
static vector<int> level, reason, trail, lim;
static vector<double> act;
static vector<char> phase, seen;
static double inc = 1;
static size_t qh = 0;
// heap
static vector<int> heap, hpos;
static bool hless(int a, int b) { return act[a] > act[b]; }
static void hup(int i) { int x = heap[i]; while (i) { int p = (i - 1) / 2; if (!hless(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
static void hdown(int i) { int x = heap[i], n = heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && hless(heap[c + 1], heap[c])) c++; if (!hless(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
static void hins(int v) { if (hpos[v] >= 0) return; hpos[v] = heap.size(); heap.push_back(v); hup(hpos[v]); }
static int hpop() { int x = heap[0]; int l = heap.back(); heap.pop_back(); hpos[x] = -1; if (!heap.empty()) { heap[0] = l; hpos[l] = 0; hdown(0); } return x; }
static void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) hup(hpos[v]); }
static void enq(Lit l, int r) { val[l] = 1; val[l ^ 1] = -1; level[l >> 1] = lim.size(); reason[l >> 1] = r; trail.push_back(l); }
static int propagate() {
    while (qh < trail.size()) {
        Lit p = trail[qh++]; Lit f = p ^ 1;
        auto &w = watch[f]; size_t j = 0;
        for (size_t i = 0; i < w.size(); i++) {
            int ci = w[i]; auto &c = cls[ci];
            if (c[0] == f) swap(c[0], c[1]);
            if (val[c[0]] == 1) { w[j++] = ci; continue; }
            bool mv = false;
            for (size_t k = 2; k < c.size(); k++) if (val[c[k]] != -1) { swap(c[1], c[k]); watch[c[1]].push_back(ci); mv = true; break; }
            if (mv) continue;
            w[j++] = ci;
            if (val[c[0]] == -1) { for (i++; i < w.size(); i++) w[j++] = w[i]; w.resize(j); qh = trail.size(); return ci; }
            enq(c[0], ci);
        }
        w.resize(j);
    }
    return -1;
}
static void cancel(int l) {
    if ((int)lim.size() <= l) return;
    for (int i = (int)trail.size() - 1; i >= lim[l]; i--) { Lit t = trail[i]; val[t] = val[t ^ 1] = 0; phase[t >> 1] = t & 1; hins(t >> 1); }
    trail.resize(lim[l]); lim.resize(l); qh = trail.size();
}
static void attach(int ci) { watch[cls[ci][0]].push_back(ci); watch[cls[ci][1]].push_back(ci); }
static long maxconf = 1L << 60;
static string gaveup;
static bool solve() {
    double budget = 100; long confl = 0, total = 0;
    if (propagate() >= 0) return false;
    for (;;) {
        int c = propagate();
        if (c >= 0) {
            if (lim.empty()) return false;
            confl++;
            if (++total > maxconf) { if (!gaveup.empty()) { ofstream f(gaveup); } out("s UNKNOWN\n", 0); }
            vector<Lit> learnt(1); int cnt = 0; Lit p = -1; int idx = trail.size() - 1; int ci = c;
            do {
                for (Lit q : cls[ci]) { if (q == p) continue; int v = q >> 1; if (!seen[v] && level[v] > 0) { seen[v] = 1; bump(v); if (level[v] == (int)lim.size()) cnt++; else learnt.push_back(q); } }
                while (!seen[trail[idx] >> 1]) idx--;
                p = trail[idx--]; seen[p >> 1] = 0; ci = reason[p >> 1]; cnt--;
            } while (cnt > 0);
            learnt[0] = p ^ 1; int bl = 0;
            for (size_t i = 1; i < learnt.size(); i++) { seen[learnt[i] >> 1] = 0; if (level[learnt[i] >> 1] > bl) { bl = level[learnt[i] >> 1]; swap(learnt[1], learnt[i]); } }
            // learnt[1] holds a literal of the highest level below
            cancel(bl);
            if (learnt.size() == 1) enq(learnt[0], -1);
            else { cls.push_back(learnt); attach(cls.size() - 1); enq(learnt[0], (int)cls.size() - 1); }
            inc *= 1.05;
            if (confl > budget) { confl = 0; budget *= 1.3; cancel(0); }
        } else {
            int v = -1;
            while (!heap.empty()) { v = hpop(); if (!val[2 * v]) break; v = -1; }
            if (v < 0) return true;
            lim.push_back(trail.size());
            enq(2 * v + phase[v], -1);
        }
    }
}
int main() {
    string fault = env("VHSAT_FAULT");
    if (fault == "noread") _exit(3);
    string text;
    { static char buf[1 << 16]; ssize_t k; while ((k = read(0, buf, sizeof buf)) > 0) text.append(buf, k); }
    string dump = env("VHSAT_DUMP");
    if (!dump.empty()) { ofstream f(dump, ios::binary); f << text; }
    if (fault == "empty") _exit(0);
    if (fault == "crash") out("c starting\n", 139);
    if (fault == "unknown") out("c time limit reached\ns UNKNOWN\n", 0);
    if (fault == "garbage") out("SATISFIABLE?\nsat\nunsat\n( )\nv 1 2 3 0\n", 0);
    if (fault == "comment_only") out("c s UNSATISFIABLE\nc s SATISFIABLE\n", 0);
    if (fault == "lowercase") out("s unsatisfiable\n", 20);
    if (fault == "cut_unsat") out("s UNSAT", 0);
    if (fault == "badlit") out("s SATISFIABLE\nv 1 x2 -3 0\n", 10);
    if (fault == "force_unsat") out("s UNSATISFIABLE\n", 20);
    uint64_t seed = strtoull(env("VHSAT_SEED").c_str(), 0, 10);
    int format = atoi(env("VHSAT_FORMAT").c_str());
    if (!env("VHSAT_CONF").empty()) maxconf = atol(env("VHSAT_CONF").c_str());
    gaveup = env("VHSAT_GAVEUP");
    S = seed ^ 0xABCDEF;
    vector<int> lit; vector<size_t> start(1, 0); // original clauses, flattened
    { const char *p = text.c_str(), *e = p + text.size();
      while (p < e) {
        while (p < e && (*p == ' ' || *p == '\n' || *p == '\r' || *p == '\t')) p++;
        if (p >= e) break;
        if (*p == 'c' || *p == 'p') {
            if (*p == 'p') { char *q; const char *r = strstr(p, "cnf"); if (r) nv = strtol(r + 3, &q, 10); }
            while (p < e && *p != '\n') p++;
            continue;
        }
        char *q; long x = strtol(p, &q, 10);
        if (q == p) { fprintf(stderr, "fakesat: bad input\n"); _exit(98); }
        p = q;
        if (x) { nv = max<long>(nv, labs(x)); lit.push_back(x); } else start.push_back(lit.size());
      } }
    size_t nc = start.size() - 1;
    val.assign(2 * nv, 0); level.assign(nv, 0); reason.assign(nv, -1); act.assign(nv, 0); phase.assign(nv, 1); seen.assign(nv, 0); watch.resize(2 * nv); hpos.assign(nv, -1);
    if (seed) for (int v = 0; v < nv; v++) { phase[v] = rnd() & 1; act[v] = (double)(rnd() % 1000) / 1000; }
    for (int v = 0; v < nv; v++) hins(v);
    bool sat = true;
    vector<Lit> k;
    for (size_t ci = 0; ci < nc; ci++) {
        k.clear(); for (size_t j = start[ci]; j < start[ci + 1]; j++) k.push_back(2 * (labs(lit[j]) - 1) + (lit[j] < 0));
        sort(k.begin(), k.end()); k.erase(unique(k.begin(), k.end()), k.end());
        bool taut = false; for (size_t i = 1; i < k.size(); i++) if ((k[i] ^ 1) == k[i - 1]) taut = true;
        if (taut) continue;
        if (k.empty()) { sat = false; break; }
        if (k.size() == 1) { if (val[k[0]] == -1) { sat = false; break; } if (!val[k[0]]) enq(k[0], -1); continue; }
        cls.push_back(k);
    }
    if (sat) { for (size_t i = 0; i < cls.size(); i++) attach(i); sat = solve(); }
    string o;
    if (!sat) { if (format & 1) o += "c unsat\n"; o += "s UNSATISFIABLE\n"; out(o, 20); }
    vector<long> lits(nv);
    for (int v = 0; v < nv; v++) lits[v] = val[2 * v] == 1 ? v + 1 : -(v + 1);
    // never hand out a wrong model: the harness relies on this program being honest
    for (size_t ci = 0; ci < nc; ci++) { bool ok = false; for (size_t j = start[ci]; j < start[ci + 1]; j++) ok |= lits[labs(lit[j]) - 1] == lit[j]; if (!ok) { fprintf(stderr, "fakesat: wrong model\n"); _exit(99); } }
    if (format == 2) reverse(lits.begin(), lits.end());
    if (format & 1) o += "c vh-fakesat\nc\n";
    o += "s SATISFIABLE\n";
    size_t per = format == 0 ? (size_t)1 << 40 : format == 1 ? 7 : format == 2 ? 1 : 30;
    for (size_t i = 0; i < lits.size(); i += per) {
        o += "v";
        size_t e = min(lits.size(), i + per);
        for (size_t j = i; j < e; j++) o += " " + to_string(lits[j]);
        if (format == 3 && e == lits.size()) o += " 0";
        o += "\n";
    }
    if (format != 3 || lits.empty()) o += "v 0\n";
    if (fault == "cut_model") o.resize(o.size() / 2);
    out(o, 10);
}
