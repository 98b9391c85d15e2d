#include <functional>
// Reference checker for msolve's outputs: independent parser, independent Groebner engine
// (a plain degree-by-degree F4 over Z/p, p < 2^62), quotient-algebra linear algebra, and
// certified real root enclosures (FLINT/arb).  Shares no code with msolve.
//
// Reads one request per line on stdin ("cmd key=value ..."), answers one line on stdout:
//   OK key=value ...   |   BAD reason   |   INC reason (undecided: budget or format)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <gmp.h>
#include <flint/flint.h>
#include <flint/ulong_extras.h>
#include <flint/nmod_vec.h>
#include <flint/nmod_poly.h>
#include <flint/nmod_poly_factor.h>
#include <flint/fmpz.h>
#include <flint/fmpq.h>
#include <flint/fmpz_poly.h>
#include <flint/arb.h>
#include <flint/acb.h>
#include <flint/arb_fmpz_poly.h>
#include <flint/arf.h>
using namespace std;
typedef uint64_t u64;

struct Bad { string s; };
struct Inc { string s; };

// ---------------------------------------------------------------- generic polynomials over Q
struct Q {                       // rational coefficient
    fmpq_t v;
    Q() { fmpq_init(v); }
    Q(const Q &o) { fmpq_init(v); fmpq_set(v, o.v); }
    Q &operator=(const Q &o) { fmpq_set(v, o.v); return *this; }
    ~Q() { fmpq_clear(v); }
};
typedef vector<int> Exp;
struct QTerm { Q c; Exp e; };
typedef vector<QTerm> QPoly;
struct System {
    vector<string> vars;
    u64 ch = 0;
    vector<QPoly> gens;
};

static string slurp(const string &f)
{
    ifstream in(f, ios::binary);
    if (!in) throw Inc{"cannot read " + f};
    stringstream ss; ss << in.rdbuf();
    return ss.str();
}
static string strip(const string &s)
{
    string r;
    for (char c : s) if (!isspace((unsigned char)c)) r += c;
    return r;
}
// a polynomial in expanded form, white space removed
static QPoly parse_poly(const string &s, const map<string,int> &idx, int nv)
{
    QPoly P;
    size_t i = 0, n = s.size();
    if (n == 0) throw Inc{"empty polynomial"};
    while (i < n) {
        int sg = 1;
        bool any = false;
        while (i < n && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') sg = -sg; ++i; any = true; }
        if (!any && i != 0) throw Inc{"bad polynomial: " + s.substr(0, 60)};
        QTerm t; t.e.assign(nv, 0);
        fmpq_one(t.c.v);
        bool first = true;
        while (i < n && s[i] != '+' && s[i] != '-') {
            if (!first) { if (s[i] != '*') throw Inc{"bad term near " + s.substr(i, 20)}; ++i; }
            first = false;
            if (i < n && isdigit((unsigned char)s[i])) {
                size_t j = i;
                while (j < n && isdigit((unsigned char)s[j])) ++j;
                string num = s.substr(i, j - i), den;
                if (j < n && s[j] == '/') {
                    size_t k = j + 1;
                    while (k < n && isdigit((unsigned char)s[k])) ++k;
                    den = s.substr(j + 1, k - j - 1);
                    j = k;
                }
                fmpq_t q; fmpq_init(q);
                fmpz_set_str(fmpq_numref(q), num.c_str(), 10);
                if (!den.empty()) fmpz_set_str(fmpq_denref(q), den.c_str(), 10);
                if (fmpz_is_zero(fmpq_denref(q))) throw Inc{"zero denominator"};
                fmpq_canonicalise(q);
                fmpq_mul(t.c.v, t.c.v, q);
                fmpq_clear(q);
                i = j;
            } else {
                size_t j = i;
                while (j < n && !strchr("+-*^,", s[j])) ++j;
                string name = s.substr(i, j - i);
                auto it = idx.find(name);
                if (it == idx.end()) throw Inc{"unknown variable '" + name + "'"};
                int e = 1;
                if (j < n && s[j] == '^') {
                    size_t k = j + 1;
                    while (k < n && isdigit((unsigned char)s[k])) ++k;
                    e = atoi(s.substr(j + 1, k - j - 1).c_str());
                    j = k;
                }
                t.e[it->second] += e;
                i = j;
            }
        }
        if (sg < 0) fmpq_neg(t.c.v, t.c.v);
        P.push_back(t);
    }
    // collect
    map<Exp, Q> m;
    for (auto &t : P) { auto it = m.find(t.e); if (it == m.end()) m.emplace(t.e, t.c); else fmpq_add(it->second.v, it->second.v, t.c.v); }
    QPoly R;
    for (auto &kv : m) if (!fmpq_is_zero(kv.second.v)) { QTerm t; t.c = kv.second; t.e = kv.first; R.push_back(t); }
    return R;
}
static vector<string> split(const string &s, char c)
{
    vector<string> r; string cur;
    for (char x : s) if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
    r.push_back(cur);
    return r;
}
static map<string,int> index_of(const vector<string> &v)
{
    map<string,int> m;
    for (size_t i = 0; i < v.size(); ++i) m[v[i]] = (int)i;
    return m;
}
static System parse_system(const string &file)
{
    string s = slurp(file);
    System S;
    size_t a = s.find('\n');
    if (a == string::npos) throw Inc{"bad input file"};
    S.vars = split(strip(s.substr(0, a)), ',');
    size_t b = s.find('\n', a + 1);
    S.ch = strtoull(strip(s.substr(a + 1, b - a - 1)).c_str(), 0, 10);
    string rest = b == string::npos ? "" : strip(s.substr(b + 1));
    auto idx = index_of(S.vars);
    if (!rest.empty())
        for (auto &p : split(rest, ',')) if (!p.empty()) S.gens.push_back(parse_poly(p, idx, S.vars.size()));
    return S;
}
static u64 fmpq_mod(const Q &q, u64 p)
{
    u64 n = fmpz_fdiv_ui(fmpq_numref(q.v), p), d = fmpz_fdiv_ui(fmpq_denref(q.v), p);
    if (d == 0) throw Inc{"denominator vanishes modulo p"};
    if (d == 1) return n;
    return n_mulmod2(n, n_invmod(d, p), p);
}

// ---------------------------------------------------------------- modular engine
static u64 OPS, OPLIMIT = 600000000ULL;
static int MAXDEG = 0;   // >0: a computation meeting higher degrees is not judged
static inline void charge(u64 n) { OPS += n; if (OPS > OPLIMIT) throw Inc{"oracle budget"}; }

struct Ring {
    int nv, k;        // k variables in the first block
    u64 p; nmod_t mod;
    // monomials: stride nv+2 : [deg block1, deg block2, exponents]
    int st;
    vector<int> ex;
    vector<u64> hsh, mask;
    vector<uint32_t> tab; u64 tmask;
    Ring(int nv_, int k_, u64 p_) : nv(nv_), k(k_), p(p_)
    {
        nmod_init(&mod, p);
        st = nv + 2;
        tab.assign(1 << 12, 0); tmask = tab.size() - 1;
    }
    size_t nmon() const { return hsh.size(); }
    const int *E(uint32_t m) const { return &ex[(size_t)m * st]; }
    static u64 mix(u64 z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint32_t intern_full(const int *e)
    {
        u64 h = 0;
        for (int i = 2; i < st; ++i) h += mix((u64)(i * 0x9E3779B97F4A7C15ULL) + 77) * (u64)(unsigned)e[i];
        u64 g = mix(h);
        for (u64 j = g & tmask;; j = (j + 1) & tmask) {
            uint32_t v = tab[j];
            if (!v) {
                if (MAXDEG && e[0] + e[1] > MAXDEG) throw Inc{"degrees near the 16-bit limit"};
                uint32_t id = hsh.size();
                ex.insert(ex.end(), e, e + st);
                hsh.push_back(g);
                u64 mk = 0;
                for (int i = 0; i < nv; ++i) if (e[i + 2]) { mk |= 1ULL << (i % 32); if (e[i + 2] > 2) mk |= 1ULL << (32 + i % 32); }
                mask.push_back(mk);
                tab[j] = id + 1;
                if (hsh.size() * 2 > tab.size()) rehash();
                return id;
            }
            if (hsh[v - 1] == g && !memcmp(E(v - 1), e, st * sizeof(int))) return v - 1;
        }
    }
    void rehash()
    {
        tab.assign(tab.size() * 2, 0); tmask = tab.size() - 1;
        for (uint32_t i = 0; i < hsh.size(); ++i) { u64 j = hsh[i] & tmask; while (tab[j]) j = (j + 1) & tmask; tab[j] = i + 1; }
    }
    uint32_t intern(const Exp &e)
    {
        vector<int> f(st);
        for (int i = 0; i < nv; ++i) { f[i + 2] = e[i]; f[i < k ? 0 : 1] += e[i]; }
        return intern_full(f.data());
    }
    uint32_t mul(uint32_t a, uint32_t b)
    {
        int buf[512];
        const int *x = E(a), *y = E(b);
        for (int i = 0; i < st; ++i) buf[i] = x[i] + y[i];
        return intern_full(buf);
    }
    uint32_t quo(uint32_t a, uint32_t b)
    {
        int buf[512];
        const int *x = E(a), *y = E(b);
        for (int i = 0; i < st; ++i) buf[i] = x[i] - y[i];
        return intern_full(buf);
    }
    uint32_t lcm(uint32_t a, uint32_t b)
    {
        int buf[512]; buf[0] = buf[1] = 0;
        const int *x = E(a), *y = E(b);
        for (int i = 2; i < st; ++i) { buf[i] = max(x[i], y[i]); buf[i - 2 < k ? 0 : 1] += buf[i]; }
        return intern_full(buf);
    }
    bool divides(uint32_t a, uint32_t b) const
    {
        if (mask[a] & ~mask[b]) return false;
        const int *x = E(a), *y = E(b);
        for (int i = 2; i < st; ++i) if (x[i] > y[i]) return false;
        return true;
    }
    bool coprime(uint32_t a, uint32_t b) const
    {
        const int *x = E(a), *y = E(b);
        for (int i = 2; i < st; ++i) if (x[i] && y[i]) return false;
        return true;
    }
    int deg(uint32_t a) const { return E(a)[0] + E(a)[1]; }
    int cmp(uint32_t a, uint32_t b) const          // >0: a > b
    {
        if (a == b) return 0;
        const int *x = E(a), *y = E(b);
        if (k) {
            if (x[0] != y[0]) return x[0] > y[0] ? 1 : -1;
            for (int i = k - 1; i >= 0; --i) if (x[i + 2] != y[i + 2]) return x[i + 2] < y[i + 2] ? 1 : -1;
        }
        if (x[1] != y[1]) return x[1] > y[1] ? 1 : -1;
        for (int i = nv - 1; i >= k; --i) if (x[i + 2] != y[i + 2]) return x[i + 2] < y[i + 2] ? 1 : -1;
        return 0;
    }
    bool invblock1(uint32_t a) const { return E(a)[0] != 0; }
};
struct MP { vector<uint32_t> m; vector<u64> c; int sugar = 0; };   // sorted decreasing, monic in bases

static void mp_monic(Ring &R, MP &f)
{
    if (f.c.empty() || f.c[0] == 1) return;
    u64 iv = n_invmod(f.c[0], R.p);
    for (auto &x : f.c) x = nmod_mul(x, iv, R.mod);
}
static MP mp_from(Ring &R, const QPoly &P)
{
    vector<pair<uint32_t, u64>> t;
    for (auto &q : P) { u64 c = fmpq_mod(q.c, R.p); if (c) t.push_back({R.intern(q.e), c}); }
    sort(t.begin(), t.end(), [&](auto &a, auto &b) { return R.cmp(a.first, b.first) > 0; });
    MP f;
    for (auto &x : t) { f.m.push_back(x.first); f.c.push_back(x.second); }
    for (auto x : f.m) f.sugar = max(f.sugar, R.deg(x));
    return f;
}

struct Matrix {       // rows over an explicit column list (monomials sorted decreasing)
    vector<uint32_t> cols;
    map<int,int> dummy;
};

// echelon: rows given as (sparse over col index).  reducers: first nred rows, with distinct pivots
struct SRow { vector<int> j; vector<u64> c; int sugar; };

struct Engine {
    Ring &R;
    vector<MP> G;            // all elements
    vector<char> red;        // redundant
    struct Pair { int a, b; uint32_t l; int sugar; int deg; };
    vector<Pair> P;
    bool one = false;
    u64 stat_rows = 0, stat_pairs = 0, stat_rounds = 0;
    Engine(Ring &r) : R(r) {}

    int find_reducer(uint32_t m, const vector<int> &act) const
    {
        for (int i : act) if (R.divides(G[i].m[0], m)) return i;
        return -1;
    }
    vector<int> active() const
    {
        vector<int> a;
        for (size_t i = 0; i < G.size(); ++i) if (!red[i]) a.push_back(i);
        return a;
    }
    MP mulmon(const MP &f, uint32_t t)
    {
        MP g; g.c = f.c; g.m.resize(f.m.size());
        for (size_t i = 0; i < f.m.size(); ++i) g.m[i] = R.mul(f.m[i], t);
        g.sugar = f.sugar + R.deg(t);
        charge(f.m.size() * 4);
        return g;
    }
    // reduce all polys in `todo` (full normal form of tails and heads w.r.t. active set), then echelonise them
    // together; returns rows (sorted by increasing lead) not zero. If echelon false: each row reduced separately.
    vector<MP> reduce(vector<MP> todo, bool echelon, const vector<int> &act)
    {
        // symbolic preprocessing
        vector<char> seen(R.nmon(), 0);
        vector<uint32_t> cols, work;
        vector<MP> reds;
        auto add = [&](uint32_t m) {
            if (m >= seen.size()) seen.resize(R.nmon() + 1024, 0);
            if (!seen[m]) { seen[m] = 1; cols.push_back(m); work.push_back(m); }
        };
        for (auto &f : todo) for (auto m : f.m) add(m);
        for (size_t w = 0; w < work.size(); ++w) {
            uint32_t m = work[w];
            int i = find_reducer(m, act);
            charge(act.size());
            if (i < 0) continue;
            reds.push_back(mulmon(G[i], R.quo(m, G[i].m[0])));
            for (auto x : reds.back().m) add(x);
        }
        sort(cols.begin(), cols.end(), [&](uint32_t a, uint32_t b) { return R.cmp(a, b) > 0; });
        charge(cols.size() * 20);
        vector<int> pos(R.nmon(), -1);
        int nc = cols.size();
        for (int i = 0; i < nc; ++i) pos[cols[i]] = i;
        vector<vector<int>> pj(nc); vector<vector<u64>> pc(nc);
        for (auto &r : reds) {
            int l = pos[r.m[0]];
            pj[l].resize(r.m.size());
            for (size_t i = 0; i < r.m.size(); ++i) pj[l][i] = pos[r.m[i]];
            pc[l] = move(r.c);
        }
        stat_rows += reds.size() + todo.size();
        vector<MP> out;
        vector<int> newpiv;
        vector<int> nsug(nc, 0);
        vector<u64> d(nc);
        sort(todo.begin(), todo.end(), [&](const MP &a, const MP &b) { return a.m.size() < b.m.size(); });
        for (auto &f : todo) {
            if (f.m.empty()) { if (!echelon) out.push_back(MP()); continue; }
            fill(d.begin(), d.end(), 0);
            for (size_t i = 0; i < f.m.size(); ++i) d[pos[f.m[i]]] = f.c[i];
            int lead = -1;
            int s0 = pos[f.m[0]];
            charge(nc - s0);
            for (int j = s0; j < nc; ++j) {
                if (!d[j]) continue;
                if (pj[j].empty()) { if (lead < 0) lead = j; continue; }
                u64 c = n_negmod(d[j], R.p);
                u64 cp = n_mulmod_precomp_shoup(c, R.p);
                auto &q = pj[j]; auto &cc = pc[j];
                charge(q.size());
                for (size_t i = 0; i < q.size(); ++i) {
                    u64 t = n_mulmod_shoup(c, cc[i], cp, R.p);
                    d[q[i]] = nmod_add(d[q[i]], t, R.mod);
                }
            }
            if (echelon) {
                if (lead < 0) continue;
                u64 iv = n_invmod(d[lead], R.p);
                vector<int> q; vector<u64> cc;
                for (int j = lead; j < nc; ++j) if (d[j]) { q.push_back(j); cc.push_back(nmod_mul(d[j], iv, R.mod)); }
                pj[lead] = q; pc[lead] = cc; nsug[lead] = f.sugar;
                newpiv.push_back(lead);
            } else {
                MP g; g.sugar = f.sugar;
                if (lead >= 0) for (int j = lead; j < nc; ++j) if (d[j]) { g.m.push_back(cols[j]); g.c.push_back(d[j]); }
                out.push_back(g);
            }
        }
        if (echelon) {
            sort(newpiv.begin(), newpiv.end(), greater<int>());
            for (int l : newpiv) {           // from smallest monomial up: interreduce new rows
                fill(d.begin(), d.end(), 0);
                for (size_t i = 0; i < pj[l].size(); ++i) d[pj[l][i]] = pc[l][i];
                for (int j = l + 1; j < nc; ++j) {
                    if (!d[j] || pj[j].empty()) continue;
                    u64 c = n_negmod(d[j], R.p), cp = n_mulmod_precomp_shoup(c, R.p);
                    charge(pj[j].size());
                    for (size_t i = 0; i < pj[j].size(); ++i) d[pj[j][i]] = nmod_add(d[pj[j][i]], n_mulmod_shoup(c, pc[j][i], cp, R.p), R.mod);
                }
                vector<int> q; vector<u64> cc; MP g; g.sugar = nsug[l];
                for (int j = l; j < nc; ++j) if (d[j]) { q.push_back(j); cc.push_back(d[j]); g.m.push_back(cols[j]); g.c.push_back(d[j]); }
                pj[l] = q; pc[l] = cc;
                out.push_back(g);
            }
        }
        return out;
    }
    MP nf1(const MP &f)
    {
        vector<MP> t(1, f);
        return reduce(t, false, active())[0];
    }
    void add(MP f)
    {
        mp_monic(R, f);
        int n = G.size();
        uint32_t lm = f.m[0];
        for (auto x : f.m) f.sugar = max(f.sugar, R.deg(x));
        if (R.deg(lm) == 0) { one = true; }
        // Gebauer-Moeller
        vector<Pair> nw;
        for (int i = 0; i < n; ++i) if (!red[i]) {
            Pair q; q.a = i; q.b = n; q.l = R.lcm(G[i].m[0], lm);
            q.deg = R.deg(q.l);
            q.sugar = max(G[i].sugar + q.deg - R.deg(G[i].m[0]), f.sugar + q.deg - R.deg(lm));
            nw.push_back(q);
        }
        charge(nw.size() * 4);
        // B criterion on old pairs
        vector<Pair> keep;
        for (auto &q : P) {
            if (R.divides(lm, q.l)) {
                uint32_t la = R.lcm(G[q.a].m[0], lm), lb = R.lcm(G[q.b].m[0], lm);
                if (la != q.l && lb != q.l) continue;
            }
            keep.push_back(q);
        }
        P.swap(keep);
        // M and F criteria
        vector<char> dead(nw.size(), 0);
        for (size_t i = 0; i < nw.size(); ++i)
            for (size_t j = 0; j < nw.size(); ++j) if (i != j && !dead[j] && nw[i].l != nw[j].l && R.divides(nw[j].l, nw[i].l)) { dead[i] = 2; break; }
        charge(nw.size() * nw.size());
        map<uint32_t, vector<int>> grp;
        for (size_t i = 0; i < nw.size(); ++i) if (!dead[i]) grp[nw[i].l].push_back(i);
        for (auto &g : grp) {
            bool cop = false; int best = -1;
            for (int i : g.second) { if (R.coprime(G[nw[i].a].m[0], lm)) cop = true; if (best < 0 || nw[i].sugar < nw[best].sugar) best = i; }
            if (!cop) P.push_back(nw[best]);
        }
        for (int i = 0; i < n; ++i) if (!red[i] && R.divides(lm, G[i].m[0])) red[i] = 1;
        G.push_back(f); red.push_back(0);
    }
    void run(vector<MP> gens)
    {
        // insert generators degree by degree via echelon
        vector<MP> in;
        for (auto &g : gens) if (!g.m.empty()) in.push_back(g);
        vector<MP> e = reduce(in, true, {});
        sort(e.begin(), e.end(), [&](const MP &a, const MP &b) { return R.cmp(a.m[0], b.m[0]) < 0; });
        for (auto &g : e) { add(g); if (one) break; }
        while (!P.empty() && !one) {
            int s = INT32_MAX;
            for (auto &q : P) s = min(s, q.sugar);
            vector<Pair> sel, rest;
            for (auto &q : P) if (q.sugar == s) sel.push_back(q); else rest.push_back(q);
            if (R.k) {   // elimination orders: smallest lcm degree first within a sugar
                int d = INT32_MAX; for (auto &q : sel) d = min(d, q.deg);
                vector<Pair> s2; for (auto &q : sel) if (q.deg == d) s2.push_back(q); else rest.push_back(q);
                sel.swap(s2);
            }
            if (sel.size() > 400) { for (size_t i = 400; i < sel.size(); ++i) rest.push_back(sel[i]); sel.resize(400); }
            P.swap(rest);
            ++stat_rounds; stat_pairs += sel.size();
            vector<MP> rows;
            set<pair<int,uint32_t>> have;
            for (auto &q : sel) for (int w : {q.a, q.b}) if (have.insert({w, q.l}).second) {
                rows.push_back(mulmon(G[w], R.quo(q.l, G[w].m[0])));
                rows.back().sugar = q.sugar;
            }
            vector<MP> nw = reduce(rows, true, active());
            sort(nw.begin(), nw.end(), [&](const MP &a, const MP &b) { return R.cmp(a.m[0], b.m[0]) < 0; });
            for (auto &g : nw) {
                bool skip = false;   // rows are reduced w.r.t. old active set; a new smaller lead may divide a later one: still add
                add(g);
                if (one) break;
            }
        }
        if (one) { MP u; u.m.push_back(R.intern(Exp(R.nv, 0))); u.c.push_back(1); G.assign(1, u); red.assign(1, 0); P.clear(); return; }
        // final: minimal, reduced
        vector<int> a = active();
        vector<int> mn;
        for (int i : a) { bool ok = true; for (int j : a) if (i != j && G[i].m[0] != G[j].m[0] && R.divides(G[j].m[0], G[i].m[0])) { ok = false; break; } if (ok) mn.push_back(i); }
        vector<MP> H;
        for (int i : mn) H.push_back(G[i]);
        G = H; red.assign(G.size(), 0);
        vector<int> act = active();
        vector<MP> out;
        for (auto &g : H) {
            MP tail; tail.m.assign(g.m.begin() + 1, g.m.end()); tail.c.assign(g.c.begin() + 1, g.c.end());
            MP r = reduce({tail}, false, act)[0];
            MP f; f.m.push_back(g.m[0]); f.c.push_back(1);
            f.m.insert(f.m.end(), r.m.begin(), r.m.end()); f.c.insert(f.c.end(), r.c.begin(), r.c.end());
            out.push_back(f);
        }
        sort(out.begin(), out.end(), [&](const MP &x, const MP &y) { return R.cmp(x.m[0], y.m[0]) < 0; });
        G = out; red.assign(G.size(), 0);
    }
    // dimension class: -1 unit, 0 zero-dim, 1 positive
    int dimclass() const
    {
        if (G.size() == 1 && R.deg(G[0].m[0]) == 0) return -1;
        vector<char> pw(R.nv, 0);
        for (auto &g : G) { const int *e = R.E(g.m[0]); int c = 0, w = -1; for (int i = 0; i < R.nv; ++i) if (e[i + 2]) { ++c; w = i; } if (c == 1) pw[w] = 1; }
        for (int i = 0; i < R.nv; ++i) if (!pw[i]) return 1;
        return 0;
    }
    // staircase (zero-dim), increasing
    vector<uint32_t> staircase(size_t lim = 3000)
    {
        vector<uint32_t> B, front;
        set<uint32_t> seen;
        uint32_t o = R.intern(Exp(R.nv, 0));
        front.push_back(o); seen.insert(o);
        vector<int> act = active();
        vector<uint32_t> vs;
        for (int i = 0; i < R.nv; ++i) { Exp e(R.nv, 0); e[i] = 1; vs.push_back(R.intern(e)); }
        for (size_t w = 0; w < front.size(); ++w) {
            uint32_t m = front[w];
            if (find_reducer(m, act) >= 0) continue;
            B.push_back(m);
            if (B.size() > lim) throw Inc{"staircase too large"};
            for (auto v : vs) { uint32_t x = R.mul(m, v); if (seen.insert(x).second) front.push_back(x); }
        }
        sort(B.begin(), B.end(), [&](uint32_t a, uint32_t b) { return R.cmp(a, b) < 0; });
        return B;
    }
};

static string monstr(const Ring &R, uint32_t m, const vector<string> &vars)
{
    string s;
    for (int i = 0; i < R.nv; ++i) if (R.E(m)[i + 2]) { if (!s.empty()) s += "*"; s += vars[i]; if (R.E(m)[i + 2] > 1) s += "^" + to_string(R.E(m)[i + 2]); }
    return s.empty() ? "1" : s;
}

static u64 RS = 88172645463325252ULL;
static u64 rnd() { RS += 0x9E3779B97F4A7C15ULL; return Ring::mix(RS); }
static u64 rand_prime60() { for (;;) { u64 x = (1ULL << 59) + (rnd() >> 5 & ((1ULL << 59) - 1)); return n_nextprime(x, 0); } }

// ---------------------------------------------------------------- GB output of msolve
struct GBOut { vector<string> vars; u64 ch; bool elim = false; long len = -1; vector<QPoly> polys; bool lead = false; string order; };
static GBOut parse_gb(const string &file, const vector<string> &invars)
{
    string s = slurp(file);
    GBOut o;
    o.vars = invars;
    size_t i = 0;
    bool hdr = false;
    while (i < s.size() && s[i] == '#') {
        size_t e = s.find('\n', i);
        if (e == string::npos) throw Bad{"output ends inside the header"};
        string l = s.substr(i, e - i);
        hdr = true;
        if (l.find("Leading ideal") != string::npos) o.lead = true;
        size_t c = l.find(':');
        if (c != string::npos) {
            string key = l.substr(1, c - 1), val = l.substr(c + 1);
            if (key == "field characteristic") o.ch = strtoull(strip(val).c_str(), 0, 10);
            if (key == "variable order") o.vars = split(strip(val), ',');
            if (key == "monomial order") { o.order = val; o.elim = val.find("eliminat") != string::npos; }
            if (key == "length of basis") o.len = strtol(val.c_str(), 0, 10);
        }
        i = e + 1;
    }
    string b = strip(s.substr(i));
    if (!hdr || b.size() < 3 || b[0] != '[' || b.substr(b.size() - 2) != "]:") throw Bad{"output is not a Groebner basis listing: " + b.substr(0, 80)};
    b = b.substr(1, b.size() - 3);
    auto idx = index_of(o.vars);
    for (auto &p : split(b, ',')) {
        if (p.empty()) throw Bad{"empty polynomial in output"};
        try { o.polys.push_back(parse_poly(p, idx, o.vars.size())); }
        catch (Inc &x) { throw Bad{"unparsable polynomial in output: " + x.s}; }
    }
    return o;
}
struct Args { map<string,string> kv; string get(const string &k, const string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; } long num(const string &k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); } };

// map exps of output variables into the input variables
static QPoly remap(const QPoly &P, const vector<string> &from, const vector<string> &to)
{
    auto idx = index_of(to);
    QPoly R;
    for (auto &t : P) {
        QTerm q; q.c = t.c; q.e.assign(to.size(), 0);
        for (size_t i = 0; i < from.size(); ++i) {
            auto it = idx.find(from[i]);
            if (it == idx.end()) throw Bad{"unknown output variable " + from[i]};
            q.e[it->second] = t.e[i];
        }
        R.push_back(q);
    }
    return R;
}

static string compare_gb(const System &S, const GBOut &o, int k, u64 p, bool elimonly, bool lead, const vector<QPoly> &gens, string &stat)
{   // returns "" if equal
    int nv = S.vars.size();
    Ring R(nv, k, p);
    Engine E(R);
    vector<MP> in;
    for (auto &g : gens) in.push_back(mp_from(R, g));
    E.run(in);
    vector<MP> want;
    for (auto &g : E.G) if (!elimonly || !R.invblock1(g.m[0])) want.push_back(g);
    vector<MP> got;
    bool allzero = true;
    for (auto &q : o.polys) {
        MP f = mp_from(R, remap(q, o.vars, S.vars));
        if (!f.m.empty()) allzero = false;
        got.push_back(f);
    }
    long maxd = 0, terms = 0;
    for (auto &g : want) { maxd = max<long>(maxd, R.deg(g.m[0])); terms += g.m.size(); }
    stat = "n=" + to_string(want.size()) + " deg=" + to_string(maxd) + " terms=" + to_string(terms) + " rounds=" + to_string(E.stat_rounds) + " pairs=" + to_string(E.stat_pairs) + " dimc=" + to_string(E.dimclass());
    if (want.empty()) {
        if (o.polys.size() == 1 && allzero) return "";
        return "the ideal is zero, but the output is not [0]";
    }
    if (o.len >= 0 && o.len != (long)o.polys.size()) return "header announces " + to_string(o.len) + " elements, " + to_string(o.polys.size()) + " printed";
    if (got.size() != want.size()) {
        return "basis has " + to_string(got.size()) + " elements, the reduced basis has " + to_string(want.size());
    }
    for (size_t i = 0; i < got.size(); ++i) {
        MP g = got[i];
        if (g.m.empty()) return "zero element in the basis at position " + to_string(i + 1);
        if (lead) {
            if (g.m.size() != 1 || g.c[0] != 1) return "leading ideal entry is not a monomial";
            if (g.m[0] != want[i].m[0]) return "leading monomial " + to_string(i + 1) + " is " + monstr(R, g.m[0], S.vars) + ", expected " + monstr(R, want[i].m[0], S.vars);
            continue;
        }
        if (S.ch && g.c[0] != 1) return "element " + to_string(i + 1) + " is not monic";
        mp_monic(R, g);
        if (g.m[0] != want[i].m[0]) return "leading monomial of element " + to_string(i + 1) + " is " + monstr(R, g.m[0], S.vars) + ", expected " + monstr(R, want[i].m[0], S.vars);
        if (g.m != want[i].m || g.c != want[i].c) return "element " + to_string(i + 1) + " (lead " + monstr(R, g.m[0], S.vars) + ") differs from the reduced basis";
    }
    return "";
}

// gb in= out= elim=k lead=0/1 elimonly=0/1
static string cmd_gb(const Args &a)
{
    System S = parse_system(a.get("in"));
    int k = a.num("elim", 0);
    bool lead = a.num("lead", 0), eo = a.num("elimonly", 0);
    vector<QPoly> gens = S.gens;
    GBOut o = parse_gb(a.get("out"), S.vars);
    if (o.ch != S.ch) return "BAD header names characteristic " + to_string(o.ch);
    if (o.lead != lead) return "BAD wrong kind of listing (leading ideal / basis)";
    string st, r;
    if (S.ch) {
        r = compare_gb(S, o, k, S.ch, eo, lead, gens, st);
        return r.empty() ? "OK " + st : "BAD " + r;
    }
    // over Q: an output that agrees at one random 60-bit prime is accepted; it is refused only
    // when three independent primes refuse it
    for (int t = 0; t < 3; ++t) {
        r = compare_gb(S, o, k, rand_prime60(), eo, lead, gens, st);
        if (r.empty()) return "OK " + st;
    }
    return "BAD " + r;
}
// sat in= out= : the output of -S.  BAD unless it is the reduced basis of an ideal between I and
// I : f^oo; complete=1 if that ideal is I : f^oo
static string cmd_sat(const Args &a)
{
    System S = parse_system(a.get("in"));
    if (!S.ch || S.gens.size() < 2) return "INC bad request";
    GBOut o = parse_gb(a.get("out"), S.vars);
    if (o.ch != S.ch) return "BAD header names characteristic " + to_string(o.ch);
    if (o.lead) return "BAD wrong kind of listing (leading ideal / basis)";
    u64 p = S.ch;
    int nv = S.vars.size();
    vector<QPoly> out; for (auto &q : o.polys) out.push_back(remap(q, o.vars, S.vars));
    string st;
    GBOut o2 = o;
    string r = compare_gb(S, o2, 0, p, false, false, out, st);
    if (!r.empty()) return "BAD the output is not the reduced basis of the ideal it generates: " + r;
    Ring R(nv, 0, p);
    vector<MP> og, ig;
    for (auto &q : out) { MP f = mp_from(R, q); if (!f.m.empty()) og.push_back(f); }
    for (size_t i = 0; i + 1 < S.gens.size(); ++i) { MP f = mp_from(R, S.gens[i]); if (!f.m.empty()) ig.push_back(f); }
    Engine EG(R), EI(R);
    EG.run(og);
    for (auto &f : ig) if (og.empty() || !EG.nf1(f).m.empty()) return "BAD a generator of the ideal is not in the ideal of the output";
    EI.run(ig);
    int idim = ig.empty() ? 1 : EI.dimclass();
    // I : f^oo with a further variable
    Ring T(nv + 1, 1, p);
    auto ext = [&](const QPoly &q, int e0) { QPoly h; for (auto &t : q) { QTerm u = t; u.e.insert(u.e.begin(), e0); h.push_back(u); } return h; };
    vector<MP> tg;
    for (size_t i = 0; i + 1 < S.gens.size(); ++i) { MP f = mp_from(T, ext(S.gens[i], 0)); if (!f.m.empty()) tg.push_back(f); }
    QPoly h = ext(S.gens.back(), 1); for (auto &t : h) fmpq_neg(t.c.v, t.c.v);
    QTerm one; fmpq_one(one.c.v); one.e.assign(nv + 1, 0); h.push_back(one);
    tg.push_back(mp_from(T, h));
    Engine EJ(T);
    EJ.run(tg);
    vector<MP> want; for (auto &g : EJ.G) if (!T.invblock1(g.m[0])) want.push_back(g);
    vector<MP> got;
    for (auto &q : out) { MP f = mp_from(T, ext(q, 0)); if (!f.m.empty()) got.push_back(f); }
    for (auto &g : got) if (!EJ.nf1(g).m.empty()) return "BAD an element of the output is not in the saturation";
    bool complete = got.size() == want.size();
    for (size_t i = 0; complete && i < got.size(); ++i) { mp_monic(T, got[i]); complete = got[i].m == want[i].m && got[i].c == want[i].c; }
    bool same = EI.G.size() == want.size();
    for (size_t i = 0; same && i < want.size(); ++i) same = EI.G[i].m.size() == want[i].m.size() && EI.G[i].c == want[i].c;
    int jdim = want.empty() ? 1 : 2;
    if (!want.empty()) { // class of the saturation, through the ring without t
        vector<QPoly> dummy; bool unit = want.size() == 1 && T.deg(want[0].m[0]) == 0;
        if (unit) jdim = -1; else {
            vector<char> pw(nv, 0);
            for (auto &g : want) { const int *e = T.E(g.m[0]); int c = 0, w = -1; for (int i = 1; i <= nv; ++i) if (e[i + 2]) { ++c; w = i; } if (c == 1) pw[w - 1] = 1; }
            jdim = 0; for (int i = 0; i < nv; ++i) if (!pw[i]) jdim = 1;
        }
    }
    long md = 0; for (auto &g : EI.G) md = max<long>(md, R.deg(g.m[0]));
    return "OK complete=" + to_string(complete) + " idim=" + to_string(idim) + " jdim=" + to_string(jdim) + " samesize=" + to_string(same) + " pairs=" + to_string(EI.stat_pairs) + " ngen=" + to_string(ig.size()) + " mdeg=" + to_string(md) + " n=" + to_string(want.size());
}

// basis of the reference engine, for inspection
static string cmd_refgb(const Args &a)
{
    System S = parse_system(a.get("in"));
    Ring R(S.vars.size(), a.num("elim", 0), S.ch ? S.ch : rand_prime60());
    Engine E(R);
    vector<MP> in;
    for (auto &g : S.gens) in.push_back(mp_from(R, g));
    E.run(in);
    string s = "OK";
    for (auto &g : E.G) { s += " "; for (size_t i = 0; i < g.m.size(); ++i) s += (i ? "+" : "") + to_string(g.c[i]) + "*" + monstr(R, g.m[i], S.vars); }
    return s;
}
// info in= : dimension class, degree, number of distinct solutions
struct Quot {
    Ring &R; Engine &E;
    vector<uint32_t> B; map<uint32_t,int> pos;
    vector<vector<vector<u64>>> M;    // per variable, column j = coordinates of x_i * B_j
    Quot(Ring &r, Engine &e, size_t lim) : R(r), E(e)
    {
        B = E.staircase(lim);
        for (size_t i = 0; i < B.size(); ++i) pos[B[i]] = i;
        vector<int> act = E.active();
        for (int i = 0; i < R.nv; ++i) {
            Exp e(R.nv, 0); e[i] = 1; uint32_t x = R.intern(e);
            vector<MP> todo; vector<int> which;
            vector<vector<u64>> m(B.size());
            // batch: reduce() sorts by length, so keep identity by reducing one by one when not trivial
            for (size_t j = 0; j < B.size(); ++j) {
                uint32_t y = R.mul(B[j], x);
                m[j].assign(B.size(), 0);
                auto it = pos.find(y);
                if (it != pos.end()) { m[j][it->second] = 1; continue; }
                MP f; f.m.push_back(y); f.c.push_back(1);
                MP r = E.reduce({f}, false, act)[0];
                for (size_t q = 0; q < r.m.size(); ++q) m[j][pos.at(r.m[q])] = r.c[q];
            }
            M.push_back(m);
        }
    }
    size_t D() const { return B.size(); }
    vector<u64> apply(const vector<u64> &lin, const vector<u64> &v)
    {
        vector<u64> o(D(), 0);
        charge(D() * D());
        for (int i = 0; i < R.nv; ++i) if (lin[i])
            for (size_t j = 0; j < D(); ++j) if (v[j]) {
                u64 c = nmod_mul(v[j], lin[i], R.mod);
                auto &col = M[i][j];
                for (size_t q = 0; q < D(); ++q) if (col[q]) o[q] = nmod_add(o[q], nmod_mul(c, col[q], R.mod), R.mod);
            }
        return o;
    }
    // minimal polynomial of a linear form
    vector<u64> minpoly(const vector<u64> &lin)
    {
        vector<vector<u64>> rows, comb; vector<int> lead;
        vector<u64> v(D(), 0); v[pos.at(R.intern(Exp(R.nv, 0)))] = 1;
        for (size_t t = 0; t <= D(); ++t) {
            vector<u64> w = v, c(D() + 2, 0); c[t] = 1;
            for (size_t r = 0; r < rows.size(); ++r) if (w[lead[r]]) {
                u64 f = n_negmod(w[lead[r]], R.p);
                charge(2 * D());
                for (size_t q = 0; q < D(); ++q) w[q] = nmod_add(w[q], nmod_mul(f, rows[r][q], R.mod), R.mod);
                for (size_t q = 0; q < c.size(); ++q) c[q] = nmod_add(c[q], nmod_mul(f, comb[r][q], R.mod), R.mod);
            }
            int l = -1;
            for (size_t q = 0; q < D(); ++q) if (w[q]) { l = q; break; }
            if (l < 0) { c.resize(t + 1); u64 iv = n_invmod(c[t], R.p); for (auto &x : c) x = nmod_mul(x, iv, R.mod); return c; }
            u64 iv = n_invmod(w[l], R.p);
            for (auto &x : w) x = nmod_mul(x, iv, R.mod);
            for (auto &x : c) x = nmod_mul(x, iv, R.mod);
            rows.push_back(w); comb.push_back(c); lead.push_back(l);
            v = apply(lin, v);
        }
        throw Inc{"minpoly"};
    }
};
static long sqfree_deg(const vector<u64> &w, u64 p)
{   // degree of the radical of w over GF(p)
    nmod_poly_t f; nmod_poly_init(f, p);
    for (size_t i = 0; i < w.size(); ++i) nmod_poly_set_coeff_ui(f, i, w[i]);
    nmod_poly_factor_t fac; nmod_poly_factor_init(fac);
    nmod_poly_factor_squarefree(fac, f);
    long d = 0;
    for (slong i = 0; i < fac->num; ++i) d += nmod_poly_degree(fac->p + i);
    nmod_poly_factor_clear(fac); nmod_poly_clear(f);
    return d;
}
struct Info { int dimc; long D = 0, delta = 0; long elems = 0; };
static Info info_mod(const System &S, u64 p, bool want_delta, size_t lim = 700)
{
    Ring R(S.vars.size(), 0, p);
    Engine E(R);
    vector<MP> in;
    for (auto &g : S.gens) in.push_back(mp_from(R, g));
    E.run(in);
    Info I; I.dimc = E.dimclass(); I.elems = E.G.size();
    if (I.dimc == 0) {
        if (!want_delta) { I.D = E.staircase(lim).size(); return I; }
        Quot Qt(R, E, lim);
        I.D = Qt.D();
        for (int t = 0; t < 3; ++t) {
            vector<u64> lin(R.nv);
            for (auto &x : lin) x = rnd() % p;
            auto mp = Qt.minpoly(lin);
            I.delta = max(I.delta, sqfree_deg(mp, p));
        }
    }
    return I;
}
static string cmd_info(const Args &a)
{
    System S = parse_system(a.get("in"));
    u64 p = S.ch ? S.ch : rand_prime60();
    Info I = info_mod(S, p, a.num("delta", 1));
    return "OK dimc=" + to_string(I.dimc) + " D=" + to_string(I.D) + " delta=" + to_string(I.delta) + " elems=" + to_string(I.elems);
}

// ---------------------------------------------------------------- nested-list outputs
struct Node { bool list = false; string tok; vector<Node> ch; };
static Node parse_node(const string &s, size_t &i)
{
    auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) ++i; };
    ws();
    Node n;
    if (i < s.size() && s[i] == '[') {
        n.list = true; ++i;
        ws();
        if (i < s.size() && s[i] == ']') { ++i; return n; }
        for (;;) {
            n.ch.push_back(parse_node(s, i));
            ws();
            if (i >= s.size()) throw Bad{"output list is not closed"};
            if (s[i] == ',') { ++i; continue; }
            if (s[i] == ']') { ++i; return n; }
            throw Bad{"malformed output list near '" + s.substr(i, 20) + "'"};
        }
    }
    while (i < s.size() && s[i] != ',' && s[i] != ']' && s[i] != '[') { if (!isspace((unsigned char)s[i])) n.tok += s[i]; ++i; }
    if (n.tok.empty()) throw Bad{"empty token in output list"};
    return n;
}
static Node parse_out(const string &file)
{
    string s = slurp(file);
    size_t i = 0;
    Node n = parse_node(s, i);
    string rest = strip(s.substr(i));
    if (rest != ":") throw Bad{"output does not end with ']:' but with '" + rest.substr(0, 30) + "'"};
    return n;
}
struct Z {
    fmpz_t v;
    Z() { fmpz_init(v); }
    Z(const Z &o) { fmpz_init(v); fmpz_set(v, o.v); }
    Z &operator=(const Z &o) { fmpz_set(v, o.v); return *this; }
    ~Z() { fmpz_clear(v); }
};
static Z num(const Node &n)
{
    Z z;
    if (n.list || fmpz_set_str(z.v, n.tok.c_str(), 10)) throw Bad{"integer expected, got '" + n.tok.substr(0, 30) + "'"};
    return z;
}
static long lnum(const Node &n) { Z z = num(n); if (!fmpz_fits_si(z.v)) throw Bad{"integer too large"}; return fmpz_get_si(z.v); }
typedef vector<Z> ZPoly;
static ZPoly upoly(const Node &n)
{   // [deg, [c0,...]]
    if (!n.list || n.ch.size() != 2 || !n.ch[1].list) throw Bad{"[deg,[coeffs]] expected"};
    long d = lnum(n.ch[0]);
    ZPoly P;
    for (auto &c : n.ch[1].ch) P.push_back(num(c));
    if (!((d == -1 && P.size() == 1 && fmpz_is_zero(P[0].v)) || (long)P.size() == d + 1))
        throw Bad{"polynomial announces degree " + to_string(d) + " but lists " + to_string(P.size()) + " coefficients"};
    return P;
}
struct Dyadic { Z n; long e = 0; };     // n / 2^e
static Dyadic dyadic(const Node &n)
{
    Dyadic d;
    string t = n.tok;
    size_t s = t.find('/');
    string a = t.substr(0, s);
    if (n.list || fmpz_set_str(d.n.v, a.c_str(), 10)) throw Bad{"bad endpoint '" + t.substr(0, 40) + "'"};
    if (s != string::npos) {
        string b = t.substr(s + 1);
        if (b.compare(0, 2, "2^") == 0) d.e = atol(b.c_str() + 2);
        else if (b == "2") d.e = 1;
        else if (b == "1") d.e = 0;
        else throw Bad{"endpoint denominator is not a power of two: " + b.substr(0, 40)};
    }
    return d;
}
typedef vector<pair<Dyadic,Dyadic>> Box;
struct SolOut {
    int kind = 9;            // -1 none, 1 infinite, 0 finite
    long nvout = 0;
    bool haspar = false, hasreal = false;
    u64 ch = 0; long D = 0;
    vector<string> vars;
    vector<string> lin;
    ZPoly w, wp;
    vector<ZPoly> v; vector<Z> c;
    vector<Box> boxes;
};
static vector<Box> parse_boxes(const Node &n)
{   // [1, [box,...]]
    if (!n.list || n.ch.size() != 2 || lnum(n.ch[0]) != 1 || !n.ch[1].list) throw Bad{"[1,[boxes]] expected"};
    vector<Box> r;
    for (auto &b : n.ch[1].ch) {
        if (!b.list) throw Bad{"box expected"};
        Box x;
        for (auto &iv : b.ch) {
            if (!iv.list || iv.ch.size() != 2) throw Bad{"interval expected"};
            x.push_back({dyadic(iv.ch[0]), dyadic(iv.ch[1])});
        }
        r.push_back(x);
    }
    return r;
}
static SolOut parse_sol(const string &file)
{
    Node n = parse_out(file);
    SolOut o;
    if (!n.list || n.ch.empty()) throw Bad{"list expected"};
    o.kind = lnum(n.ch[0]);
    if (o.kind == -1) { if (n.ch.size() != 1) throw Bad{"malformed [-1]"}; return o; }
    if (o.kind == 1) { if (n.ch.size() != 4 || lnum(n.ch[2]) != -1 || !n.ch[3].list || !n.ch[3].ch.empty()) throw Bad{"malformed positive-dimension answer"}; o.nvout = lnum(n.ch[1]); return o; }
    if (o.kind != 0) throw Bad{"unknown answer kind"};
    if (n.ch.size() < 2 || n.ch.size() > 3) throw Bad{"malformed answer"};
    const Node &p = n.ch[1];
    if (!p.list) throw Bad{"list expected"};
    if (p.ch.size() == 2) { if (n.ch.size() != 2) throw Bad{"malformed answer"}; o.boxes = parse_boxes(p); o.hasreal = true; return o; }
    if (p.ch.size() != 6) throw Bad{"parametrization has " + to_string(p.ch.size()) + " fields"};
    o.haspar = true;
    o.ch = fmpz_get_ui(num(p.ch[0]).v);
    o.nvout = lnum(p.ch[1]);
    o.D = lnum(p.ch[2]);
    for (auto &v : p.ch[3].ch) { string s = v.tok; if (s.size() < 2 || s[0] != '\'' || s.back() != '\'') throw Bad{"variable name expected"}; o.vars.push_back(s.substr(1, s.size() - 2)); }
    for (auto &v : p.ch[4].ch) o.lin.push_back(v.tok);
    const Node &q = p.ch[5];
    if (!q.list || q.ch.size() != 2 || lnum(q.ch[0]) != 1 || q.ch[1].ch.size() != 3) throw Bad{"malformed parametrization body"};
    o.w = upoly(q.ch[1].ch[0]);
    o.wp = upoly(q.ch[1].ch[1]);
    for (auto &e : q.ch[1].ch[2].ch) {
        if (!e.list || e.ch.empty()) throw Bad{"malformed coordinate"};
        o.v.push_back(upoly(e.ch[0]));
        Z c; fmpz_one(c.v);
        if (e.ch.size() == 2) c = num(e.ch[1]);
        else if (e.ch.size() != 1) throw Bad{"malformed coordinate"};
        o.c.push_back(c);
    }
    if ((long)o.vars.size() != o.nvout) throw Bad{"number of variables and variable list disagree"};
    if (o.v.size() + 1 != o.vars.size()) throw Bad{"parametrization has " + to_string(o.v.size()) + " coordinates for " + to_string(o.vars.size()) + " variables"};
    if (n.ch.size() == 3) { o.boxes = parse_boxes(n.ch[2]); o.hasreal = true; }
    return o;
}
// parametrization modulo p: returns "" if it describes exactly V(I) (delta: number of distinct solutions, -1 unknown)
static string check_param_mod(const System &S, const SolOut &o, u64 p, long delta)
{
    nmod_poly_t w, wp, t, u, inv, acc;
    vector<nmod_poly_struct> X(o.vars.size());
    struct Guard { vector<nmod_poly_struct*> g; ~Guard() { for (auto x : g) nmod_poly_clear(x); } } G;
    for (nmod_poly_struct *x : {(nmod_poly_struct*)w, (nmod_poly_struct*)wp, (nmod_poly_struct*)t, (nmod_poly_struct*)u, (nmod_poly_struct*)inv, (nmod_poly_struct*)acc}) { nmod_poly_init(x, p); G.g.push_back(x); }
    auto load = [&](nmod_poly_struct *f, const ZPoly &P) { nmod_poly_zero(f); for (size_t i = 0; i < P.size(); ++i) nmod_poly_set_coeff_ui(f, i, fmpz_fdiv_ui(P[i].v, p)); };
    load(w, o.w);
    load(wp, o.wp);
    if (nmod_poly_degree(w) != (slong)o.w.size() - 1) return "eliminating polynomial loses its leading coefficient";
    if (nmod_poly_degree(w) < 1) return "eliminating polynomial is constant";
    nmod_poly_derivative(t, w);
    nmod_poly_gcd(u, w, t);
    if (nmod_poly_degree(u) != 0) return "eliminating polynomial is not squarefree";
    if (S.ch == 0) { if (!nmod_poly_equal(t, wp)) return "second polynomial is not the derivative of the eliminating polynomial"; }
    else if (!nmod_poly_is_one(wp)) return "denominator over a prime field is not 1";
    if (nmod_poly_degree(wp) == 0 && S.ch) nmod_poly_one(inv);
    else if (!nmod_poly_invmod(inv, wp, w)) { if (nmod_poly_degree(w) == 1) { nmod_poly_set_coeff_ui(inv, 0, n_invmod(nmod_poly_get_coeff_ui(wp, 0), p)); } else return "derivative not invertible modulo the eliminating polynomial"; }
    int nvo = o.vars.size();
    for (auto &x : X) { nmod_poly_init(&x, p); G.g.push_back(&x); }
    auto oi = index_of(o.vars);
    for (int i = 0; i < nvo; ++i) {
        if (i + 1 == nvo) { nmod_poly_set_coeff_ui(&X[i], 1, 1); nmod_poly_rem(&X[i], &X[i], w); continue; }
        load(t, o.v[i]);
        nmod_poly_rem(t, t, w);
        nmod_poly_mulmod(&X[i], t, inv, w);
        u64 c = fmpz_fdiv_ui(o.c[i].v, p);
        if (!c) return "zero denominator of a coordinate";
        nmod_poly_scalar_mul_nmod(&X[i], &X[i], n_negmod(n_invmod(c, p), p));
    }
    vector<nmod_poly_struct *> byin(S.vars.size());
    for (size_t i = 0; i < S.vars.size(); ++i) { auto it = oi.find(S.vars[i]); if (it == oi.end()) return "variable " + S.vars[i] + " is missing from the parametrization"; byin[i] = &X[it->second]; }
    for (size_t g = 0; g < S.gens.size(); ++g) {
        nmod_poly_zero(acc);
        for (auto &q : S.gens[g]) {
            nmod_poly_zero(t); nmod_poly_set_coeff_ui(t, 0, fmpq_mod(q.c, p));
            for (size_t i = 0; i < q.e.size(); ++i) if (q.e[i]) {
                nmod_poly_powmod_ui_binexp(u, byin[i], q.e[i], w);
                nmod_poly_mulmod(t, t, u, w);
            }
            nmod_poly_add(acc, acc, t);
        }
        nmod_poly_rem(acc, acc, w);
        if (!nmod_poly_is_zero(acc)) return "generator " + to_string(g + 1) + " does not vanish on the parametrization";
    }
    // the extra variable, if any, is the announced linear form
    if (nvo == (int)S.vars.size() + 1) {
        if ((int)o.lin.size() != nvo) return "linear form has " + to_string(o.lin.size()) + " coefficients";
        nmod_poly_zero(acc);
        bool any = false;
        for (int i = 0; i < nvo; ++i) {
            string s = o.lin[i]; size_t sl = s.find('/');
            Z z; if (fmpz_set_str(z.v, s.substr(0, sl).c_str(), 10)) return "bad linear form";
            u64 c = fmpz_fdiv_ui(z.v, p);
            if (i + 1 == nvo && !c) return "new variable does not occur in the linear form";
            nmod_poly_scalar_mul_nmod(t, &X[i], c);
            nmod_poly_add(acc, acc, t);
        }
        if (!nmod_poly_is_zero(acc)) return "the announced linear form does not vanish on the parametrization";
    } else if (nvo != (int)S.vars.size()) return "unexpected number of variables";
    if (delta >= 0 && nmod_poly_degree(w) != delta) return "parametrization has " + to_string(nmod_poly_degree(w)) + " points, the system has " + to_string(delta) + " distinct solutions";
    return "";
}

// ---------------------------------------------------------------- real solutions
static void dy_arf(arf_t x, const Dyadic &d) { arf_set_fmpz(x, d.n.v); arf_mul_2exp_si(x, x, -d.e); }

static string check_boxes(const System &S, const SolOut &o, const vector<Box> &boxes, const vector<string> &names, long prec, string &stat, bool strict)
{   // o: a verified parametrization; names: the order of the coordinates in the boxes
    // o: a verified parametrization over Q
    fmpz_poly_t W, V;
    fmpz_poly_init(W); fmpz_poly_init(V);
    for (size_t i = 0; i < o.w.size(); ++i) fmpz_poly_set_coeff_fmpz(W, i, o.w[i].v);
    long d = fmpz_poly_degree(W);
    int nvo = o.vars.size(), nvi = S.vars.size();
    acb_ptr roots = _acb_vec_init(d);
    auto oi = index_of(o.vars);
    string res;
    vector<int> match;
    long maxw = -1000000000, relw = -1000000000;
    // width, order and shape of the boxes
    for (size_t b = 0; b < boxes.size() && res.empty(); ++b) {
        if ((int)boxes[b].size() != nvi) { res = "box has " + to_string(boxes[b].size()) + " coordinates for " + to_string(nvi) + " variables"; break; }
        for (int i = 0; i < nvi; ++i) {
            arf_t lo, hi; arf_init(lo); arf_init(hi);
            dy_arf(lo, boxes[b][i].first); dy_arf(hi, boxes[b][i].second);
            if (arf_cmp(lo, hi) > 0) res = "interval with left end above right end (box " + to_string(b + 1) + ", coordinate " + to_string(i + 1) + ")";
            arf_sub(hi, hi, lo, ARF_PREC_EXACT, ARF_RND_DOWN);
            if (!arf_is_zero(hi)) { slong e = arf_abs_bound_lt_2exp_si(hi); maxw = max<long>(maxw, e); arf_t q; arf_init(q); long g = 0; dy_arf(q, boxes[b][i].first); if (!arf_is_zero(q)) g = max<long>(g, arf_abs_bound_lt_2exp_si(q)); dy_arf(q, boxes[b][i].second); if (!arf_is_zero(q)) g = max<long>(g, arf_abs_bound_lt_2exp_si(q)); arf_clear(q); relw = max<long>(relw, e - g); }
            arf_clear(lo); arf_clear(hi);
        }
    }
    long nreal = -1;
    if (res.empty()) {
        bool done = false;
        for (slong wp = max<long>(256, 2 * prec + 128); wp <= 60000 && !done; wp *= 2) {
            arb_fmpz_poly_complex_roots(roots, W, 0, wp);
            vector<arb_ptr> pts;
            bool fine = true;
            arb_t num, den, t; arb_init(num); arb_init(den); arb_init(t);
            fmpz_poly_t dW; fmpz_poly_init(dW); fmpz_poly_derivative(dW, W);
            nreal = 0;
            for (long r = 0; r < d; ++r) if (arb_is_zero(acb_imagref(roots + r))) {
                ++nreal;
                arb_ptr x = _arb_vec_init(nvi);
                arb_fmpz_poly_evaluate_arb(den, dW, acb_realref(roots + r), 2 * wp);
                for (int i = 0; i < nvi; ++i) {
                    int k = oi.at(names[i]);
                    if (k + 1 == nvo) arb_set(x + i, acb_realref(roots + r));
                    else {
                        fmpz_poly_zero(V);
                        for (size_t q = 0; q < o.v[k].size(); ++q) fmpz_poly_set_coeff_fmpz(V, q, o.v[k][q].v);
                        arb_fmpz_poly_evaluate_arb(num, V, acb_realref(roots + r), 2 * wp);
                        arb_mul_fmpz(t, den, o.c[k].v, 2 * wp);
                        arb_div(x + i, num, t, 2 * wp);
                        arb_neg(x + i, x + i);
                    }
                    if (!arb_is_finite(x + i) || arb_rel_accuracy_bits(x + i) < 8) { // need smallness relative to boxes: radius bound
                        mag_t m; mag_init(m); mag_set(m, arb_radref(x + i));
                        if (mag_cmp_2exp_si(m, -prec - 40) > 0) fine = false;
                        mag_clear(m);
                    }
                }
                pts.push_back(x);
            }
            fmpz_poly_clear(dW); arb_clear(num); arb_clear(den); arb_clear(t);
            bool last = wp * 2 > 60000;
            // containment
            bool ambiguous = !fine;
            vector<vector<int>> in(pts.size(), vector<int>(boxes.size(), 0));
            if (fine)
            for (size_t q = 0; q < pts.size() && !ambiguous; ++q)
                for (size_t b = 0; b < boxes.size() && !ambiguous; ++b) {
                    int st = 1;
                    bool amb = false;
                    for (int i = 0; i < nvi && st; ++i) {
                        arf_t lo, hi; arf_init(lo); arf_init(hi);
                        dy_arf(lo, boxes[b][i].first); dy_arf(hi, boxes[b][i].second);
                        arb_t L, H; arb_init(L); arb_init(H);
                        arb_set_arf(L, lo); arb_set_arf(H, hi);
                        if (arb_lt(pts[q] + i, L) || arb_gt(pts[q] + i, H)) st = 0;
                        else if (!(arb_ge(pts[q] + i, L) && arb_le(pts[q] + i, H))) amb = true;   // straddles an end
                        arb_clear(L); arb_clear(H); arf_clear(lo); arf_clear(hi);
                    }
                    if (st && amb) {
                        // an enclosure that still straddles at high precision is taken to be the endpoint itself (closed boxes)
                        if (wp < 4 * prec + 2000) { ambiguous = true; break; }
                    }
                    in[q][b] = st;
                }
            if (!ambiguous) {
                done = true;
                if (res.empty()) {
                    // without strict: one box per solution, each holding its own, is enough (the boxes are
                    // rounded to the requested precision and may touch when solutions are closer than that)
                    bool matched = false;
                    if (!strict && boxes.size() == pts.size()) {
                        vector<int> mb(boxes.size(), -1);
                        function<bool(int, vector<char> &)> aug = [&](int q, vector<char> &seen) {
                            for (size_t b = 0; b < boxes.size(); ++b) if (in[q][b] && !seen[b]) { seen[b] = 1; if (mb[b] < 0 || aug(mb[b], seen)) { mb[b] = q; return true; } }
                            return false;
                        };
                        size_t k = 0;
                        for (size_t q = 0; q < pts.size(); ++q) { vector<char> seen(boxes.size(), 0); k += aug(q, seen); }
                        matched = k == pts.size();
                        long tot = 0; for (auto &v : in) for (int x : v) tot += x;
                        if (matched && tot > (long)pts.size()) stat += " touching=1";
                    }
                    if (!matched)
                    for (size_t b = 0; b < boxes.size() && res.empty(); ++b) {
                        int c = 0; for (size_t q = 0; q < pts.size(); ++q) c += in[q][b];
                        if (c == 0) res = "box " + to_string(b + 1) + " contains no real solution";
                        if (c > 1) res = "box " + to_string(b + 1) + " contains " + to_string(c) + " real solutions";
                    }
                    if (!matched)
                    for (size_t q = 0; q < pts.size() && res.empty(); ++q) {
                        int c = 0; for (size_t b = 0; b < boxes.size(); ++b) c += in[q][b];
                        if (c == 0) res = "a real solution lies in no box (" + to_string(pts.size()) + " real solutions, " + to_string(boxes.size()) + " boxes)";
                        if (c > 1) res = "a real solution lies in " + to_string(c) + " boxes";
                    }
                }
            }
            for (auto x : pts) _arb_vec_clear(x, nvi);
        }
        if (!done) { _acb_vec_clear(roots, d); fmpz_poly_clear(W); fmpz_poly_clear(V); throw Inc{"real root enclosures too coarse"}; }
    }
    _acb_vec_clear(roots, d); fmpz_poly_clear(W); fmpz_poly_clear(V);
    stat += " real=" + to_string(nreal) + " boxes=" + to_string(boxes.size()) + " maxw=" + to_string(maxw) + " relw=" + to_string(relw);
    return res;
}

// does the form that parametrizes the solutions take distinct values at distinct solutions, and is
// there a variable whose square is outside the monomial basis (msolve's own test skips it)?
static string sep_tag(const System &S, const SolOut &o, u64 p)
{
    int n = S.vars.size();
    Ring R(n + 1, 0, p);
    Engine E(R);
    vector<MP> in;
    vector<u64> lin(n + 1, 0);
    auto si = index_of(S.vars);
    bool ext = (int)o.vars.size() == n + 1;
    System T; T.ch = S.ch; T.vars = o.vars;
    if (!ext) {   // order of the printed variables
        if ((int)o.vars.size() != n) return "";
    }
    // system in the printed variables, with the extra variable tied to the announced form
    int nvo = o.vars.size();
    auto oi = index_of(o.vars);
    for (auto &g : S.gens) {
        QPoly h;
        for (auto &t : g) { QTerm u; u.c = t.c; u.e.assign(nvo, 0); for (int i = 0; i < n; ++i) if (t.e[i]) { auto it = oi.find(S.vars[i]); if (it == oi.end()) return ""; u.e[it->second] = t.e[i]; } h.push_back(u); }
        T.gens.push_back(h);
    }
    if (ext) {
        if ((int)o.lin.size() != nvo) return "";
        QPoly h;
        for (int i = 0; i < nvo; ++i) {
            string c = o.lin[i]; size_t sl = c.find('/');
            QTerm u; if (fmpz_set_str(fmpq_numref(u.c.v), c.substr(0, sl).c_str(), 10)) return "";
            u.e.assign(nvo, 0); u.e[i] = 1;
            if (!fmpz_is_zero(fmpq_numref(u.c.v))) h.push_back(u);
        }
        T.gens.push_back(h);
    }
    Ring R2(nvo, 0, p);
    Engine E2(R2);
    vector<MP> in2;
    for (auto &g : T.gens) in2.push_back(mp_from(R2, g));
    E2.run(in2);
    if (E2.dimclass() != 0) return "";
    Quot Qt(R2, E2, 900);
    long delta = 0;
    for (int t = 0; t < 3; ++t) { vector<u64> l(nvo); for (auto &x : l) x = rnd() % p; delta = max(delta, sqfree_deg(Qt.minpoly(l), p)); }
    vector<u64> l(nvo, 0); l[nvo - 1] = 1;
    long vals = sqfree_deg(Qt.minpoly(l), p);
    bool miss = false;
    for (int k = 0; k + 1 < nvo; ++k) {
        Exp e(nvo, 0); e[k] = 1;
        bool lin1 = Qt.pos.count(R2.intern(e)) == 0;
        e[k] = 2;
        if (!lin1 && Qt.pos.count(R2.intern(e)) == 0) miss = true;
    }
    return string(" [") + (vals < delta ? "form-not-separating" : "form-separating") + (miss ? ",square-missing" : ",squares-present") + (ext ? ",ext" : ",noext") + "]";
}

// sol in= out= [box=file] prec= : decides dimension class, parametrization and boxes
static string cmd_sol(const Args &a)
{
    System S = parse_system(a.get("in"));
    SolOut o = parse_sol(a.get("out"));
    long prec = a.num("prec", 128);
    string last, stat;
    int tries = S.ch ? 1 : 3;
    bool nodelta = a.num("nodelta", 0);
    bool ok = false;
    for (int t = 0; t < tries && !ok; ++t) {
        u64 p = S.ch ? S.ch : rand_prime60();
        Info I = info_mod(S, p, !nodelta, a.num("lim", 700));
        stat = "dimc=" + to_string(I.dimc) + " D=" + to_string(I.D) + " delta=" + to_string(I.delta);
        last = "";
        if (o.kind != I.dimc) { last = string("answer says ") + (o.kind == -1 ? "no solution" : o.kind == 1 ? "infinitely many solutions" : "finitely many solutions") + ", the ideal has " + (I.dimc == -1 ? "no solution" : I.dimc == 1 ? "infinitely many" : "finitely many (" + to_string(I.D) + " with multiplicity)"); continue; }
        if (I.dimc == 1 && o.nvout != (long)S.vars.size()) { last = "wrong number of variables in the positive-dimensional answer"; continue; }
        if (I.dimc != 0) { ok = true; break; }
        if (o.haspar) {
            if (o.ch != S.ch) { last = "parametrization names characteristic " + to_string(o.ch); continue; }
            if (o.D != I.D) { last = "announced quotient dimension " + to_string(o.D) + ", actual " + to_string(I.D); continue; }
            last = check_param_mod(S, o, p, nodelta || p < 60000 ? -1 : I.delta);
            if (!last.empty()) { if (!nodelta) last += sep_tag(S, o, p); continue; }
        }
        ok = true;
    }
    if (!ok) return "BAD " + last + " (" + stat + ")";
    if (o.kind == 0 && S.ch == 0 && !a.num("nobox", 0)) {
        vector<Box> boxes; bool hb = false; vector<string> ord = S.vars;
        if (!a.get("box").empty()) { SolOut b = parse_sol(a.get("box")); if (b.kind != 0 || !b.hasreal) return "BAD no real solutions list in the second output"; boxes = b.boxes; hb = true; }
        else if (o.hasreal) { boxes = o.boxes; hb = true; ord = o.vars; ord.resize(S.vars.size()); }
        if (hb) {
            if (!o.haspar) return "INC boxes without parametrization";
            string r = check_boxes(S, o, boxes, ord, prec, stat, o.vars.size() == S.vars.size());
            if (!r.empty()) return "BAD " + r + " (" + stat + ")";
        }
    }
    stat += " par=" + to_string(o.haspar) + " nvo=" + to_string(o.nvout) + " wdeg=" + to_string((long)o.w.size() - 1);
    return "OK " + stat;
}

// exact check for large degrees: as many boxes as real roots, disjoint, each with a change of sign
static string check_signs(const SolOut &o, const vector<Box> &boxes, long prec, string &stat)
{
    fmpz_poly_t f; fmpz_poly_init(f);
    for (size_t i = 0; i < o.w.size(); ++i) fmpz_poly_set_coeff_fmpz(f, i, o.w[i].v);
    struct IV { fmpq_t lo, hi; int sl, sh; };
    vector<IV> v(boxes.size());
    string res;
    long relw = -1000000000, maxw = relw;
    for (size_t i = 0; i < boxes.size(); ++i) {
        fmpq_init(v[i].lo); fmpq_init(v[i].hi);
        if (boxes[i].size() != 1) { res = "box " + to_string(i + 1) + " does not have one coordinate"; continue; }
        arf_t lo, hi; arf_init(lo); arf_init(hi);
        dy_arf(lo, boxes[i][0].first); dy_arf(hi, boxes[i][0].second);
        arf_get_fmpq(v[i].lo, lo); arf_get_fmpq(v[i].hi, hi);
        if (arf_cmp(lo, hi) > 0) res = "interval with left end above right end (box " + to_string(i + 1) + ")";
        long g = 0;
        if (!arf_is_zero(lo)) g = max<long>(g, arf_abs_bound_lt_2exp_si(lo));
        if (!arf_is_zero(hi)) g = max<long>(g, arf_abs_bound_lt_2exp_si(hi));
        arf_sub(hi, hi, lo, ARF_PREC_EXACT, ARF_RND_DOWN);
        if (!arf_is_zero(hi)) { maxw = max<long>(maxw, arf_abs_bound_lt_2exp_si(hi)); relw = max<long>(relw, arf_abs_bound_lt_2exp_si(hi) - g); }
        arf_clear(lo); arf_clear(hi);
        fmpq_t y; fmpq_init(y);
        fmpz_poly_evaluate_fmpq(y, f, v[i].lo); v[i].sl = fmpq_sgn(y);
        fmpz_poly_evaluate_fmpq(y, f, v[i].hi); v[i].sh = fmpq_sgn(y);
        fmpq_clear(y);
        if (v[i].sl * v[i].sh > 0) res = "box " + to_string(i + 1) + " contains no real root or an even number of them";
    }
    vector<int> ix;
    for (size_t i = 0; i < v.size(); ++i) ix.push_back(i);
    sort(ix.begin(), ix.end(), [&](int x, int y) { return fmpq_cmp(v[x].lo, v[y].lo) < 0; });
    for (size_t i = 0; i + 1 < ix.size() && res.empty(); ++i) {
        int c = fmpq_cmp(v[ix[i]].hi, v[ix[i + 1]].lo);
        if (c > 0) res = "boxes overlap";
        if (c == 0 && v[ix[i]].sh == 0) res = "the same root in two boxes";
    }
    for (auto &x : v) { fmpq_clear(x.lo); fmpq_clear(x.hi); }
    fmpz_poly_clear(f);
    stat += " exact=1 maxw=" + to_string(maxw) + " relw=" + to_string(relw);
    return res;
}

// uni in= box= prec= : a univariate polynomial over Q, boxes in `box`
static string cmd_uni(const Args &a)
{
    System S = parse_system(a.get("in"));
    if (S.vars.size() != 1 || S.gens.size() != 1) return "INC not univariate";
    SolOut b = parse_sol(a.get("box").empty() ? a.get("out") : a.get("box"));
    // squarefree part as a trivial parametrization
    fmpz_poly_t f, g, h; fmpz_poly_init(f); fmpz_poly_init(g); fmpz_poly_init(h);
    Z den; fmpz_one(den.v);
    for (auto &t : S.gens[0]) fmpz_lcm(den.v, den.v, fmpq_denref(t.c.v));
    for (auto &t : S.gens[0]) { Z z; fmpz_divexact(z.v, den.v, fmpq_denref(t.c.v)); fmpz_mul(z.v, z.v, fmpq_numref(t.c.v)); fmpz_poly_set_coeff_fmpz(f, t.e[0], z.v); }
    if (fmpz_poly_degree(f) < 1) { fmpz_poly_clear(f); fmpz_poly_clear(g); fmpz_poly_clear(h); return "INC constant"; }
    fmpz_poly_derivative(g, f); fmpz_poly_gcd(h, f, g); bool squarefree = fmpz_poly_degree(h) == 0; fmpz_poly_div(f, f, h);
    fmpz_poly_primitive_part(f, f);
    SolOut o; o.kind = 0; o.haspar = true; o.vars = S.vars;
    for (slong i = 0; i <= fmpz_poly_degree(f); ++i) { Z z; fmpz_poly_get_coeff_fmpz(z.v, f, i); o.w.push_back(z); }
    slong nr = fmpz_poly_num_real_roots(f);
    fmpz_poly_clear(f); fmpz_poly_clear(g); fmpz_poly_clear(h);
    if (b.kind != 0 || !b.hasreal) return "BAD no list of real roots";
    string stat = "sturm=" + to_string(nr);
    if ((slong)b.boxes.size() != nr) return "BAD " + to_string(b.boxes.size()) + " boxes for " + to_string(nr) + " real roots";
    if (o.w.size() > 100 && !squarefree) return "INC large degree with multiple roots";
    string r = o.w.size() > 100 ? check_signs(o, b.boxes, a.num("prec", 128), stat) : check_boxes(S, o, b.boxes, S.vars, a.num("prec", 128), stat, squarefree);
    if (!r.empty()) return "BAD " + r + " (" + stat + ")";
    return "OK " + stat + " sqf=" + to_string((int)squarefree) + " wdeg=" + to_string((long)o.w.size() - 1);
}

// nf in= out= n= isgb= : normal forms of the last n generators
static string cmd_nf(const Args &a)
{
    System S = parse_system(a.get("in"));
    int n = a.num("n", 1), k = a.num("elim", 0);
    if (!S.ch || n <= 0 || n > (int)S.gens.size()) return "INC bad request";
    Ring R(S.vars.size(), k, S.ch);
    Engine E(R);
    vector<MP> in;
    for (size_t i = 0; i + n < S.gens.size(); ++i) in.push_back(mp_from(R, S.gens[i]));
    E.run(in);
    string s = slurp(a.get("out"));
    size_t i = 0;
    while (i < s.size() && s[i] == '#') { size_t e = s.find('\n', i); if (e == string::npos) return "BAD truncated header"; i = e + 1; }
    string b = strip(s.substr(i));
    if (b.size() < 3 || b[0] != '[' || b.substr(b.size() - 2) != "]:") return "BAD output is not a list of normal forms: " + b.substr(0, 60);
    b = b.substr(1, b.size() - 3);
    auto idx = index_of(S.vars);
    vector<QPoly> got;
    for (auto &p : split(b, ',')) { try { got.push_back(parse_poly(p, idx, S.vars.size())); } catch (Inc &x) { return "BAD unparsable normal form: " + x.s; } }
    if ((int)got.size() != n) return "BAD " + to_string(got.size()) + " normal forms printed, " + to_string(n) + " requested";
    long nz = 0, changed = 0;
    for (int j = 0; j < n; ++j) {
        MP f = mp_from(R, S.gens[S.gens.size() - n + j]);
        MP r = f.m.empty() ? f : (E.G.empty() ? f : E.nf1(f));
        MP g = mp_from(R, got[j]);
        if (!r.m.empty()) ++nz;
        if (r.m != f.m) ++changed;
        if (r.m != g.m || r.c != g.c) return "BAD normal form " + to_string(j + 1) + " is wrong (expected " + to_string(r.m.size()) + " terms, got " + to_string(g.m.size()) + ")";
    }
    return "OK nonzero=" + to_string(nz) + " changed=" + to_string(changed) + " gb=" + to_string(E.G.size()) + " n=" + to_string(n);
}

int main(int argc, char **argv)
{
    string line;
    if (getenv("ORACLE_OPS")) OPLIMIT = strtoull(getenv("ORACLE_OPS"), 0, 10);
    while (getline(cin, line)) {
        stringstream ss(line);
        string cmd, kv; ss >> cmd;
        Args a;
        while (ss >> kv) { size_t e = kv.find('='); if (e != string::npos) a.kv[kv.substr(0, e)] = kv.substr(e + 1); }
        OPS = 0;
        MAXDEG = a.num("maxdeg", 0);
        if (a.kv.count("ops")) OPLIMIT = strtoull(a.kv["ops"].c_str(), 0, 10);
        RS = 88172645463325252ULL + strtoull(a.get("seed", "0").c_str(), 0, 10) * 1000003ULL;
        string r;
        try {
            if (cmd == "gb") r = cmd_gb(a);
            else if (cmd == "sat") r = cmd_sat(a);
            else if (cmd == "refgb") r = cmd_refgb(a);
            else if (cmd == "info") r = cmd_info(a);
            else if (cmd == "sol") r = cmd_sol(a);
            else if (cmd == "uni") r = cmd_uni(a);
            else if (cmd == "nf") r = cmd_nf(a);
            else r = "INC unknown command";
        } catch (Bad &b) { r = "BAD " + b.s; }
        catch (Inc &b) { r = "INC " + b.s; }
        catch (exception &e) { r = string("INC exception ") + e.what(); }
        for (auto &c : r) if (c == '\n' || c == '\r') c = ' ';
        if (r.compare(0, 3, "INC")) r += " ops=" + to_string(OPS); cout << r << endl;
    }
}
