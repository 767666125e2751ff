// Emptiness of a polyhedron in exact rational arithmetic (the abstract domain's kernel operation).
// Text in, 0 (certainly empty) / 1 (not shown empty) / 2 (gave up) out.
#include <gmpxx.h>
#include <algorithm>
#include <cstdlib>
#include <map>
#include <vector>
#include <string>
using std::vector;
typedef std::map<int, mpq_class> Row;
struct Con { Row r; mpq_class c; bool strict; };

static bool is_int(const mpq_class &q) { return q.get_den() == 1; }

static int simplex(const vector<Con> &in, int nv) {
    // variables 0..nv-1 are free, nv+i is the i-th row's slack with a lower bound
    int m = in.size(), n = nv + m;
    vector<mpq_class> v0(n), v1(n), l0(n), l1(n);
    vector<char> low(n, 0);
    std::map<int, Row> tab;
    for (int i = 0; i < m; i++) {
        const Con &k = in[i];
        if (k.r.empty()) {
            if (k.c < 0 || (k.strict && k.c <= 0)) return 0;
            continue;
        }
        int s = nv + i;
        tab[s] = k.r;
        low[s] = 1;
        l0[s] = -k.c;
        l1[s] = k.strict ? 1 : 0;
    }
    auto less = [&](int v) { return v0[v] < l0[v] || (v0[v] == l0[v] && v1[v] < l1[v]); };
    for (int fuel = 3000; fuel; fuel--) {
        int b = -1;
        for (auto &t : tab) if (low[t.first] && less(t.first)) { b = t.first; break; }
        if (b < 0) return 1;
        Row row = tab[b];
        int e = -1;
        for (auto &t : row) {
            int x = t.first;
            if (t.second > 0 || !low[x] || v0[x] > l0[x] || (v0[x] == l0[x] && v1[x] > l1[x])) { e = x; break; }
        }
        if (e < 0) return 0;
        mpq_class a = row[e];
        mpq_class t0 = (l0[b] - v0[b]) / a, t1 = (l1[b] - v1[b]) / a;
        v0[b] = l0[b]; v1[b] = l1[b];
        v0[e] += t0; v1[e] += t1;
        tab.erase(b);
        Row nw;
        for (auto &t : row) if (t.first != e) nw[t.first] = -t.second / a;
        nw[b] = 1 / a;
        for (auto &t : tab) {
            auto it = t.second.find(e);
            if (it == t.second.end()) continue;
            mpq_class c = it->second;
            t.second.erase(it);
            v0[t.first] += c * t0; v1[t.first] += c * t1;
            for (auto &u : nw) {
                auto p = t.second.emplace(u.first, 0);
                p.first->second += c * u.second;
                if (p.first->second == 0) t.second.erase(p.first);
            }
        }
        tab[e] = nw;
    }
    return 2;
}

typedef vector<std::pair<int, mpz_class>> IRow;
struct ICon { IRow r; mpq_class c; bool strict; };
typedef std::map<IRow, std::pair<mpq_class, bool>> Tab;

static bool add(Tab &tab, const Con &k, const vector<char> *ints) {
    if (k.r.empty()) return !(k.c < 0 || (k.strict && k.c <= 0));
    mpz_class den = 1, g = 0;
    for (auto &t : k.r) mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), t.second.get_den_mpz_t());
    IRow r;
    for (auto &t : k.r) {
        mpz_class z = t.second.get_num() * (den / t.second.get_den());
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), z.get_mpz_t());
        r.emplace_back(t.first, z);
    }
    for (auto &t : r) mpz_divexact(t.second.get_mpz_t(), t.second.get_mpz_t(), g.get_mpz_t());
    mpq_class c = k.c * den / g;
    bool strict = k.strict;
    if (ints) {
        bool all = true;
        for (auto &t : r) all = all && (*ints)[t.first];
        if (all) {
            if (!is_int(c)) {
                mpz_class f;
                mpz_fdiv_q(f.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
                c = f;
                strict = false;
            } else if (strict) {
                c -= 1;
                strict = false;
            }
        }
    }
    auto it = tab.find(r);
    if (it == tab.end()) tab.emplace(r, std::make_pair(c, strict));
    else if (c < it->second.first || (c == it->second.first && strict && !it->second.second)) it->second = {c, strict};
    return true;
}

static int fm(const vector<Con> &in, const vector<char> *ints, int nv, size_t lim) {
    Tab cur;
    for (auto &k : in) if (!add(cur, k, ints)) return 0;
    while (!cur.empty()) {
        vector<long> p(nv, 0), q(nv, 0);
        for (auto &t : cur) for (auto &u : t.first) (u.second > 0 ? p : q)[u.first]++;
        int j = -1; long best = 0;
        for (int i = 0; i < nv; i++) if (p[i] || q[i]) {
            long s = p[i] * q[i] - p[i] - q[i];
            if (j < 0 || s < best) { best = s; j = i; }
        }
        vector<const Tab::value_type *> pos, neg;
        vector<mpz_class> pa, na;
        Tab nxt;
        for (auto &t : cur) {
            const mpz_class *a = nullptr;
            for (auto &u : t.first) if (u.first == j) a = &u.second;
            if (!a) nxt.insert(t);
            else if (*a > 0) { pos.push_back(&t); pa.push_back(*a); }
            else { neg.push_back(&t); na.push_back(-*a); }
        }
        if (pos.size() * neg.size() > lim) return 2;
        for (size_t i = 0; i < pos.size(); i++) for (size_t k = 0; k < neg.size(); k++) {
            mpz_class g;
            mpz_gcd(g.get_mpz_t(), pa[i].get_mpz_t(), na[k].get_mpz_t());
            mpz_class x = na[k] / g, y = pa[i] / g;
            Con n;
            for (auto &u : pos[i]->first) if (u.first != j) n.r[u.first] = u.second * x;
            for (auto &u : neg[k]->first) if (u.first != j) {
                mpq_class &z = n.r[u.first];
                z += u.second * y;
                if (z == 0) n.r.erase(u.first);
            }
            n.c = pos[i]->second.first * x + neg[k]->second.first * y;
            n.strict = pos[i]->second.second || neg[k]->second.second;
            if (!add(nxt, n, ints)) return 0;
        }
        cur.swap(nxt);
        if (cur.size() > lim) return 2;
    }
    return 1;
}

static mpq_class number(const char *&s) {
    while (*s == ' ') s++;
    const char *e = s;
    while (*e && *e != ' ') e++;
    mpq_class q(std::string(s, e - s));
    q.canonicalize();
    s = e;
    return q;
}
static long small(const char *&s) {
    char *e;
    long r = strtol(s, &e, 10);
    s = e;
    return r;
}

// "nvars int-flags... ncons { op(0 '=', 1 '>=', 2 '>') c0 k { var coef }* }*"
extern "C" int lp(const char *s) {
    int nv = small(s);
    vector<char> ints(nv);
    bool anyint = false;
    for (int i = 0; i < nv; i++) { ints[i] = small(s); anyint = anyint || ints[i]; }
    int nc = small(s);
    vector<Con> eqs, ineqs;
    for (int i = 0; i < nc; i++) {
        int op = small(s);
        Con k;
        k.c = number(s);
        int n = small(s);
        bool allint = is_int(k.c);
        for (int j = 0; j < n; j++) {
            int v = small(s);
            mpq_class c = number(s);
            if (c == 0) continue;
            allint = allint && is_int(c) && ints[v];
            k.r[v] = c;
        }
        k.strict = op == 2;
        if (op == 0) {
            if (allint && !k.r.empty()) {
                mpz_class g = 0;
                for (auto &t : k.r) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_num_mpz_t());
                if (g > 1 && k.c.get_num() % g != 0) return 0;
            }
            eqs.push_back(k);
        } else {
            if (allint && !k.r.empty()) {
                // over the integers: p > 0 is p >= 1, and the bound rounds to a multiple of the gcd
                if (k.strict) { k.c -= 1; k.strict = false; }
                mpz_class g = 0, f;
                for (auto &t : k.r) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_num_mpz_t());
                for (auto &t : k.r) t.second /= g;
                mpz_fdiv_q(f.get_mpz_t(), k.c.get_num_mpz_t(), g.get_mpz_t());
                k.c = f;
            }
            ineqs.push_back(k);
        }
    }
    while (!eqs.empty()) {
        Con k = eqs.back();
        eqs.pop_back();
        if (k.r.empty()) {
            if (k.c != 0) return 0;
            continue;
        }
        int p = k.r.begin()->first;
        if (anyint) {
            bool all = true;
            int unit = -1;
            for (auto &t : k.r) {
                all = all && ints[t.first] && is_int(t.second);
                if (unit < 0 && (t.second == 1 || t.second == -1)) unit = t.first;
            }
            if (all && unit >= 0) p = unit;
            if (!all) for (auto &t : k.r) if (!ints[t.first]) p = t.first;
        }
        mpq_class a = k.r[p];
        k.r.erase(p);
        for (auto *l : {&eqs, &ineqs}) for (auto &c : *l) {
            auto it = c.r.find(p);
            if (it == c.r.end()) continue;
            mpq_class f = it->second / a;
            c.r.erase(it);
            for (auto &t : k.r) {
                mpq_class &z = c.r[t.first];
                z -= f * t.second;
                if (z == 0) c.r.erase(t.first);
            }
            c.c -= f * k.c;
        }
    }
    int r = fm(ineqs, anyint ? &ints : nullptr, nv, anyint ? 4000 : 300);
    if (r == 2) r = simplex(ineqs, nv);
    return r;
}
