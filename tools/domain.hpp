// Abstract value domains of the IR value-flow analysis.
//
// Every floating-point value of the analysed program is represented by an abstract value.  Two
// domains are provided:
//
//  * DualDomain    - the algebraic value number of the expression (its image under a random
//                    homomorphism into the prime field GF(2^61-1), i.e. "random interpretation"
//                    global value numbering, Gulwani & Necula), together with its first-order
//                    derivative with respect to the infinitesimal coordinates of the inputs.
//  * SeriesDomain  - truncated Laurent series in one infinitesimal s, for the behaviour of the
//                    code as an operand approaches a degenerate element (zero rotation, ...).
//
// sin/cos/acos/sqrt are atoms constrained by their defining identities.  No input is ever given
// a concrete numeric value and no guard is handed to a solver: comparisons that the domain cannot
// order partition the analysis (trace partitioning).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>

typedef unsigned __int128 u128;
typedef uint64_t u64;
static const u64 P = (1ull << 61) - 1;

inline u64 f_red(u128 x) {
    u64 r = (u64)(x & P) + (u64)(x >> 61);
    if (r >= P) r -= P;
    return r;
}
inline u64 f_add(u64 a, u64 b) {
    u64 r = a + b;
    return r >= P ? r - P : r;
}
inline u64 f_sub(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
inline u64 f_neg(u64 a) { return a ? P - a : 0; }
inline u64 f_mul(u64 a, u64 b) { return f_red((u128)a * b); }
inline u64 f_pow(u64 a, u64 e) {
    u64 r = 1;
    while (e) {
        if (e & 1) r = f_mul(r, a);
        a = f_mul(a, a);
        e >>= 1;
    }
    return r;
}
inline u64 f_inv(u64 a) { return f_pow(a, P - 2); }
inline u64 f_div(u64 a, u64 b) { return f_mul(a, f_inv(b)); }
inline bool f_isqr(u64 a) { return a == 0 || f_pow(a, (P - 1) / 2) == 1; }
inline u64 f_sqrt(u64 a) { return f_pow(a, (P + 1) / 4); }
inline u64 f_int(int64_t k) { return k >= 0 ? (u64)k % P : f_neg((u64)(-k) % P); }

// small rational reconstruction: is the element num/den with small num, den ?
inline bool f_rational(u64 a, int64_t &num, int64_t &den, int64_t bound = 100000) {
    // extended Euclid
    int64_t r0 = (int64_t)P, r1 = (int64_t)a;
    __int128 t0 = 0, t1 = 1;
    while (r1 > bound) {
        int64_t q = r0 / r1;
        int64_t r2 = r0 - q * r1;
        __int128 t2 = t0 - (__int128)q * t1;
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    if (t1 == 0) return false;
    __int128 d = t1;
    int64_t n = r1;
    if (d < 0) {
        d = -d;
        n = -n;
    }
    if (d > bound) return false;
    num = n;
    den = (int64_t)d;
    return true;
}

// image of a floating-point literal: the simplest rational that rounds to it, otherwise its exact
// dyadic value
inline u64 f_const(double x) {
    if (x == 0) return 0;
    bool neg = x < 0;
    double ax = std::fabs(x);
    // continued fraction for simple rationals
    {
        double h0 = 0, h1 = 1, k0 = 1, k1 = 0, y = ax;
        for (int it = 0; it < 20; ++it) {
            double fl = std::floor(y);
            double h2 = fl * h1 + h0, k2 = fl * k1 + k0;
            if (h2 > 1e9 || k2 > 1e5) break;
            h0 = h1;
            h1 = h2;
            k0 = k1;
            k1 = k2;
            if (k1 != 0 && h1 / k1 == ax) {
                u64 r = f_div((u64)h1 % P, (u64)k1 % P);
                return neg ? f_neg(r) : r;
            }
            double fr = y - fl;
            if (fr < 1e-12) break;
            y = 1 / fr;
        }
    }
    // a single-precision literal: the simplest rational that rounds to it
    if ((double)(float)ax == ax) {
        double h0 = 0, h1 = 1, k0 = 1, k1 = 0, y = ax;
        for (int it = 0; it < 12; ++it) {
            double fl = std::floor(y), h2 = fl * h1 + h0, k2 = fl * k1 + k0;
            if (h2 > 5000 || k2 > 5000) break;
            h0 = h1;
            h1 = h2;
            k0 = k1;
            k1 = k2;
            if (k1 != 0 && h1 != 0 && (float)(h1 / k1) == (float)ax) {
                u64 r = f_div((u64)h1 % P, (u64)k1 % P);
                return neg ? f_neg(r) : r;
            }
            if (y - fl < 1e-9) break;
            y = 1 / (y - fl);
        }
    }
    int e;
    double m = std::frexp(ax, &e);
    u64 mi = (u64)std::ldexp(m, 53);
    e -= 53;
    u64 r = mi % P;
    u64 two = 2;
    if (e >= 0)
        r = f_mul(r, f_pow(two, e));
    else
        r = f_div(r, f_pow(two, -e));
    return neg ? f_neg(r) : r;
}

struct RetrySeed {};  // a square root fell outside the field: draw another homomorphism
struct Undecided {
    std::string why;
};

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 field() {
        u64 r;
        do r = next() >> 3;
        while (r >= P || r < 1000000);
        return r;
    }
};

typedef uint32_t fid;

enum : uint8_t { FL_NAN = 1, FL_UNDEF = 2, FL_NONNEG = 4, FL_INF = 8, FL_DUNK = 16 };

struct Decision {
    int choice;       // 0 / 1
    bool near;        // is this a guard against a tiny constant (degenerate-neighbourhood guard)
    double cst;       // the constant
    int valuation;    // order of the guarded quantity in s
    std::string where;
};

// Oracle deciding guards; supplied by the engine
struct Oracle {
    std::vector<Decision> taken;
    std::vector<int> script;  // forced choices
    std::string where;        // location of current instruction (for reports)
    int decide(bool near, double cst, int valuation) {
        size_t k = taken.size();
        int c = k < script.size() ? script[k] : 0;
        taken.push_back({c, near, cst, valuation, where});
        if (taken.size() > 48) throw Undecided{"too many unordered guards"};
        return c;
    }
};

struct Domain {
    Rng rng;
    Oracle *oracle;
    Domain(u64 seed, Oracle *o) : rng(seed), oracle(o) {}
    virtual ~Domain() {}
    virtual fid constant(double) = 0;
    virtual fid add(fid, fid) = 0;
    virtual fid sub(fid, fid) = 0;
    virtual fid mul(fid, fid) = 0;
    virtual fid div(fid, fid) = 0;
    virtual fid neg(fid) = 0;
    virtual fid sqrt(fid) = 0;
    virtual fid sin(fid) = 0;
    virtual fid cos(fid) = 0;
    virtual fid acos(fid) = 0;
    virtual fid asin(fid) = 0;
    virtual fid atan2(fid, fid) = 0;
    virtual fid opaque(const char *fn, const std::vector<fid> &args) = 0;
    // -1,0,1 ; may consult the oracle
    virtual int cmp(fid, fid) = 0;
    virtual bool equal(fid, fid) = 0;
    virtual std::string show(fid) = 0;
    virtual uint8_t flags(fid) = 0;
    virtual fid undef() = 0;
    virtual bool isConst(fid, double &) = 0;
    virtual fid withFlag(fid, uint8_t) = 0;
    virtual bool varies(fid) { return false; }  // has a derivative
    fid fabs(fid a) {
        if (flags(a) & (FL_NAN | FL_UNDEF)) return a;
        if (flags(a) & FL_NONNEG) return a;
        int c = cmp(a, constant(0));
        if (c == 0 && varies(a)) return withFlag(a, FL_NONNEG | FL_DUNK);
        return withFlag(c < 0 ? neg(a) : a, FL_NONNEG);
    }
};

// ---------------------------------------------------------------------------------------------
struct DualDomain : Domain {
    struct El {
        u64 v;
        int32_t d;  // index into darr, -1: zero derivative
        uint8_t fl;
        bool isc;
        double c;
        double lo, hi;  // interval component
    };
    std::vector<El> el;
    std::vector<u64> darr;
    std::unordered_map<u64, std::pair<double, double>> facts;  // bounds known for value numbers
    unsigned nd;
    u64 pi;
    std::map<double, fid> ccache;
    std::unordered_map<u64, u64> roots;       // x -> chosen sqrt
    std::vector<std::pair<u64, u64>> rootlist;
    std::unordered_map<u64, int> signs;       // value -> sign decided
    struct Angle {
        u64 u, c, s;
        bool principal;
    };
    std::vector<Angle> angles;
    std::map<std::string, u64> opaques;

    DualDomain(u64 seed, Oracle *o, unsigned nd_) : Domain(seed, o), nd(nd_) {
        el.reserve(1 << 16);
        pi = rng.field();
        // multiples of pi
        u64 c4 = f_sqrt(2);  // sqrt(2) exists in GF(2^61-1)
        u64 h = f_div(1, c4);
        signs[pi] = 1;
        signs[f_neg(pi)] = -1;
        noteRoot(f_mul(pi, pi), pi);
        angles.push_back({pi, P - 1, 0, true});
        angles.push_back({f_div(pi, 2), 0, 1, true});
        angles.push_back({f_div(pi, 4), h, h, true});
        angles.push_back({0, 1, 0, true});
        noteRoot(2, c4);
    }
    void noteRoot(u64 x, u64 r) {
        if (!roots.count(x)) {
            roots[x] = r;
            rootlist.push_back({x, r});
        }
    }
    fid mk(u64 v, int32_t d, uint8_t fl = 0, double lo = -INFINITY, double hi = INFINITY) {
        if (!facts.empty()) {
            auto it = facts.find(v);
            if (it != facts.end()) lo = std::max(lo, it->second.first), hi = std::min(hi, it->second.second);
        }
        if (lo >= 0) fl |= FL_NONNEG;
        if ((fl & FL_NONNEG) && lo < 0) lo = 0;
        el.push_back({v, d, fl, false, 0, lo, hi});
        return (fid)el.size() - 1;
    }
    void fact(u64 v, double lo, double hi) { facts[v] = {lo, hi}; }
    fid bound(fid r, double lo, double hi) {
        El &e = el[r];
        if (lo > e.lo) e.lo = lo;
        if (hi < e.hi) e.hi = hi;
        if (e.lo >= 0) e.fl |= FL_NONNEG;
        return r;
    }
    fid fresh(u64 v, int didx, uint8_t fl = 0) {
        if (didx < 0 || didx >= (int)nd) return mk(v, -1, fl);
        int32_t d = newd();
        darr[d + didx] = 1;
        return mk(v, d, fl);
    }
    int32_t newd() {
        int32_t d = (int32_t)darr.size();
        darr.resize(darr.size() + nd, 0);
        return d;
    }
    fid constant(double x) override {
        auto it = ccache.find(x);
        if (it != ccache.end() && !(x == 0 && std::signbit(x))) return it->second;
        fid r;
        if (std::isnan(x))
            r = mk(0, -1, FL_NAN);
        else if (std::isinf(x))
            r = mk(rng.field(), -1, FL_INF);
        else {
            u64 v;
            double q = x / M_PI;
            // multiples of pi
            double q4 = q * 4;
            if (q != 0 && std::fabs(q4) <= 16 && q4 == std::floor(q4) && std::fabs(q4) >= 1)
                v = f_mul(f_div(f_int((int64_t)q4), 4), pi);
            else
                v = f_const(x);
            r = mk(v, -1, x >= 0 ? FL_NONNEG : 0);
        }
        el[r].isc = true;
        el[r].c = x;
        if (!std::isnan(x)) el[r].lo = el[r].hi = x;
        if (!(x == 0 && std::signbit(x)) && !std::isnan(x)) ccache[x] = r;
        return r;
    }
    uint8_t flags(fid a) override { return el[a].fl; }
    fid withFlag(fid a, uint8_t f) override {
        El e = el[a];
        if ((e.fl | f) == e.fl) return a;
        e.fl |= f;
        el.push_back(e);
        return (fid)el.size() - 1;
    }
    fid undef() override { return mk(0, -1, FL_UNDEF); }
    bool varies(fid a) override { return el[a].d >= 0; }
    bool isConst(fid a, double &c) override {
        if (el[a].isc) {
            c = el[a].c;
            return true;
        }
        int64_t n, d;
        if (!(el[a].fl & (FL_NAN | FL_UNDEF | FL_INF)) && f_rational(el[a].v, n, d, 20000)) {
            c = (double)n / (double)d;
            return true;
        }
        return false;
    }
    uint8_t bad(fid a, fid b) { return (el[a].fl | el[b].fl) & (FL_NAN | FL_UNDEF | FL_DUNK); }
    fid lin(u64 v, fid a, u64 ka, fid b, u64 kb, uint8_t fl) {
        fl |= (el[a].fl | el[b].fl) & FL_DUNK;
        int32_t da = el[a].d, db = el[b].d;
        if (da < 0 && db < 0) return mk(v, -1, fl);
        int32_t d = newd();
        for (unsigned i = 0; i < nd; ++i) {
            u64 x = 0;
            if (da >= 0 && ka) x = ka == 1 ? darr[da + i] : f_mul(darr[da + i], ka);
            if (db >= 0 && kb) {
                u64 y = kb == 1 ? darr[db + i] : f_mul(darr[db + i], kb);
                x = f_add(x, y);
            }
            darr[d + i] = x;
        }
        return mk(v, d, fl);
    }
    fid uni(u64 v, fid a, u64 k, uint8_t fl) { return lin(v, a, k, a, 0, fl); }
    bool zero(fid a) { return el[a].v == 0 && el[a].d < 0 && !(el[a].fl & (FL_NAN | FL_UNDEF | FL_INF | FL_DUNK)); }
    fid cfold(fid r, fid a, fid b, double x) {
        if (el[a].isc && el[b].isc && std::isfinite(x)) {
            el[r].isc = true;
            el[r].c = x;
            el[r].lo = el[r].hi = x;
        }
        return r;
    }
    uint8_t infl(fid a, fid b) { return (el[a].fl | el[b].fl) & FL_INF; }
    fid add(fid a, fid b) override {
        if (zero(a)) return b;
        if (zero(b)) return a;
        uint8_t fl = bad(a, b) | (el[a].fl & el[b].fl & FL_NONNEG) | infl(a, b);
        return bound(cfold(lin(f_add(el[a].v, el[b].v), a, 1, b, 1, fl), a, b, el[a].c + el[b].c),
                     el[a].lo + el[b].lo, el[a].hi + el[b].hi);
    }
    fid sub(fid a, fid b) override {
        if (zero(b)) return a;
        return bound(cfold(lin(f_sub(el[a].v, el[b].v), a, 1, b, P - 1, bad(a, b) | infl(a, b)),
                           a, b, el[a].c - el[b].c),
                     el[a].lo - el[b].hi, el[a].hi - el[b].lo);
    }
    fid mul(fid a, fid b) override {
        uint8_t fl = bad(a, b) | infl(a, b);
        if (el[a].v == el[b].v || (el[a].fl & el[b].fl & FL_NONNEG)) fl |= FL_NONNEG;
        if (a == b || el[a].v == el[b].v) noteRootLazy(a);
        fid r = cfold(lin(f_mul(el[a].v, el[b].v), a, el[b].v, b, el[a].v, fl), a, b, el[a].c * el[b].c);
        double lo = INFINITY, hi = -INFINITY;
        for (double x : {el[a].lo, el[a].hi})
            for (double y : {el[b].lo, el[b].hi}) {
                double z = x == 0 || y == 0 ? 0 : x * y;
                lo = std::min(lo, z);
                hi = std::max(hi, z);
            }
        return bound(r, lo, hi);
    }
    void noteRootLazy(fid a) {
        // x*x has root |x|: remember when the sign of x is known
        if (el[a].fl & FL_NONNEG) noteRoot(f_mul(el[a].v, el[a].v), el[a].v);
    }
    fid div(fid a, fid b) override {
        uint8_t fl = bad(a, b) | infl(a, b);
        if (el[b].v == 0) {
            if (fl & FL_UNDEF) return mk(0, -1, FL_UNDEF);
            if (el[a].v == 0) return mk(0, -1, FL_NAN);
            return mk(rng.field(), -1, FL_INF);
        }
        if (el[a].fl & el[b].fl & FL_NONNEG) fl |= FL_NONNEG;
        u64 ib = f_inv(el[b].v);
        u64 v = f_mul(el[a].v, ib);
        fid r = cfold(lin(v, a, ib, b, f_neg(f_mul(v, ib)), fl), a, b, el[a].c / el[b].c);
        if (el[b].lo > 0 && std::isfinite(el[b].hi)) {
            double lo = INFINITY, hi = -INFINITY;
            for (double x : {el[a].lo, el[a].hi})
                for (double y : {el[b].lo, el[b].hi}) {
                    lo = std::min(lo, x / y);
                    hi = std::max(hi, x / y);
                }
            bound(r, lo, hi);
        }
        return r;
    }
    fid neg(fid a) override {
        fid r = uni(f_neg(el[a].v), a, P - 1, el[a].fl & ~FL_NONNEG);
        return bound(cfold(r, a, a, -el[a].c), -el[a].hi, -el[a].lo);
    }
    u64 root(u64 x) {
        auto it = roots.find(x);
        if (it != roots.end()) return it->second;
        for (auto &pr : rootlist) {
            if (pr.first == 0) continue;
            u64 q = f_div(x, pr.first);
            int64_t n, d;
            if (f_rational(q, n, d, 3000) && n > 0) {
                int64_t a = (int64_t)std::llround(std::sqrt((double)n)),
                        b = (int64_t)std::llround(std::sqrt((double)d));
                if (a * a == n && b * b == d) {
                    u64 r = f_mul(pr.second, f_div(f_int(a), f_int(b)));
                    noteRoot(x, r);
                    return r;
                }
            }
        }
        int64_t n, d;
        if (f_rational(x, n, d, 20000) && n > 0) {
            int64_t a = (int64_t)std::llround(std::sqrt((double)n)),
                    b = (int64_t)std::llround(std::sqrt((double)d));
            if (a * a == n && b * b == d) {
                u64 r = f_div(f_int(a), f_int(b));
                noteRoot(x, r);
                return r;
            }
        }
        if (!f_isqr(x)) throw RetrySeed{};
        u64 r = f_sqrt(x);
        // honour known signs
        auto s = signs.find(r);
        if (s != signs.end() && s->second < 0) r = f_neg(r);
        noteRoot(x, r);
        return r;
    }
    fid sqrt(fid a) override {
        uint8_t fl = el[a].fl & (FL_NAN | FL_UNDEF | FL_INF);
        if (fl) return mk(0, -1, fl);
        if (el[a].isc && el[a].c < 0) return mk(0, -1, FL_NAN);
        u64 r = root(el[a].v);
        signs[r] = 1;
        signs[f_neg(r)] = -1;
        if (r == 0) {
            // the derivative of sqrt does not exist at 0
            fid z = mk(0, -1, FL_NONNEG | (el[a].d >= 0 ? FL_DUNK : 0) | (el[a].fl & FL_DUNK), 0, 0);
            el[z].isc = true;
            el[z].c = 0;
            return z;
        }
        fid q = uni(r, a, f_inv(f_add(r, r)), FL_NONNEG);
        if (el[a].isc) {
            el[q].isc = true;
            el[q].c = std::sqrt(el[a].c);
        }
        return q;
    }
    Angle angle(u64 v) {
        for (auto &a : angles)
            if (a.u == v) return a;
        for (size_t k = 0; k < angles.size(); ++k) {
            Angle a = angles[k];
            if (a.u == 0) continue;
            if (f_neg(a.u) == v) return remember({v, a.c, f_neg(a.s), false});
            if (f_add(a.u, a.u) == v)
                return remember({v, f_sub(f_mul(a.c, a.c), f_mul(a.s, a.s)), f_mul(2, f_mul(a.c, a.s)), false});
            if (f_neg(f_add(a.u, a.u)) == v) {
                Angle b = angle(f_neg(v));
                return remember({v, b.c, f_neg(b.s), false});
            }
            if (f_add(v, v) == a.u) {  // half angle
                u64 c = root(f_div(f_add(1, a.c), 2));
                if (c == 0) continue;
                u64 s = f_div(a.s, f_add(c, c));
                return remember({v, c, s, false});
            }
            if (f_add(f_add(v, v), a.u) == 0) {
                Angle b = angle(f_neg(v));
                return remember({v, b.c, f_neg(b.s), false});
            }
            // offsets by multiples of pi / pi/2
            for (int q = -4; q <= 4; ++q) {
                if (q == 0) continue;
                u64 off = f_mul(f_div(f_int(q), 2), pi);
                if (f_add(a.u, off) == v || f_sub(off, a.u) == v) {
                    bool flip = f_add(a.u, off) != v;
                    u64 c = a.c, s = flip ? f_neg(a.s) : a.s;
                    int m = ((q % 4) + 4) % 4;
                    u64 nc, ns;
                    if (m == 0) nc = c, ns = s;
                    else if (m == 1) nc = f_neg(s), ns = c;
                    else if (m == 2) nc = f_neg(c), ns = f_neg(s);
                    else nc = s, ns = f_neg(c);
                    return remember({v, nc, ns, false});
                }
            }
        }
        u64 t = rng.field();
        u64 t2 = f_mul(t, t);
        u64 den = f_inv(f_add(1, t2));
        u64 c = f_mul(f_sub(1, t2), den), s = f_mul(f_add(t, t), den);
        u64 u = f_div(v, 4);
        angles.push_back({u, c, s, false});
        for (int i = 0; i < 2; ++i) {
            u64 nc = f_sub(f_mul(c, c), f_mul(s, s)), ns = f_mul(2, f_mul(c, s));
            c = nc;
            s = ns;
            u = f_add(u, u);
            angles.push_back({u, c, s, false});
        }
        return angles.back();
    }
    Angle remember(Angle a) {
        angles.push_back(a);
        return a;
    }
    fid sin(fid a) override {
        uint8_t fl = el[a].fl & (FL_NAN | FL_UNDEF);
        if (fl) return mk(0, -1, fl);
        if (zero(a)) return constant(0);
        Angle g = angle(el[a].v);
        return bound(uni(g.s, a, g.c, 0), -1, 1);
    }
    fid cos(fid a) override {
        uint8_t fl = el[a].fl & (FL_NAN | FL_UNDEF);
        if (fl) return mk(0, -1, fl);
        if (zero(a)) return constant(1);
        Angle g = angle(el[a].v);
        return bound(uni(g.c, a, f_neg(g.s), 0), -1, 1);
    }
    fid acos(fid a) override {
        uint8_t fl = el[a].fl & (FL_NAN | FL_UNDEF | FL_INF);
        if (fl) return mk(0, -1, FL_NAN | fl);
        double c;
        if (isConst(a, c)) {
            // the derivative of acos does not exist at +-1
            if (std::fabs(c) == 1) {
                fid z = constant(c == 1 ? 0 : M_PI);
                return el[a].d >= 0 ? withFlag(z, FL_DUNK) : z;
            }
            if (c == 0 && el[a].d < 0) return constant(M_PI / 2);
            if (c != 0 && el[a].d < 0 && !f_isqr(f_sub(1, f_mul(el[a].v, el[a].v)))) {
                // a constant angle whose sine is outside the field: nothing is known about it
                fid z = opaque("acos", {a});
                signs[el[z].v] = 1;
                signs[f_neg(el[z].v)] = -1;
                return bound(z, 0, M_PI);
            }
        }
        u64 x = el[a].v;
        for (auto &g : angles)
            if (g.principal && g.c == x && g.s) return uni(g.u, a, f_neg(f_inv(g.s)), FL_NONNEG);
        for (auto &g : angles) {
            // an angle that is a norm (positive) counts as principal
            auto it = signs.find(g.u);
            if (g.c == x && g.s && it != signs.end() && it->second > 0) {
                return uni(g.u, a, f_neg(f_inv(g.s)), FL_NONNEG);
            }
        }
        u64 u = 0, s = 0;
        bool found = false;
        for (size_t k = 0; k < angles.size() && !found; ++k) {
            Angle g = angles[k];
            if (!g.principal || !g.s) continue;
            if (f_sub(f_add(f_mul(x, x), f_mul(x, x)), 1) == g.c && g.c != x) {  // half of a known angle
                u = f_div(g.u, 2);
                s = f_div(g.s, f_add(x, x));
                found = true;
            } else if (f_sub(f_add(f_mul(g.c, g.c), f_mul(g.c, g.c)), 1) == x) {  // its double
                u = f_add(g.u, g.u);
                s = f_mul(f_add(g.s, g.s), g.c);
                found = true;
            }
        }
        if (!found) {
            s = root(f_sub(1, f_mul(x, x)));
            u = rng.field();
        }
        angles.push_back({u, x, s, true});
        signs[u] = 1;
        signs[f_neg(u)] = -1;
        return bound(uni(u, a, f_neg(f_inv(s)), FL_NONNEG), 0, M_PI);
    }
    fid asin(fid a) override { return sub(div(constant(M_PI), constant(2)), acos(a)); }
    fid atan2(fid y, fid x) override {
        uint8_t fl = bad(x, y) & (FL_NAN | FL_UNDEF);
        if (fl) return mk(0, -1, fl);
        fid r = sqrt(add(mul(x, x), mul(y, y)));
        if (el[r].v == 0) {
            return mk(0, -1, el[x].d >= 0 || el[y].d >= 0 ? FL_DUNK : 0);
        }
        fid c = div(x, r), s = div(y, r);
        u64 u = 0;
        bool found = false;
        for (auto &g : angles)
            if (g.c == el[c].v && g.s == el[s].v && g.principal) {
                u = g.u;
                found = true;
                break;
            }
        if (!found)
            for (auto &g : angles)
                if (g.c == el[c].v && g.s == el[s].v) {
                    u = g.u;
                    found = true;
                    break;
                }
        u64 cv = el[c].v, sv = el[s].v;
        for (size_t k = 0; k < angles.size() && !found; ++k) {
            Angle g = angles[k];
            if (!g.principal || !g.s) continue;
            if (f_sub(f_mul(cv, cv), f_mul(sv, sv)) == g.c && f_mul(2, f_mul(cv, sv)) == g.s) {
                u = f_div(g.u, 2);
                found = true;
                angles.push_back({u, cv, sv, true});
            } else if (f_sub(f_mul(g.c, g.c), f_mul(g.s, g.s)) == cv && f_mul(2, f_mul(g.c, g.s)) == sv) {
                u = f_add(g.u, g.u);
                found = true;
                angles.push_back({u, cv, sv, true});
            }
        }
        if (!found) {
            u = rng.field();
            angles.push_back({u, cv, sv, true});
        }
        // du = c ds - s dc
        return lin(u, s, el[c].v, c, f_neg(el[s].v), (el[y].fl & FL_NONNEG));
    }
    fid opaque(const char *fn, const std::vector<fid> &args) override {
        std::string k = fn;
        uint8_t fl = 0;
        for (auto a : args) {
            k += "," + std::to_string(el[a].v);
            fl |= el[a].fl & (FL_NAN | FL_UNDEF);
        }
        auto it = opaques.find(k);
        if (it == opaques.end()) it = opaques.emplace(k, rng.field()).first;
        return mk(it->second, -1, fl);
    }
    int known(u64 v) const {
        auto it = signs.find(v);
        return it == signs.end() ? 0 : it->second;
    }
    // is v positive because it is a sum or product of at most `depth` + 1 quantities of known sign?
    bool positive(u64 v, int depth, const std::vector<std::pair<u64, u64>> &pos) {
        if (known(v) > 0) return true;
        if (depth == 0) return false;
        for (auto &x : pos)
            if (positive(f_sub(v, x.first), depth - 1, pos) || positive(f_mul(v, x.second), depth - 1, pos)) return true;
        return false;
    }
    int signOf(u64 v) {
        if (int s = known(v)) return s;
        u64 iv = f_inv(v);
        for (auto &s : signs) {
            int64_t n, d;
            if (f_rational(f_mul(s.first, iv), n, d, 64) && n) return n > 0 ? s.second : -s.second;
        }
        // what the signs already known imply
        std::vector<std::pair<u64, u64>> pos;
        for (auto &s : signs)
            if (s.second > 0 && s.first) pos.push_back({s.first, inverse(s.first)});
        const int depth = pos.size() <= 48 ? 2 : 1;
        int r = positive(v, depth, pos) ? 1 : positive(f_neg(v), depth, pos) ? -1 : 0;
        if (r) {
            signs[v] = r;
            signs[f_neg(v)] = -r;
        }
        return r;
    }
    std::unordered_map<u64, u64> invs;
    u64 inverse(u64 v) {
        auto it = invs.find(v);
        return it == invs.end() ? invs[v] = f_inv(v) : it->second;
    }
    // a chain of comparisons already decided
    std::unordered_map<u64, std::vector<u64>> above;
    void order(u64 a, u64 b, int s) { s < 0 ? above[a].push_back(b) : above[b].push_back(a); }
    bool below(u64 a, u64 b) {
        std::vector<u64> todo{a};
        std::set<u64> seen{a};
        while (!todo.empty()) {
            u64 x = todo.back();
            todo.pop_back();
            auto it = above.find(x);
            if (it == above.end()) continue;
            for (u64 y : it->second) {
                if (y == b) return true;
                if (seen.insert(y).second) todo.push_back(y);
            }
        }
        return false;
    }
    int cmp(fid a, fid b) override {
        double ca, cb;
        bool ka = isConst(a, ca), kb = isConst(b, cb);
        if (ka && kb) return ca < cb ? -1 : ca > cb ? 1 : 0;
        u64 df = f_sub(el[a].v, el[b].v);
        if (df == 0) return 0;
        if (el[a].fl & FL_INF || el[b].fl & FL_INF) throw Undecided{"comparison with infinity"};
        if (el[a].hi <= el[b].lo) return -1;  // generic position: not equal
        if (el[a].lo >= el[b].hi) return 1;
        if (kb && std::fabs(cb) < 1e-3) {
            if (el[a].fl & FL_NONNEG) return 1;
            // generic position: compare with zero
            if (int s = signOf(el[a].v)) return s;
            int s = oracle->decide(false, 0, 0) ? -1 : 1;
            signs[el[a].v] = s;
            signs[f_neg(el[a].v)] = -s;
            return s;
        }
        if (ka && std::fabs(ca) < 1e-3) return -cmp(b, a);
        if (below(el[a].v, el[b].v)) return -1;
        if (below(el[b].v, el[a].v)) return 1;
        if (int s = signOf(df)) return s;
        if (kb && cb < 0 && (el[a].fl & FL_NONNEG)) return 1;
        if (ka && ca < 0 && (el[b].fl & FL_NONNEG)) return -1;
        // clamps to [-1,1]: a quantity with 1-x^2 a square is taken to be a cosine
        if (kb && std::fabs(cb) == 1 && f_isqr(f_sub(1, f_mul(el[a].v, el[a].v)))) return cb > 0 ? -1 : 1;
        if (ka && std::fabs(ca) == 1 && f_isqr(f_sub(1, f_mul(el[b].v, el[b].v)))) return ca > 0 ? 1 : -1;
        // huge constants (overflow guards)
        if (kb && std::fabs(cb) > 1e30) return cb > 0 ? -1 : 1;
        if (ka && std::fabs(ca) > 1e30) return ca > 0 ? 1 : -1;
        int s = oracle->decide(false, 0, 0) ? -1 : 1;
        signs[df] = s;
        signs[f_neg(df)] = -s;
        order(el[a].v, el[b].v, s);
        return s;
    }
    bool equal(fid a, fid b) override { return el[a].v == el[b].v; }
    u64 dval(fid a, unsigned i) { return el[a].d < 0 ? 0 : darr[el[a].d + i]; }
    std::string show(fid a) override {
        if (el[a].fl & FL_UNDEF) return "uninitialised";
        if (el[a].fl & FL_NAN) return "NaN";
        if (el[a].fl & FL_INF) return "inf";
        double c;
        if (isConst(a, c)) {
            char buf[40];
            snprintf(buf, sizeof buf, "%g", c);
            return buf;
        }
        char buf[40];
        snprintf(buf, sizeof buf, "#%016llx", (unsigned long long)el[a].v);
        return buf;
    }
};

// ---------------------------------------------------------------------------------------------
// truncated Laurent series sum_{k>=val} c_k s^k, K coefficients kept
struct SeriesDomain : Domain {
    static const int K = 10;
    struct El {
        int val;
        u64 c[K];
        uint8_t fl;
        bool zero;  // exactly zero
        bool isc;
        double cst;
    };
    std::vector<El> el;
    std::map<double, fid> ccache;
    std::unordered_map<u64, u64> roots;
    DualDomain atoms;  // for constants terms
    std::map<std::string, int> signs;
    struct Ang {
        El u, c;
    };
    std::vector<Ang> acosTab;

    SeriesDomain(u64 seed, Oracle *o) : Domain(seed, o), atoms(seed ^ 0x5555, o, 0) {}
    fid put(const El &e) {
        el.push_back(e);
        return (fid)el.size() - 1;
    }
    static El zeroEl() {
        El e;
        e.val = 0;
        memset(e.c, 0, sizeof e.c);
        e.fl = FL_NONNEG;
        e.zero = true;
        e.isc = true;
        e.cst = 0;
        return e;
    }
    El fromField(u64 v) {
        El e = zeroEl();
        if (v) {
            e.c[0] = v;
            e.zero = false;
            e.isc = false;
            e.fl = 0;
        }
        return e;
    }
    El norm(El e) {
        if (e.fl & (FL_NAN | FL_UNDEF | FL_INF)) return e;
        if (e.zero) return e;
        int k = 0;
        while (k < K && e.c[k] == 0) ++k;
        if (k == K) {
            // vanished to the kept order
            int v = e.val + K;
            uint8_t fl = e.fl;
            e = zeroEl();
            e.zero = true;
            e.isc = false;
            (void)v;
            (void)fl;
            return e;
        }
        if (k) {
            for (int i = 0; i < K; ++i) e.c[i] = i + k < K ? e.c[i + k] : 0;
            e.val += k;
        }
        return e;
    }
    fid constant(double x) override {
        auto it = ccache.find(x);
        if (it != ccache.end()) return it->second;
        El e = zeroEl();
        if (std::isnan(x))
            e.fl = FL_NAN, e.zero = false;
        else if (std::isinf(x))
            e.fl = FL_INF, e.zero = false;
        else if (x != 0) {
            e.zero = false;
            e.c[0] = atoms.el[atoms.constant(x)].v;
            e.fl = x > 0 ? FL_NONNEG : 0;
        }
        e.isc = true;
        e.cst = x;
        fid r = put(e);
        if (!std::isnan(x)) ccache[x] = r;
        return r;
    }
    uint8_t flags(fid a) override { return el[a].fl; }
    fid withFlag(fid a, uint8_t f) override {
        El e = el[a];
        e.fl |= f;
        return put(e);
    }
    fid undef() override {
        El e = zeroEl();
        e.fl = FL_UNDEF;
        e.zero = false;
        e.isc = false;
        return put(e);
    }
    bool isConst(fid a, double &c) override {
        const El &e = el[a];
        if (e.fl & (FL_NAN | FL_UNDEF | FL_INF)) return false;
        if (e.isc) {
            c = e.cst;
            return true;
        }
        if (e.zero) {
            c = 0;
            return true;
        }
        if (e.val != 0) return false;
        for (int i = 1; i < K; ++i)
            if (e.c[i]) return false;
        int64_t n, d;
        if (!f_rational(e.c[0], n, d, 20000)) return false;
        c = (double)n / (double)d;
        return true;
    }
    fid badf(fid a, fid b) {
        El e = zeroEl();
        e.zero = false;
        e.isc = false;
        e.fl = (el[a].fl | el[b].fl) & (FL_NAN | FL_UNDEF | FL_INF);
        return put(e);
    }
    bool isbad(fid a) { return el[a].fl & (FL_NAN | FL_UNDEF | FL_INF); }
    El addE(const El &a, const El &b, bool negb) {
        if (b.zero) return a;
        El r = zeroEl();
        r.zero = false;
        r.isc = false;
        int v = a.zero ? b.val : std::min(a.val, b.val);
        r.val = v;
        r.fl = negb ? 0 : (a.fl & b.fl & FL_NONNEG);
        for (int i = 0; i < K; ++i) {
            u64 x = 0;
            if (!a.zero) {
                int k = v + i - a.val;
                if (k >= 0 && k < K) x = a.c[k];
            }
            int k = v + i - b.val;
            if (k >= 0 && k < K) x = negb ? f_sub(x, b.c[k]) : f_add(x, b.c[k]);
            r.c[i] = x;
        }
        return norm(r);
    }
    El mulE(const El &a, const El &b) {
        if (a.zero || b.zero) return zeroEl();
        El r = zeroEl();
        r.zero = false;
        r.isc = false;
        r.val = a.val + b.val;
        r.fl = (a.fl & b.fl & FL_NONNEG);
        if (a.val == b.val && !memcmp(a.c, b.c, sizeof a.c)) r.fl |= FL_NONNEG;
        for (int i = 0; i < K; ++i) {
            if (!a.c[i]) continue;
            for (int j = 0; i + j < K; ++j)
                if (b.c[j]) r.c[i + j] = f_add(r.c[i + j], f_mul(a.c[i], b.c[j]));
        }
        return norm(r);
    }
    El invE(const El &b) {  // b normalised, nonzero
        El r = zeroEl();
        r.zero = false;
        r.isc = false;
        r.val = -b.val;
        r.fl = b.fl & FL_NONNEG;
        u64 i0 = f_inv(b.c[0]);
        r.c[0] = i0;
        for (int n = 1; n < K; ++n) {
            u64 s = 0;
            for (int k = 1; k <= n; ++k) s = f_add(s, f_mul(b.c[k], r.c[n - k]));
            r.c[n] = f_neg(f_mul(s, i0));
        }
        return r;
    }
    El sqrtE(const El &a) {
        if (a.val % 2) throw Undecided{"square root of odd order"};
        El r = zeroEl();
        r.zero = false;
        r.isc = false;
        r.val = a.val / 2;
        r.fl = FL_NONNEG;
        u64 r0 = atoms.root(a.c[0]);
        r.c[0] = r0;
        u64 i2 = f_inv(f_add(r0, r0));
        for (int n = 1; n < K; ++n) {
            u64 s = a.c[n];
            for (int k = 1; k < n; ++k) s = f_sub(s, f_mul(r.c[k], r.c[n - k]));
            r.c[n] = f_mul(s, i2);
        }
        return r;
    }
    fid add(fid a, fid b) override {
        if (isbad(a) || isbad(b)) return badf(a, b);
        return cf(put(addE(el[a], el[b], false)), a, b, el[a].cst + el[b].cst);
    }
    fid sub(fid a, fid b) override {
        if (isbad(a) || isbad(b)) return badf(a, b);
        return cf(put(addE(el[a], el[b], true)), a, b, el[a].cst - el[b].cst);
    }
    fid cf(fid r, fid a, fid b, double x) {
        if (el[a].isc && el[b].isc) {
            el[r].isc = true;
            el[r].cst = x;
            if (x >= 0) el[r].fl |= FL_NONNEG;
        }
        return r;
    }
    fid mul(fid a, fid b) override {
        if (isbad(a) || isbad(b)) return badf(a, b);
        return cf(put(mulE(el[a], el[b])), a, b, el[a].cst * el[b].cst);
    }
    fid div(fid a, fid b) override {
        if (isbad(a) || isbad(b)) return badf(a, b);
        if (el[b].zero) {
            El e = zeroEl();
            e.zero = false;
            e.isc = false;
            e.fl = el[a].zero ? FL_NAN : FL_INF;
            return put(e);
        }
        return cf(put(mulE(el[a], invE(el[b]))), a, b, el[a].cst / el[b].cst);
    }
    fid neg(fid a) override {
        if (isbad(a)) return a;
        return cf(put(addE(zeroEl(), el[a], true)), a, a, -el[a].cst);
    }
    fid sqrt(fid a) override {
        if (isbad(a)) return a;
        if (el[a].zero) return constant(0);
        return put(sqrtE(el[a]));
    }
    // sin & cos of a series
    void sincosE(const El &a, El &S, El &C) {
        if (a.zero) {
            S = zeroEl();
            C = fromField(1);
            return;
        }
        if (a.val < 0) throw Undecided{"sin of a divergent quantity"};
        El u = a;
        u64 c0 = 1, s0 = 0;
        if (a.val == 0) {
            auto g = atoms.angle(a.c[0]);
            c0 = g.c;
            s0 = g.s;
            u.c[0] = 0;
            u = norm(u);
        }
        // Taylor
        El su = zeroEl(), cu = fromField(1), p = fromField(1);
        u64 fact = 1;
        for (int n = 1; n < 2 * K && !u.zero; ++n) {
            p = mulE(p, u);
            if (p.zero || p.val > K) break;
            fact = f_mul(fact, f_int(n));
            El t = mulE(p, fromField(f_inv(fact)));
            int m = n % 4;
            if (m == 1) su = addE(su, t, false);
            if (m == 2) cu = addE(cu, t, true);
            if (m == 3) su = addE(su, t, true);
            if (m == 0) cu = addE(cu, t, false);
        }
        El es0 = fromField(s0), ec0 = fromField(c0);
        S = addE(mulE(es0, cu), mulE(ec0, su), false);
        C = addE(mulE(ec0, cu), mulE(es0, su), true);
    }
    fid sin(fid a) override {
        if (isbad(a)) return a;
        El S, C;
        sincosE(el[a], S, C);
        return put(S);
    }
    fid cos(fid a) override {
        if (isbad(a)) return a;
        El S, C;
        sincosE(el[a], S, C);
        return put(C);
    }
    El derivE(const El &a) {
        if (a.zero) return zeroEl();
        El r = a;
        r.fl = 0;
        r.isc = false;
        r.val = a.val - 1;
        for (int i = 0; i < K; ++i) r.c[i] = f_mul(a.c[i], f_int(a.val + i));
        return norm(r);
    }
    El integE(const El &a) {
        if (a.zero) return zeroEl();
        El r = a;
        r.fl = 0;
        r.isc = false;
        r.val = a.val + 1;
        for (int i = 0; i < K; ++i) {
            int n = a.val + i + 1;
            if (n == 0) {
                if (a.c[i]) throw Undecided{"logarithmic term"};
                r.c[i] = 0;
            } else
                r.c[i] = f_div(a.c[i], f_int(n));
        }
        return norm(r);
    }
    fid acos(fid a) override {
        if (isbad(a)) return a;
        double c;
        if (isConst(a, c)) {
            if (c == 1) return constant(0);
            if (c == -1) return constant(M_PI);
        }
        const El &x = el[a];
        if (!x.zero && x.val < 0) throw Undecided{"acos of divergent"};
        El one = fromField(1);
        El w = addE(one, mulE(x, x), true);
        if (w.zero) throw Undecided{"acos at singular point"};
        El rt = sqrtE(w);
        El y = integE(mulE(derivE(x), invE(rt)));
        y = addE(zeroEl(), y, true);
        u64 x0 = (x.zero || x.val > 0) ? 0 : x.c[0];
        if (x0 == 1) {
            // acos >= 0: choose sign so that sqrt sign is consistent; leading coeff sign is that of root
        } else if (x0 == P - 1)
            y = addE(fromField(atoms.pi), y, false);
        else {
            fid t = atoms.mk(x0, -1);
            y = addE(fromField(atoms.el[atoms.acos(t)].v), y, false);
        }
        y.fl |= FL_NONNEG;
        return put(y);
    }
    fid asin(fid a) override { return sub(div(constant(M_PI), constant(2)), acos(a)); }
    fid atan2(fid y, fid x) override {
        if (isbad(x) || isbad(y)) return badf(x, y);
        if (el[y].zero && el[x].zero) return constant(0);
        // d atan2 = (x dy - y dx)/(x^2+y^2)
        El r2 = addE(mulE(el[x], el[x]), mulE(el[y], el[y]), false);
        El num = addE(mulE(el[x], derivE(el[y])), mulE(el[y], derivE(el[x])), true);
        El in = integE(mulE(num, invE(r2)));
        int vx = el[x].zero ? 99 : el[x].val, vy = el[y].zero ? 99 : el[y].val;
        u64 u0;
        if (vy > vx) {
            // angle 0 or pi depending on the sign of x
            int s = cmp(x, constant(0));
            u0 = s > 0 ? 0 : atoms.pi;
        } else if (vx > vy) {
            int s = cmp(y, constant(0));
            u0 = f_div(atoms.pi, 2);
            if (s < 0) u0 = f_neg(u0);
        } else {
            fid yy = atoms.mk(el[y].c[0], -1), xx = atoms.mk(el[x].c[0], -1);
            u0 = atoms.el[atoms.atan2(yy, xx)].v;
        }
        El r = addE(fromField(u0), in, false);
        return put(r);
    }
    fid opaque(const char *fn, const std::vector<fid> &args) override {
        throw Undecided{std::string("opaque function ") + fn};
    }
    std::string key(const El &e) {
        std::string k = std::to_string(e.val);
        for (int i = 0; i < 3; ++i) k += "," + std::to_string(e.c[i]);
        return k;
    }
    int cmp(fid a, fid b) override {
        double ca, cb;
        bool ka = isConst(a, ca), kb = isConst(b, cb);
        if (ka && kb) return ca < cb ? -1 : ca > cb ? 1 : 0;
        if (isbad(a) || isbad(b)) throw Undecided{"comparison with infinity"};
        if (kb && cb != 0 && std::fabs(cb) < 0.5) {
            // quantity against a tiny constant
            const El &e = el[a];
            if (!e.zero && e.val > 0) {
                // vanishes as s -> 0: both sides of the guard are in the neighbourhood
                std::string k = "near" + std::to_string(cb) + key(e);
                auto it = signs.find(k);
                if (it != signs.end()) return it->second;
                int big = oracle->decide(true, cb, e.val) ? -1 : 1;  // choice 1: inside
                signs[k] = big;
                return big;
            }
            return cmp(a, constant(0));
        }
        if (ka && ca != 0 && std::fabs(ca) < 0.5) return -cmp(b, a);
        El d = addE(el[a], el[b], true);
        if (d.zero) return 0;
        if (kb && cb == 0 && (el[a].fl & FL_NONNEG)) return 1;
        if (ka && ca == 0 && (el[b].fl & FL_NONNEG)) return -1;
        int64_t n, q;
        if (f_rational(d.c[0], n, q, 20000)) return n > 0 ? 1 : -1;
        if (d.val == 0 && d.c[0] == atoms.pi) return 1;
        if (kb && std::fabs(cb) > 1e30) return cb > 0 ? -1 : 1;
        if (ka && std::fabs(ca) > 1e30) return ca > 0 ? 1 : -1;
        {
            if (int s = atoms.signOf(d.c[0])) return s;
        }
        int s = oracle->decide(false, 0, 0) ? -1 : 1;
        atoms.signs[d.c[0]] = s;
        atoms.signs[f_neg(d.c[0])] = -s;
        return s;
    }
    bool equal(fid a, fid b) override {
        El d = addE(el[a], el[b], true);
        return d.zero;
    }
    std::string show(fid a) override {
        const El &e = el[a];
        if (e.fl & FL_UNDEF) return "uninitialised";
        if (e.fl & FL_NAN) return "NaN";
        if (e.fl & FL_INF) return "inf";
        if (e.zero) return "0";
        std::string r = "s^" + std::to_string(e.val) + "*(";
        for (int i = 0; i < 3; ++i) {
            int64_t n, d;
            if (f_rational(e.c[i], n, d, 5000))
                r += std::to_string(n) + (d == 1 ? "" : "/" + std::to_string(d));
            else
                r += "#" + std::to_string(e.c[i] % 100000);
            r += ",";
        }
        return r + "...)";
    }
};
