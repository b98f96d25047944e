// Scenarios for the matrix library (C23, C24), for one element type T.
#pragma once
#include "scen.h"
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include <cmath>
#include <deque>
#include <functional>
#include <memory>
#include <new>
#include <sstream>
#include <thread>
#include <typeinfo>
#include <vector>

namespace mx {
using my_cnn::SimpleMatrix; using my_cnn::dim3; using my_cnn::dim2; using sim::P; using sim::chance; using sim::Rng;

// ---------------------------------------------------------------- reference
struct RM {                       // plain array, x fastest
    int x = 0, y = 0, z = 0; std::vector<double> v;
    RM() {}
    RM(int a, int b, int c, double f = 0) : x(a), y(b), z(c), v((size_t)a * b * c, f) {}
    double& at(int i, int j, int k) { return v[((size_t)k * y + j) * x + i]; }
    double at(int i, int j, int k) const { return v[((size_t)k * y + j) * x + i]; }
    bool same(const RM& o) const { return x == o.x && y == o.y && z == o.z; }
    RM sub(int i0, int j0, int k0, int a, int b, int c) const {
        RM r(a, b, c);
        for (int k = 0; k < c; k++) for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) r.at(i, j, k) = at(i0 + i, j0 + j, k0 + k);
        return r;
    }
    void put(int i0, int j0, int k0, const RM& s) {
        for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++) at(i0 + i, j0 + j, k0 + k) = s.at(i, j, k);
    }
};
template<class F> RM each(const RM& a, F f) { RM r = a; for (auto& q : r.v) q = f(q); return r; }
template<class F> RM both(const RM& a, const RM& b, F f) { RM r = a; for (size_t i = 0; i < r.v.size(); i++) r.v[i] = f(a.v[i], b.v[i]); return r; }
inline RM transposed(const RM& a) { RM r(a.y, a.x, a.z); for (int k = 0; k < a.z; k++) for (int j = 0; j < a.y; j++) for (int i = 0; i < a.x; i++) r.at(j, i, k) = a.at(i, j, k); return r; }
inline RM turned(const RM& a, int n) {
    RM r = a;
    for (int k = 0; k < a.z; k++) for (int j = 0; j < a.y; j++) for (int i = 0; i < a.x; i++)
        r.at(i, j, k) = n == 1 ? a.at(a.y - j - 1, i, k) : n == 2 ? a.at(a.x - i - 1, a.y - j - 1, k) : a.at(j, a.x - i - 1, k);
    return r;
}
inline RM product(const RM& a, const RM& b) {
    RM r(a.x, b.y, a.z);
    for (int k = 0; k < a.z; k++) for (int j = 0; j < b.y; j++) for (int i = 0; i < a.x; i++) { double s = 0; for (int q = 0; q < a.y; q++) s += a.at(i, q, k) * b.at(q, j, k); r.at(i, j, k) = s; }
    return r;
}
inline RM convolved(const RM& a, const RM& f, int sx, int sy) {
    RM r((a.x - f.x) / sx + 1, (a.y - f.y) / sy + 1, 1);
    for (int i = 0; i < r.x; i++) for (int j = 0; j < r.y; j++) { double s = 0; for (int p = 0; p < f.x; p++) for (int q = 0; q < f.y; q++) s += a.at(i * sx + p, j * sy + q, 0) * f.at(p, q, 0); r.at(i, j, 0) = s; }
    return r;
}
// entries that keep every sum and product below exactly representable in single precision
inline bool storable(const RM& a, bool integral) { for (double q : a.v) if (!(std::fabs(q) <= 64) || q * (integral ? 1 : 4) != std::floor(q * (integral ? 1 : 4))) return false; return true; }

// ---------------------------------------------------------------- world
template<class T> struct Pair { SimpleMatrix<T> m; RM r; };

template<class T> SimpleMatrix<T> real_of(const RM& r) {
    SimpleMatrix<T> m(dim3(r.x, r.y, r.z));
    for (int k = 0; k < r.z; k++) for (int j = 0; j < r.y; j++) for (int i = 0; i < r.x; i++) m((size_t)i, (size_t)j, (size_t)k) = (T)r.at(i, j, k);
    return m;
}
inline RM draw(Rng& g, int x, int y, int z, bool divisor = false) {
    RM r(x, y, z);
    for (auto& q : r.v) q = divisor ? (double)((g.chance(0.5) ? 1 : -1) * (1 << g.below(3))) : (double)g.range(-6, 6);
    return r;
}
// element by element; reads every element the matrix claims to have
template<class M> std::string mismatch(const M& m, const RM& r) {
    if ((int)m.dim().x != r.x || (int)m.dim().y != r.y || (int)m.dim().z != r.z) return sim::fmt("size is %dx%dx%d, expected %dx%dx%d", (int)m.dim().x, (int)m.dim().y, (int)m.dim().z, r.x, r.y, r.z);
    for (int k = 0; k < r.z; k++) for (int j = 0; j < r.y; j++) for (int i = 0; i < r.x; i++) {
        double g = (double)m(dim3(i, j, k)), w = r.at(i, j, k);
        if (!(g == w)) return sim::fmt("element (%d,%d,%d) is %.9g, expected %.9g", i, j, k, g, w);
    }
    return "";
}

template<class T> struct World {
    int a, b, c;                             // the common shape
    std::vector<Pair<T>> flat;               // shape a x b x c, shared, constant
    std::deque<Pair<T>> tr;                  // shape b x a x c
    std::deque<Pair<T>> sq;                  // square, a x a x c
    Pair<T> div, big;                        // divisors; larger matrix to look into
    Pair<float> fl; Pair<int> in;            // other element types
    std::vector<std::string> text;           // what printing flat[i] gives
    Pair<T> split; int axis = 0;             // one part per thread
};
template<class T> struct Ctx {               // what one thread owns
    World<T>* w; Rng g; int id = 0;
    std::deque<Pair<T>> own;                 // shape a x b x c, except while `own.back()` is resized
    Pair<T> loose;                           // any shape
    int px = 0, py = 0, pz = 0;              // its part of w->split
    RM part;
    bool faults = false, bad = false;        // memory may run out; ill-formed operations are made
    long done = 0, failed = 0;
    explicit Ctx(World<T>* ww, uint64_t s) : w(ww), g(s) {}
};

// the numbers in a printed matrix: row by row, the layers next to each other
inline void check_text(const std::string& t, const RM& r) {
    std::vector<double> v; size_t i = 0;
    while (i < t.size()) {
        if (!isdigit((unsigned char)t[i])) { i++; continue; }
        size_t n = 0; double q = std::stod(t.substr(i), &n); size_t b = i; while (b > 0 && t[b - 1] == ' ') b--;
        v.push_back(b > 0 && t[b - 1] == '-' ? -q : q); i += n;
    }
    size_t n = 0; bool ok = v.size() == r.v.size();
    for (int x = 0; ok && x < r.x; x++) for (int k = 0; k < r.z; k++) for (int j = 0; j < r.y; j++) ok = ok && std::fabs(v[n++] - r.at(x, j, k)) <= 0.011;
    if (!ok) sim::violation("matrix", "a printed matrix does not show its elements row by row: " + t);
}
template<class T> void make_world(World<T>& w, Rng& g, int threads) {
    w.a = (int)P("a", 1, 5); w.b = (int)P("b", 1, 5); w.c = (int)P("c", 1, 3);
    auto mk = [&](int x, int y, int z, bool d = false) { Pair<T> p; p.r = draw(g, x, y, z, d); p.m = real_of<T>(p.r); return p; };
    for (int i = 0; i < 3; i++) { w.flat.push_back(mk(w.a, w.b, w.c)); w.tr.push_back(mk(w.b, w.a, w.c)); }
    for (auto& p : w.flat) { std::ostringstream ss; ss << p.m; w.text.push_back(ss.str()); check_text(w.text.back(), p.r); }
    w.sq.push_back(mk(w.a, w.a, w.c));
    w.div = mk(w.a, w.b, w.c, true);
    w.big = mk(w.a + (int)g.below(3), w.b + (int)g.below(3), w.c + (int)g.below(3));
    w.fl.r = draw(g, w.a, w.b, w.c); w.fl.m = real_of<float>(w.fl.r);
    w.in.r = draw(g, w.a, w.b, w.c); w.in.m = real_of<int>(w.in.r);
    w.axis = (int)P("axis", 0, 2);
    w.split = mk(w.a * (w.axis == 0 ? threads : 1), w.b * (w.axis == 1 ? threads : 1), w.c * (w.axis == 2 ? threads : 1));
}
template<class T> void make_ctx(Ctx<T>& x, int id) {
    World<T>& w = *x.w; x.id = id;
    for (int i = 0; i < 3; i++) { Pair<T> p; p.r = draw(x.g, w.a, w.b, w.c); p.m = real_of<T>(p.r); x.own.push_back(p); }
    x.loose = x.own[0];
    (w.axis == 0 ? x.px : w.axis == 1 ? x.py : x.pz) = id * (w.axis == 0 ? w.a : w.axis == 1 ? w.b : w.c);
    x.part = w.split.r.sub(x.px, x.py, x.pz, w.a, w.b, w.c);
}
template<class T> auto part_view(Ctx<T>& x) { return x.w->split.m.subMatView(dim3(x.px, x.py, x.pz), dim3(x.w->a, x.w->b, x.w->c)); }

// ---------------------------------------------------------------- one operation
enum Res { OK_, NOMEM, REFUSED, OTHER };
// runs `f`, the code under test, with the harness paused; classifies the outcome
typedef std::function<void()> Fn;
inline Res attempt(const Fn& f) {
    try { sim::enter(); f(); sim::leave(); return OK_; }
    catch (std::bad_alloc&) { sim::leave(); return NOMEM; }
    catch (my_cnn::MatrixSizeException&) { sim::leave(); return REFUSED; }
    catch (my_cnn::MatrixTransformException&) { sim::leave(); return REFUSED; }
    catch (std::out_of_range&) { sim::leave(); return REFUSED; }
    catch (std::exception&) { sim::leave(); return OTHER; }
}
[[noreturn]] inline void bad(int id, const char* op, const std::string& d) { sim::violation("matrix", sim::fmt("thread %d, %s: ", id, op) + d); }

// everything this thread may look at is as the reference says
template<class T> void audit(Ctx<T>& x, const char* op) {
    for (size_t i = 0; i < x.own.size(); i++) { std::string d = mismatch(x.own[i].m, x.own[i].r); if (!d.empty()) bad(x.id, op, sim::fmt("own matrix %zu afterwards: ", i) + d); }
    { std::string d = mismatch(x.loose.m, x.loose.r); if (!d.empty()) bad(x.id, op, "its matrix afterwards: " + d); }
    auto v = static_cast<const SimpleMatrix<T>&>(x.w->split.m).subMatView(dim3(x.px, x.py, x.pz), dim3(x.w->a, x.w->b, x.w->c));
    std::string d = mismatch(v, x.part);
    if (!d.empty()) bad(x.id, op, "its view afterwards: " + d);
}
// An operation that may store: `f` is the code under test, `commit` updates the reference.
// fits: the operation is well formed.
template<class T> void op(Ctx<T>& x, const char* name, bool fits, const Fn& f, const Fn& commit) {
    Res r = attempt(f);
    if (r == NOMEM && !x.faults) bad(x.id, name, "out of memory was reported although there was enough");
    if (r == OTHER) bad(x.id, name, "an unexpected exception");
    if (r == OK_ && !fits) bad(x.id, name, "an operation with operands that do not fit was accepted");
    if (r == REFUSED && fits) bad(x.id, name, "an operation with operands that fit was refused");
    if (r == OK_) { commit(); x.done++; sim::probe("checked.operation"); }
    else { x.failed++; sim::probe(r == NOMEM ? "checked.out_of_memory" : "checked.refused"); }
    audit(x, name);
    if (r == NOMEM) {       // with enough memory it works
        sim::fault_disarm(sim::S_ALLOC); x.faults = false;
        op(x, name, fits, f, commit);
    }
}
// An expression: evaluated into a new matrix, or assigned to one the thread owns (the first or a view)
template<class T, class E> void expr(Ctx<T>& x, const char* name, const RM& want0, E e) {
    const bool integral = std::is_integral<T>::value;
    RM want = each(want0, [&](double q) { return integral ? std::trunc(q) : q; });
    World<T>& w = *x.w;
    int how = (int)x.g.below(6);
    const bool fitsown = want.x == w.a && want.y == w.b && want.z == w.c;
    if (!storable(want, integral) || (!fitsown && how >= 2)) how = (int)x.g.below(2);
    if (how >= 2 && how < 4 && !fitsown) how = 0;
    if (how == 0) {           // construct
        std::unique_ptr<SimpleMatrix<T>> out;
        op(x, name, true, [&] { SimpleMatrix<T> m = e(); out.reset(new SimpleMatrix<T>(std::move(m))); }, [&] { std::string d = mismatch(*out, want); if (!d.empty()) bad(x.id, name, "the new matrix: " + d); });
    } else if (how == 1) {    // assign, the shape follows
        if (storable(want, integral)) op(x, name, true, [&] { x.loose.m = e(); }, [&] { x.loose.r = want; });
        else { SimpleMatrix<T> m; op(x, name, true, [&] { m = e(); }, [&] { std::string d = mismatch(m, want); if (!d.empty()) bad(x.id, name, "the assigned matrix: " + d); }); }
    } else if (how == 2) op(x, name, true, [&] { x.own[0].m = e(); }, [&] { x.own[0].r = want; });
    else if (how == 3) op(x, name, true, [&] { part_view(x) = e(); }, [&] { x.part = want; });
    else if (how == 4) { RM s = both(x.own[0].r, want, [](double p, double q) { return p + q; }); if (storable(s, integral)) op(x, name, true, [&] { x.own[0].m += e(); }, [&] { x.own[0].r = s; }); }
    else { RM s = both(x.part, want, [](double p, double q) { return p - q; }); if (storable(s, integral)) op(x, name, true, [&] { part_view(x) -= e(); }, [&] { x.part = s; }); }
}
template<class T> using ev = std::function<SimpleMatrix<T>()>;
// operands of different C++ types; f is called with a function that makes the operand and its reference value
template<class T, class F> void left(Ctx<T>& x, F f) {
    World<T>& w = *x.w;
    const Pair<T>& s = w.flat[x.g.below(w.flat.size())];
    switch (x.g.below(5)) {
    case 0: f([&]() -> const SimpleMatrix<T>& { return s.m; }, s.r); break;
    case 1: { Pair<T>& o = x.own[1 + x.g.below(2)]; f([&]() -> SimpleMatrix<T>& { return o.m; }, o.r); break; }
    case 2: { int i = (int)x.g.below((uint64_t)(w.big.r.x - w.a + 1)), j = (int)x.g.below((uint64_t)(w.big.r.y - w.b + 1)), k = (int)x.g.below((uint64_t)(w.big.r.z - w.c + 1));
              f([&w, i, j, k] { return static_cast<const SimpleMatrix<T>&>(w.big.m).subMatView(dim3(i, j, k), dim3(w.a, w.b, w.c)); }, w.big.r.sub(i, j, k, w.a, w.b, w.c)); break; }
    case 3: f([&] { return SimpleMatrix<T>(s.m); }, s.r); break;
    case 4: { const Pair<T>& t = w.tr[x.g.below(w.tr.size())]; f([&] { return my_cnn::transpose(t.m); }, transposed(t.r)); break; }
    }
}
template<class T, class F> void right(Ctx<T>& x, F f) {
    World<T>& w = *x.w;
    const Pair<T>& s = w.flat[x.g.below(w.flat.size())];
    switch (x.g.below(4)) {
    case 0: f([&]() -> const SimpleMatrix<T>& { return s.m; }, s.r); break;
    case 1: { const Pair<T>& o = x.own[2]; f([&] { return o.m - s.m; }, both(o.r, s.r, [](double p, double q) { return p - q; })); break; }
    case 2: f([&]() -> const SimpleMatrix<int>& { return w.in.m; }, w.in.r); break;
    case 3: f([&] { return s.m * 2; }, each(s.r, [](double q) { return q * 2; })); break;
    }
}

#define BIN(sym, mop) left(x, [&](auto l, const RM& lr) { right(x, [&](auto r, const RM& rr) { expr(x, "element-wise " #sym, both(lr, rr, [](double p, double q) -> double { return mop; }), ev<T>([&] { return SimpleMatrix<T>(l() sym r()); })); }); })

template<class T> void elementwise(Ctx<T>& x) {
    World<T>& w = *x.w; const bool integral = std::is_integral<T>::value;
    auto tr = [&](double q) { return integral ? std::trunc(q) : q; };
    switch (x.g.below(14)) {
    case 0: BIN(+, p + q); break;
    case 1: BIN(-, p - q); break;
    case 2: BIN(*, p * q); break;
    case 3: BIN(<, p < q); break;
    case 4: BIN(==, p == q); break;
    case 5: left(x, [&](auto l, const RM& lr) { expr(x, "element-wise / ", both(lr, w.div.r, [&](double p, double q) { return tr(p / q); }), ev<T>([&] { return SimpleMatrix<T>(l() / w.div.m); })); }); break;
    case 6: left(x, [&](auto l, const RM& lr) { int s = (int)x.g.range(-3, 3); expr(x, "scalar * and + ", each(lr, [&](double p) { return s * p + 1; }), ev<T>([&] { return SimpleMatrix<T>(s * l() + 1); })); }); break;
    case 7: left(x, [&](auto l, const RM& lr) { expr(x, "scalar - and / ", each(lr, [&](double p) { return tr((3 - p) / 2); }), ev<T>([&] { return SimpleMatrix<T>((3 - l()) / 2); })); }); break;
    case 8: left(x, [&](auto l, const RM& lr) { expr(x, "comparison with a scalar", each(lr, [&](double p) { return (double)(p >= 1) + (double)(2 != p); }), ev<T>([&] { return SimpleMatrix<T>((l() >= 1) + (2 != l())); })); }); break;
    case 9: left(x, [&](auto l, const RM& lr) { expr(x, "abs", each(lr, [](double p) { return std::fabs(p); }), ev<T>([&] { return SimpleMatrix<T>(my_cnn::abs(l())); })); }); break;
    case 10: left(x, [&](auto l, const RM& lr) { int s = (int)x.g.range(-3, 3); expr(x, "apply", each(lr, [&](double p) { return p * 2 - s; }), ev<T>([&] { return SimpleMatrix<T>(my_cnn::apply(l(), [s](auto p) { return (T)(p * 2 - s); })); })); }); break;
    case 12: { const Pair<T>& s = w.flat[x.g.below(w.flat.size())]; int k = (int)x.g.below(4); left(x, [&](auto l, const RM& lr) {
        expr(x, "comparison of matrices", both(lr, s.r, [k](double p, double q) { return (double)(k == 0 ? p > q : k == 1 ? p <= q : k == 2 ? p >= q : p != q); }),
             ev<T>([&, k] { return k == 0 ? SimpleMatrix<T>(l() > s.m) : k == 1 ? SimpleMatrix<T>(l() <= s.m) : k == 2 ? SimpleMatrix<T>(l() >= s.m) : SimpleMatrix<T>(l() != s.m); })); }); break; }
    case 13: {   // every operation with a scalar on either side
        const Pair<T>& m = w.div; int k = (int)x.g.below(14), s = 1 << x.g.below(3);
        auto f = [&](double p) -> double { switch (k) { case 0: return p < s; case 1: return p <= s; case 2: return p > s; case 3: return p == s; case 4: return p != s; case 5: return s < p; case 6: return s <= p; case 7: return s > p; case 8: return s >= p; case 9: return s == p; case 10: return p - s; case 11: return tr(s / p); case 12: return s * p; default: return s + p; } };
        expr(x, "operation with a scalar", each(m.r, f), ev<T>([&, k, s] { switch (k) { case 0: return SimpleMatrix<T>(m.m < s); case 1: return SimpleMatrix<T>(m.m <= s); case 2: return SimpleMatrix<T>(m.m > s); case 3: return SimpleMatrix<T>(m.m == s); case 4: return SimpleMatrix<T>(m.m != s); case 5: return SimpleMatrix<T>(s < m.m); case 6: return SimpleMatrix<T>(s <= m.m); case 7: return SimpleMatrix<T>(s > m.m); case 8: return SimpleMatrix<T>(s >= m.m);
            case 9: return SimpleMatrix<T>(s == m.m); case 10: return SimpleMatrix<T>(m.m - s); case 11: return SimpleMatrix<T>(s / m.m); case 12: return SimpleMatrix<T>(s * m.m); default: return SimpleMatrix<T>(s + m.m); } })); break; }
    case 11: expr(x, "mixed element types", both(both(w.in.r, w.fl.r, [](double p, double q) { return p + q; }), w.flat[0].r, [](double p, double q) { return p + q; }), [&] { return w.in.m + w.fl.m + w.flat[0].m; }); break;
    }
}
template<class T> void structural(Ctx<T>& x) {
    World<T>& w = *x.w; Rng& g = x.g;
    const Pair<T>& s = w.flat[g.below(w.flat.size())]; const Pair<T>& t = w.tr[g.below(w.tr.size())]; const Pair<T>& q = w.sq[0];
    switch (g.below(19)) {
    case 0: expr(x, "matrix product", product(s.r, t.r), [&] { return my_cnn::matrixMultiply(s.m, t.m); }); break;
    case 1: { const Pair<T>& o = x.own[2]; expr(x, "matrix product of expressions", product(both(s.r, o.r, [](double p, double q2) { return p + q2; }), transposed(o.r)), [&] { return my_cnn::matrixMultiply(s.m + o.m, my_cnn::transpose(o.m)); }); break; }
    case 2: expr(x, "transpose", transposed(t.r), [&] { return my_cnn::transpose(t.m); }); break;
    case 3: expr(x, "half turn", turned(s.r, 2), [&] { return my_cnn::rotate<2>(s.m); }); break;
    case 4: expr(x, "quarter turn", turned(q.r, 1), [&] { return my_cnn::rotate<1>(q.m); }); break;
    case 5: expr(x, "three quarter turns", turned(q.r, 3), [&] { return my_cnn::rotate<3>(q.m); }); break;
    case 6: {
        int fx = (int)g.range(1, w.a), fy = (int)g.range(1, w.b), k = (int)g.below((uint64_t)w.c), k2 = (int)g.below((uint64_t)w.c), sx = g.chance(0.7) ? 1 : (int)g.range(1, 3), sy = g.chance(0.7) ? 1 : (int)g.range(1, 3);
        RM in = w.big.r.sub(0, 0, k, w.big.r.x, w.big.r.y, 1), f = s.r.sub(0, 0, k2, fx, fy, 1);
        expr(x, "convolution", convolved(in, f, sx, sy), [&] { auto i = static_cast<const SimpleMatrix<T>&>(w.big.m).slice(k); auto v = s.m.subMatView(dim3(0, 0, k2), dim3(fx, fy, 1)); return SimpleMatrix<T>(my_cnn::convolve(i, v, dim2(sx, sy))); });
        break; }
    case 7: { int i = (int)g.below((uint64_t)w.a), j = (int)g.below((uint64_t)w.b), k = (int)g.below((uint64_t)w.c), n = (int)g.range(1, w.a - i), m = (int)g.range(1, w.b - j), l = (int)g.range(1, w.c - k);
        expr(x, "copy of a part", s.r.sub(i, j, k, n, m, l), [&] { return s.m.subMatCopy(dim3(i, j, k), dim3(n, m, l)); }); break; }
    case 8: { int k = (int)g.below((uint64_t)w.big.r.z), n = (int)g.range(1, w.big.r.z - k), k2 = (int)g.below((uint64_t)n), n2 = (int)g.range(1, n - k2);
        expr(x, "slices of slices", w.big.r.sub(0, 0, k + k2, w.big.r.x, w.big.r.y, n2), [&] { return SimpleMatrix<T>(static_cast<const SimpleMatrix<T>&>(w.big.m).slices(k, n).slices(k2, n2)); }); break; }
    case 9: { SimpleMatrix<T> c; op(x, "copy", true, [&] { c = s.m; }, [&] { std::string d = mismatch(c, s.r); if (!d.empty()) bad(x.id, "copy", d); }); break; }
    case 10: { Pair<T>& o = x.own[g.below(3)]; op(x, "assign a matrix", true, [&] { o.m = s.m; }, [&] { o.r = s.r; }); break; }
    case 11: op(x, "assign a matrix of another shape", true, [&] { x.loose.m = t.m; }, [&] { x.loose.r = t.r; }); break;
    // temporaries as operands
    case 12: expr(x, "transpose of a temporary", transposed(t.r), [&] { return my_cnn::transpose(SimpleMatrix<T>(t.m)); }); break;
    case 13: { bool a1 = g.chance(0.5); expr(x, "matrix product of temporaries", product(s.r, t.r), ev<T>([&] { if (a1) return SimpleMatrix<T>(my_cnn::matrixMultiply(SimpleMatrix<T>(s.m), t.m)); return SimpleMatrix<T>(my_cnn::matrixMultiply(SimpleMatrix<T>(s.m), SimpleMatrix<T>(t.m))); })); break; }
    case 14: expr(x, "turned expression", turned(transposed(turned(q.r, 3)), 1), [&] { return my_cnn::rotate<1>(my_cnn::transpose(my_cnn::rotate<3>(SimpleMatrix<T>(q.m)))); }); break;
    case 15: { int k = (int)g.below((uint64_t)w.c), fx = (int)g.range(1, w.a), fy = (int)g.range(1, w.b);
        expr(x, "convolution of temporaries", convolved(s.r.sub(0, 0, k, w.a, w.b, 1), RM(fx, fy, 1, 2), 1, 1), [&] { return my_cnn::convolve(SimpleMatrix<T>(s.m.slice(k)), SimpleMatrix<T>(dim3(fx, fy, 1), (T)2), dim2(1, 1)); }); break; }
    case 16: {   // an expression that is kept, moved and evaluated twice
        RM want = both(s.r, transposed(t.r), [](double p, double q2) { return p * 2 - q2; });
        expr(x, "kept expression", want, ev<T>([&] { auto e = s.m * 2 - my_cnn::transpose(SimpleMatrix<T>(t.m)); SimpleMatrix<T> first = e; auto f = std::move(e); SimpleMatrix<T> second = f; if (first.dim() == second.dim() && !my_cnn::matrixEqual(first, second)) second *= 100; return second; })); break; }
    case 17: {   // the matrix that is assigned is also an operand
        Pair<T>& o = x.loose; RM want = transposed(o.r); op(x, "assign a matrix its own transpose", true, [&] { o.m = my_cnn::transpose(o.m); }, [&] { o.r = want; }); break; }
    case 18: {
        Pair<T>& o = x.loose; int i = (int)g.below((uint64_t)o.r.x), j = (int)g.below((uint64_t)o.r.y), k = (int)g.below((uint64_t)o.r.z); int nx = (int)g.range(1, o.r.x - i), ny = (int)g.range(1, o.r.y - j), nz = (int)g.range(1, o.r.z - k);
        RM want = o.r.sub(i, j, k, nx, ny, nz); op(x, "assign a matrix a part of itself", true, [&] { o.m = o.m.subMatView(dim3(i, j, k), dim3(nx, ny, nz)); }, [&] { o.r = want; }); break; }
    }
}
template<class T> void inplace(Ctx<T>& x) {
    World<T>& w = *x.w; Rng& g = x.g; const bool integral = std::is_integral<T>::value;
    Pair<T>& o = x.own[g.below(3)]; const Pair<T>& s = w.flat[g.below(w.flat.size())];
    auto tr = [&](double q) { return integral ? std::trunc(q) : q; };
    auto go = [&](const char* n, const RM& want, const Fn& f) { if (storable(want, integral)) op(x, n, true, f, [&] { o.r = want; }); };
    auto gov = [&](const char* n, const RM& want, const Fn& f) { if (storable(want, integral)) op(x, n, true, f, [&] { x.part = want; }); };
    int k = (int)g.range(-3, 3);
    switch (g.below(22)) {
    case 0: go("+=", both(o.r, s.r, [](double p, double q) { return p + q; }), [&] { o.m += s.m; }); break;
    case 1: go("-=", both(o.r, s.r, [](double p, double q) { return p - q; }), [&] { o.m -= s.m; }); break;
    case 2: go("*=", both(o.r, s.r, [](double p, double q) { return p * q; }), [&] { o.m *= s.m; }); break;
    case 3: go("/=", both(o.r, w.div.r, [&](double p, double q) { return tr(p / q); }), [&] { o.m /= w.div.m; }); break;
    case 4: go("+= scalar", each(o.r, [&](double p) { return p + k; }), [&] { o.m += k; }); break;
    case 5: go("*= scalar", each(o.r, [&](double p) { return p * k; }), [&] { o.m *= k; }); break;
    case 6: go("/= scalar", each(o.r, [&](double p) { return tr(p / 2); }), [&] { o.m /= 2; }); break;
    case 7: go("modify", each(o.r, [&](double p) { return k - p; }), [&] { my_cnn::modify(o.m, [k](T p) { return (T)(k - p); }); }); break;
    case 8: gov("fill a view", RM(w.a, w.b, w.c, k), [&] { part_view(x) = k; }); break;
    case 9: gov("view *= expression", both(x.part, s.r, [](double p, double q) { return p * (q - 1); }), [&] { part_view(x) *= (s.m - 1); }); break;
    case 10: {   // views of every kind assigned to a view
        int i = (int)g.below((uint64_t)(w.big.r.x - w.a + 1)), j = (int)g.below((uint64_t)(w.big.r.y - w.b + 1)), k2 = (int)g.below((uint64_t)(w.big.r.z - w.c + 1)), how = (int)g.below(4);
        gov("view = view", w.big.r.sub(i, j, k2, w.a, w.b, w.c), [&, i, j, k2, how] {
            auto v = part_view(x); auto b = w.big.m.subMatView(dim3(i, j, k2), dim3(w.a, w.b, w.c)); const auto cb = b;
            switch (how) { case 0: v = b; break; case 1: v = cb; break; case 2: v = w.big.m.subMatView(dim3(i, j, k2), dim3(w.a, w.b, w.c)); break; default: v = static_cast<const SimpleMatrix<T>&>(w.big.m).subMatView(dim3(i, j, k2), dim3(w.a, w.b, w.c)); } }); break; }
    case 16: {   // a part of the own view
        int i = (int)g.below((uint64_t)w.a), j = (int)g.below((uint64_t)w.b), k2 = (int)g.below((uint64_t)w.c), nx = (int)g.range(1, w.a - i), ny = (int)g.range(1, w.b - j), nz = (int)g.range(1, w.c - k2), how = (int)g.below(3);
        RM want = x.part; want.put(i, j, k2, how ? s.r.sub(i, j, k2, nx, ny, nz) : RM(nx, ny, nz, k));
        op(x, "write a part of a view", true, [&, i, j, k2, nx, ny, nz, how] {
            auto v = w.split.m.subMatView(dim3(x.px + i, x.py + j, x.pz + k2), dim3(nx, ny, nz)); const auto b = static_cast<const SimpleMatrix<T>&>(s.m).subMatView(dim3(i, j, k2), dim3(nx, ny, nz));
            if (how == 0) v = (T)k; else if (how == 1) v = b; else { SimpleMatrix<T> m = b; const auto mv = m.subMatView(dim3(0, 0, 0), dim3(nx, ny, nz)); v = mv; } }, [&] { x.part = want; }); break; }
    case 17: {   // slices and single elements of the own view
        int k2 = (int)g.below((uint64_t)w.c), n = (int)g.range(1, w.c - k2), i = (int)g.below((uint64_t)w.a), j = (int)g.below((uint64_t)w.b); bool at = g.chance(0.5);
        RM want = x.part; if (at) want.at(i, j, k2) = k; else want.put(0, 0, k2, RM(w.a, w.b, n, k));
        op(x, at ? "write through at()" : "fill slices of a view", true, [&, k2, n, i, j, at] { auto v = part_view(x); if (at) v.at(dim3(i, j, k2)) = (T)k; else v.slices(k2, n) = (T)k; }, [&] { x.part = want; }); break; }
    case 11: gov("view -= scalar", each(x.part, [&](double p) { return p - k; }), [&] { part_view(x) -= k; }); break;
    case 12: {   // raw values
        std::vector<T> vals; RM want(w.a, w.b, w.c);
        bool rows = g.chance(0.5);
        for (size_t i = 0; i < want.v.size(); i++) vals.push_back((T)g.range(-6, 6));
        if (rows) { size_t i = 0; for (int z = 0; z < w.c; z++) for (int r = 0; r < w.a; r++) for (int c = 0; c < w.b; c++) want.at(r, c, z) = (double)vals[i++]; }
        else for (size_t i = 0; i < want.v.size(); i++) want.v[i] = (double)vals[i];
        go(rows ? "setEntries" : "= list of values", want, [&] { std::vector<T> v = vals; if (rows) o.m.setEntries(std::move(v)); else o.m = std::move(v); }); break; }
    case 13: { int nx = (int)g.range(1, 6), ny = (int)g.range(1, 6), nz = (int)g.range(1, 3);   // resize keeps the leading values
        RM want(nx, ny, nz); for (size_t i = 0; i < want.v.size() && i < x.loose.r.v.size(); i++) want.v[i] = x.loose.r.v[i];
        op(x, "resize", true, [&] { x.loose.m.resize(nx, ny, nz); }, [&] { x.loose.r = want; }); break; }
    case 14: { RM want = x.loose.r; std::swap(want.x, want.z); op(x, "reshape", true, [&] { x.loose.m.reshape(want.x, want.y, want.z); }, [&] { x.loose.r = want; }); break; }
    case 18: { int how = (int)g.below(4); const SimpleMatrix<int>& ci = w.in.m; const SimpleMatrix<float>& cf = w.fl.m;    // other element types
        const RM& r = how & 1 ? w.fl.r : w.in.r;
        if (g.chance(0.5)) go("assign another element type", r, [&, how] { switch (how) { case 0: o.m = ci; break; case 1: o.m = cf; break; case 2: o.m = w.in.m; break; default: o.m = SimpleMatrix<float>(cf); } });
        else op(x, "assign another element type and shape", true, [&, how] { switch (how) { case 0: x.loose.m = ci; break; case 1: x.loose.m = cf; break; case 2: x.loose.m = w.in.m; break; default: x.loose.m = SimpleMatrix<float>(cf); } }, [&] { x.loose.r = r; });
        break; }
    case 19: {   // constructors
        int how = (int)g.below(5); RM want = how == 0 ? RM(w.a, w.b, w.c, k) : how == 2 ? w.in.r : how == 4 ? RM(0, 0, 0) : s.r; std::string d;
        op(x, "construct a matrix", true, [&, how] { std::unique_ptr<SimpleMatrix<T>> m; switch (how) {
            case 0: m.reset(new SimpleMatrix<T>(dim3(w.a, w.b, w.c), (T)k)); break;
            case 1: { std::vector<T> v; for (int z = 0; z < w.c; z++) for (int r = 0; r < w.a; r++) for (int c = 0; c < w.b; c++) v.push_back((T)s.r.at(r, c, z)); m.reset(new SimpleMatrix<T>(dim3(w.a, w.b, w.c), std::move(v))); break; }
            case 2: { const SimpleMatrix<int>& ci = w.in.m; m.reset(new SimpleMatrix<T>(ci)); break; }
            case 3: { SimpleMatrix<T> c(s.m); m.reset(new SimpleMatrix<T>(std::move(c))); break; }
            default: m.reset(new SimpleMatrix<T>()); }
            d = mismatch(*m, want); }, [&] { if (!d.empty()) bad(x.id, "construct a matrix", d); });
        break; }
    case 20: op(x, "assign a matrix to itself", true, [&] { SimpleMatrix<T>& same = o.m; o.m = same; }, [&] {}); break;
    case 21: { RM want(w.a, w.b, w.c); want.v.assign(want.v.size(), 0); op(x, "new size keeps nothing of a smaller one", true, [&] { SimpleMatrix<T> m; m.resize(dim3(w.a, w.b, w.c)); o.m = m; }, [&] { o.r = want; }); break; }
    case 15: { SimpleMatrix<T> tmp; op(x, "move", true, [&] { tmp = std::move(o.m); o.m = std::move(tmp); }, [&] {}); break; }
    }
}
template<class T> void reduce(Ctx<T>& x) {
    World<T>& w = *x.w; Rng& g = x.g;
    const Pair<T>& s = w.flat[g.below(w.flat.size())]; Pair<T>& o = x.own[g.below(3)];
    auto num = [&](const char* n, double want, const std::function<double()>& f, double tol = 0) {
        double got = 0;
        op(x, n, true, [&] { got = (double)f(); }, [&] { if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want)))) bad(x.id, n, sim::fmt("the result is %.9g, expected %.9g", got, want)); });
    };
    double sum = 0, sq = 0; for (double q : s.r.v) { sum += q; sq += q * q; }
    size_t lo = 0, hi = 0; for (size_t i = 1; i < s.r.v.size(); i++) { if (s.r.v[i] < s.r.v[lo]) lo = i; if (s.r.v[i] > s.r.v[hi]) hi = i; }
    switch (g.below(17)) {
    case 0: num("sum", sum, [&] { return my_cnn::sum(s.m); }); break;
    case 1: num("max", s.r.v[hi], [&] { return my_cnn::max(s.m); }); break;
    case 2: num("min of an expression", -s.r.v[hi], [&] { return my_cnn::min(s.m * -1); }); break;
    case 3: num("maxIndex", (double)hi, [&] { return s.m.maxIndex(); }); break;
    case 4: num("minIndex", (double)lo, [&] { auto i = my_cnn::minIndex(s.m); return (i.z * w.b + i.y) * w.a + i.x; }); break;
    case 5: num("l2Norm", std::sqrt(sq), [&] { return my_cnn::l2Norm(s.m); }, 1e-5); break;
    case 6: { double e = 0; for (double q : s.r.v) e += std::exp(q); if (!std::is_integral<T>::value) num("sum of exp", e, [&] { return my_cnn::sum(my_cnn::exp(s.m)); }, 1e-5); break; }
    case 7: num("mean", std::is_integral<T>::value ? std::trunc(sum / (double)s.r.v.size()) : sum / (double)s.r.v.size(), [&] { return my_cnn::mean(s.m); }, 1e-6); break;
    case 8: { const Pair<T>& t = w.tr[0]; double d = 0; int k = (int)g.below((uint64_t)w.c); for (int i = 0; i < w.b; i++) d += s.r.at(0, i, k) * 0.25 * t.r.at(i, 0, 0);
        if (std::is_integral<T>::value) d *= 4;
        num("dot product", d, [&] { auto r = static_cast<const SimpleMatrix<T>&>(s.m).subMatView(dim3(0, 0, k), dim3(1, w.b, 1)); SimpleMatrix<T> rr = r; if (!std::is_integral<T>::value) rr /= 4; auto c = t.m.subMatView(dim3(0, 0, 0), dim3(w.b, 1, 1)); return my_cnn::dot(rr, c); }); break; }
    case 14: {   // rows and columns in every combination
        int n = (int)g.range(1, 6), k = (int)g.below(4); RM p = draw(g, k & 1 ? 1 : n, k & 1 ? n : 1, 1), q = draw(g, k & 2 ? 1 : n, k & 2 ? n : 1, 1); double d = 0; for (int i = 0; i < n; i++) d += p.v[(size_t)i] * q.v[(size_t)i];
        SimpleMatrix<T> pm = real_of<T>(p), qm = real_of<T>(q); num("dot product of vectors", d, [&] { return my_cnn::dot(pm, qm); }); break; }
    case 15: {   // reductions of expressions
        const Pair<T>& t = w.tr[0]; const Pair<T>& q = w.sq[0]; int k = (int)g.below(10); RM e;
        auto red = [&, k](const auto& m) -> double { switch (g.below(3)) { case 0: return (double)my_cnn::sum(m); case 1: return (double)my_cnn::max(m) * 1000 + (double)my_cnn::min(m); default: { double r = 0; auto m2 = m; for (auto it = m2.begin(), z = m2.end(); it != z; ++it) r = r * 3 + (double)*it; return std::fmod(r, 65536); } } };
        auto tot = [&](const RM& r) -> double { switch (g.below(3)) { case 0: { double d = 0; for (double v : r.v) d += v; return d; } case 1: { double a = r.v[0], b = r.v[0]; for (double v : r.v) { a = std::max(a, v); b = std::min(b, v); } return a * 1000 + b; } default: { double d = 0; for (double v : r.v) d = d * 3 + v; return std::fmod(d, 65536); } } };
        switch (k) { case 0: e = product(s.r, t.r); break; case 1: e = transposed(t.r); break; case 2: e = turned(s.r, 2); break; case 3: e = turned(q.r, 1); break; case 4: e = turned(q.r, 3); break; case 5: e = both(s.r, o.r, [](double a, double b) { return a * b; }); break;
            case 6: e = each(s.r, [](double a) { return 2 - a; }); break; case 7: e = each(s.r, [](double a) { return std::fabs(a); }); break; case 8: e = convolved(w.big.r.sub(0, 0, 0, w.big.r.x, w.big.r.y, 1), s.r.sub(0, 0, 0, w.a, w.b, 1), 1, 1); break; default: e = w.big.r.sub(0, 0, 0, w.a, w.b, w.c); }
        Rng g0 = g; double want = tot(e); Rng g1 = g; 
        num("reduction of an expression", want, [&] { g = g0; const SimpleMatrix<T>& cm = s.m; double r = 0; switch (k) { case 0: r = red(my_cnn::matrixMultiply(cm, t.m)); break; case 1: r = red(my_cnn::transpose(t.m)); break; case 2: r = red(my_cnn::rotate<2>(cm)); break; case 3: r = red(my_cnn::rotate<1>(q.m)); break; case 4: r = red(my_cnn::rotate<3>(q.m)); break; case 5: r = red(cm * o.m); break;
            case 6: r = red(2 - cm); break; case 7: r = red(my_cnn::abs(cm)); break; case 8: { auto i = static_cast<const SimpleMatrix<T>&>(w.big.m).slice(0); auto f = cm.slice(0); r = red(my_cnn::convolve(i, f, dim2(1, 1))); break; } default: r = red(static_cast<const SimpleMatrix<T>&>(w.big.m).subMatView(dim3(0, 0, 0), dim3(w.a, w.b, w.c))); } return r; });
        g = g1; break; }
    case 16: { size_t l = 0; for (size_t i = 1; i < s.r.v.size(); i++) if (s.r.v[i] < s.r.v[l]) l = i; if (g.chance(0.5)) num("minIndex of a matrix", (double)l, [&] { return s.m.minIndex(); }); else num("maxIndex of an expression", (double)lo, [&] { auto i = my_cnn::maxIndex(1 - s.m); return (i.z * w.b + i.y) * w.a + i.x; }); break; }
    case 9: { bool eq = s.r.v == o.r.v; num("matrixEqual", eq, [&] { return my_cnn::matrixEqual(s.m, o.m); }); break; }
    case 10: { bool eq = true; for (size_t i = 0; i < s.r.v.size(); i++) eq = eq && std::fabs(s.r.v[i] - o.r.v[i]) <= 4; num("matrixEqual with a tolerance", eq, [&] { return my_cnn::matrixEqual(s.m, o.m, 4); }); break; }
    case 11: {   // as text and back
        std::string text; SimpleMatrix<T> m; bool ok = false;
        op(x, "serialize and deserialize", true, [&] { std::stringstream ss; ss.exceptions(std::ios::badbit); o.m.serialize(ss); text = ss.str(); std::stringstream in(text); in.exceptions(std::ios::badbit); ok = m.deserialize(in); },
           [&] { if (x.faults && sim::faults_fired(sim::S_ALLOC)) return; if (!ok) bad(x.id, "deserialize", "refused what serialize wrote"); std::string d = mismatch(m, o.r); if (!d.empty()) bad(x.id, "deserialize", d); });
        break; }
    case 12: {   // printing
        std::string text;
        op(x, "print", true, [&] { std::ostringstream ss; ss.exceptions(std::ios::badbit); ss << s.m; text = ss.str(); }, [&] { if (x.faults && sim::faults_fired(sim::S_ALLOC)) return; if (text != w.text[(size_t)(&s - &w.flat[0])]) bad(x.id, "print", "the text differs from the one printed alone"); });
        break; }
    case 13: {   // arbitrary values as text and back
        SimpleMatrix<T> m(dim3(w.a, w.b, w.c)), back; bool ok = false; int bits = (int)g.range(1, 50);
        for (size_t i = 0; i < (size_t)m.size(); i++) { double v = std::ldexp((double)(int64_t)(g.next() >> 12) * (g.chance(0.5) ? 1 : -1), -bits); m[i] = std::is_integral<T>::value ? (T)(int32_t)g.next() : (T)v; }
        op(x, "serialize arbitrary values", true, [&] { std::stringstream ss; ss.exceptions(std::ios::badbit); m.serialize(ss); std::stringstream in(ss.str()); in.exceptions(std::ios::badbit); ok = back.deserialize(in); },
           [&] { if (x.faults && sim::faults_fired(sim::S_ALLOC)) return; if (!ok || back.dim() != m.dim()) bad(x.id, "deserialize", "refused what serialize wrote"); for (size_t i = 0; i < (size_t)m.size(); i++) if (!(back[i] == m[i])) bad(x.id, "deserialize", sim::fmt("a value read back is %.17g, it was %.17g", (double)back[i], (double)m[i])); });
        break; }
    }
}
// every way to reach the elements, one by one
template<class T> void access(Ctx<T>& x) {
    World<T>& w = *x.w; Rng& g = x.g; const Pair<T>& s = w.flat[g.below(w.flat.size())]; Pair<T>& o = x.own[g.below(3)];
    auto none = [] {}; const SimpleMatrix<T>& cm = s.m; std::string d;
    auto fine = [&](const char* n) { return [&x, &d, n] { if (!d.empty()) bad(x.id, n, d); }; };
    // f(i, j, k) is called for every element
    auto all = [&](const RM& r, auto f) { d.clear(); for (int k = 0; k < r.z; k++) for (int j = 0; j < r.y; j++) for (int i = 0; i < r.x; i++) { double v = (double)f(i, j, k); if (v != r.at(i, j, k)) { d = sim::fmt("element (%d,%d,%d) is %.9g, expected %.9g", i, j, k, v, r.at(i, j, k)); return; } } };
    // the elements in the order an iterator visits them, and their positions
    auto walk = [&](const RM& r, auto& m) { d.clear(); size_t n = 0; auto b = m.begin(); for (auto it = m.begin(), e = m.end(); it != e; n & 1 ? ++it : (void(it++), it), n++) {
        if (n >= r.v.size()) { d = "an iterator visits more elements than there are"; return; }
        dim3 p = it.idx(); size_t at = ((size_t)p.z * r.y + p.y) * r.x + p.x;
        if (at != n || (double)*it != r.v[n] || (size_t)(it - b) != n) { d = sim::fmt("element %zu of an iterator is %.9g at (%d,%d,%d), expected %.9g", n, (double)*it, (int)p.x, (int)p.y, (int)p.z, r.v[n]); return; } }
        if (n != r.v.size()) d = "an iterator visits fewer elements than there are"; };
    int i = (int)g.below((uint64_t)(w.big.r.x - w.a + 1)), j = (int)g.below((uint64_t)(w.big.r.y - w.b + 1)), k = (int)g.below((uint64_t)(w.big.r.z - w.c + 1));
    const RM part = w.big.r.sub(i, j, k, w.a, w.b, w.c); const SimpleMatrix<T>& cb = w.big.m;
    const dim3 st(i, j, k), sz(w.a, w.b, w.c);
    int a = (int)g.below((uint64_t)w.a), b = (int)g.below((uint64_t)w.b), c = (int)g.below((uint64_t)w.c), v = (int)g.range(-6, 6); RM want = x.part; want.at(a, b, c) = v;
    RM wo = o.r; wo.at(a, b, c) = v; auto cp = [&] { x.part = want; }; auto co = [&] { o.r = wo; };
    switch (g.below(20)) {
    case 0: op(x, "m(x, y, z)", true, [&] { all(s.r, [&](int p, int q, int r) { return cm((size_t)p, (size_t)q, (size_t)r); }); }, fine("m(x, y, z)")); break;
    case 1: op(x, "m(x, y)", true, [&] { all(s.r.sub(0, 0, 0, w.a, w.b, 1), [&](int p, int q, int) { return (p + q) & 1 ? cm((size_t)p, (size_t)q) : cm[cm.getIndex((size_t)p, (size_t)q)]; }); }, fine("m(x, y)")); break;
    case 2: op(x, "m[getIndex()]", true, [&] { all(s.r, [&](int p, int q, int r) { return (p + q) & 1 ? cm[cm.getIndex(dim3(p, q, r))] : cm[cm.getIndex((size_t)p, (size_t)q, (size_t)r)]; }); }, fine("m[getIndex()]")); break;
    case 3: op(x, "view(x, y, z)", true, [&] { const auto u = cb.subMatView(st, sz); all(part, [&](int p, int q, int r) { return u((uint32_t)p, (uint32_t)q, (uint32_t)r); }); }, fine("view(x, y, z)")); break;
    case 4: op(x, "view.at()", true, [&] { const auto u = cb.subMatView(st, sz); all(part, [&](int p, int q, int r) { return u.at(dim3(p, q, r)); }); }, fine("view.at()")); break;
    case 5: op(x, "m(x, y, z) not constant", true, [&] { all(o.r, [&](int p, int q, int r) { return o.m((size_t)p, (size_t)q, (size_t)r); }); }, fine("m(x, y, z)")); break;
    case 6: op(x, "view(x, y, z) not constant", true, [&] { auto u = w.big.m.subMatView(st, sz); all(part, [&](int p, int q, int r) { return u((uint32_t)p, (uint32_t)q, (uint32_t)r); }); }, fine("view(x, y, z)")); break;
    case 7: op(x, "view(dim3) and at() not constant", true, [&] { auto u = w.big.m.subMatView(st, sz); all(part, [&](int p, int q, int r) { return (p + q) & 1 ? u(dim3(p, q, r)) : u.at(dim3(p, q, r)); }); }, fine("view(dim3)")); break;
    case 8: op(x, "iterate over a matrix", true, [&] { walk(s.r, cm); }, fine("iterator of a matrix")); break;
    case 9: op(x, "iterate over a matrix that is not constant", true, [&] { walk(o.r, o.m); }, fine("iterator of a matrix")); break;
    case 10: op(x, "iterate over a view", true, [&] { const auto u = cb.subMatView(st, sz); walk(part, u); }, fine("iterator of a view")); break;
    case 11: op(x, "iterate over a view that is not constant", true, [&] { auto u = w.big.m.subMatView(st, sz); walk(part, u); }, fine("iterator of a view")); break;
    case 12: op(x, "iterate over an expression", true, [&] { const auto u = cm - o.m; walk(both(s.r, o.r, [](double p, double q) { return p - q; }), u); }, fine("iterator of an expression")); break;
    case 13: op(x, "elements of expressions", true, [&] { const auto u = cm * o.m; const auto t = my_cnn::transpose(w.tr[0].m); const auto q = cm + 1; RM tt = transposed(w.tr[0].r); all(s.r, [&](int p, int y, int z) {
            auto bd = [&](double g1, double w1) { return g1 == w1; }; uint32_t P_ = (uint32_t)p, Y = (uint32_t)y, Z = (uint32_t)z;
            if (!bd((double)u(P_, Y, Z), s.r.at(p, y, z) * o.r.at(p, y, z)) || !bd((double)t(P_, Y, Z), tt.at(p, y, z)) || !bd((double)q(P_, Y, Z), s.r.at(p, y, z) + 1)) return (double)1e9; return s.r.at(p, y, z); }); }, fine("elements of expressions")); break;
    case 14: op(x, "sizes", true, [&] { d.clear(); if (cm.dims() != sz || cm.dim() != sz || (int)cm.dim(0) != w.a || (int)cm.dim(1) != w.b || (int)cm.dim(2) != w.c || (int)cm.size() != w.a * w.b * w.c || cm.isFlat() != (w.c == 1) || cm.isSquare() != (w.a == w.b) || cm.isRow() != (w.c == 1 && w.a == 1) || cm.isColumn() != (w.c == 1 && w.b == 1)
                || sz.size() != (size_t)(w.a * w.b * w.c) || sz.getFlatIdx(dim3(a, b, c)) != (size_t)((c * w.b + b) * w.a + a) || sz + dim3(1, 2, 3) != dim3(w.a + 1, w.b + 2, w.c + 3) || sz - dim3(1, 2, 3) != dim3(w.a - 1, w.b - 2, w.c - 3)) d = "the matrix says something else about its size"; }, fine("sizes")); break;
    case 15: op(x, "write view(x, y, z)", true, [&] { part_view(x)((uint32_t)a, (uint32_t)b, (uint32_t)c) = (T)v; }, cp); break;
    case 16: op(x, "write view(dim3)", true, [&] { part_view(x)(dim3(a, b, c)) = (T)v; }, cp); break;
    case 17: op(x, "write through an iterator of a view", true, [&] { auto u = part_view(x); for (auto it = u.begin(), e = u.end(); it != e; ++it) if (it.idx() == dim3(a, b, c)) *it = (T)v; }, cp); break;
    case 18: op(x, "write m(x, y, z)", true, [&] { if (v & 1) o.m((size_t)a, (size_t)b, (size_t)c) = (T)v; else o.m(dim3(a, b, c)) = (T)v; }, co); break;
    case 19: op(x, "write m[]", true, [&] { o.m[((size_t)c * w.b + b) * w.a + a] = (T)v; }, co); break;
    }
    (void)none;
}
// matrices and views without elements
template<class T> void empty(Ctx<T>& x) {
    World<T>& w = *x.w; Rng& g = x.g; const Pair<T>& s = w.flat[0]; Pair<T>& o = x.own[g.below(3)];
    int d = (int)g.below(3); const int ex = d == 0 ? 0 : w.a, ey = d == 1 ? 0 : w.b, ez = d == 2 ? 0 : w.c;
    auto none = [] {}; double got = 0;
    auto want = [&](double v) { return [&, v] { if (got != v) bad(x.id, "a matrix without elements", sim::fmt("the result is %.9g, expected %.9g", got, v)); }; };
    switch (g.below(8)) {
    case 0: { SimpleMatrix<T> m; op(x, "construct a matrix without elements", true, [&] { SimpleMatrix<T> e(dim3(ex, ey, ez), (T)1); m = e + e; m += 1; m *= e; got = (double)my_cnn::sum(m) + (double)m.size(); }, want(0)); break; }
    case 1: op(x, "view without elements", true, [&] { auto v = s.m.subMatView(dim3(0, 0, 0), dim3(ex, ey, ez)); SimpleMatrix<T> c = v; got = (double)my_cnn::sum(v) + (double)c.size(); }, want(0)); break;
    case 2: op(x, "fill a view without elements", true, [&] { auto v = o.m.subMatView(dim3(ex ? 0 : (int)g.range(0, w.a), ey ? 0 : (int)g.range(0, w.b), ez ? 0 : (int)g.range(0, w.c)), dim3(ex, ey, ez)); v = 7; v += 1; }, none); break;
    case 3: op(x, "resize to no elements", true, [&] { SimpleMatrix<T> c = s.m; c.resize(ex, ey, ez); c += 5; c.resize(w.a, w.b, w.c); got = (double)my_cnn::sum(c); }, want(0)); break;
    case 4: op(x, "assign a matrix without elements", true, [&] { SimpleMatrix<T> m = s.m; m = SimpleMatrix<T>(dim3(ex, ey, ez)); got = (double)m.size(); m -= 1; got += (double)my_cnn::sum(m); m = s.m; got += !my_cnn::matrixEqual(m, s.m); }, want(0)); break;
    case 5: op(x, "transpose of no elements", true, [&] { SimpleMatrix<T> e(dim3(ex, ey, ez)); SimpleMatrix<T> t = my_cnn::transpose(e); got = (double)t.size() + (t.dim() == dim3(ey, ex, ez) ? 0 : 1); }, want(0)); break;
    case 6: op(x, "compare matrices without elements", true, [&] { SimpleMatrix<T> e(dim3(ex, ey, ez)), f(dim3(ex, ey, ez)); got = my_cnn::matrixEqual(e, f) && e.begin() == e.end(); }, want(1)); break;
    case 7: { bool ok = false; op(x, "no elements as text and back", true, [&] { SimpleMatrix<T> e(dim3(ex, ey, ez)), f(dim3(1, 1, 1)); std::stringstream ss; ss.exceptions(std::ios::badbit); e.serialize(ss); ss << "rest\n"; ok = f.deserialize(ss) && f.dim() == e.dim(); if (d != 2) { std::ostringstream p; p.exceptions(std::ios::badbit); p << e; } }, [&] { if (!ok && !(x.faults && sim::faults_fired(sim::S_ALLOC))) bad(x.id, "deserialize", "refused what serialize wrote"); }); break; }
    }
}
// operations that must be refused
template<class T> void illformed(Ctx<T>& x) {
    World<T>& w = *x.w; Rng& g = x.g;
    Pair<T>& o = x.own[g.below(3)]; const Pair<T>& s = w.flat[0];
    RM odd = draw(g, w.a + 1, w.b, w.c);      // another shape, with fewer, as many or more elements
    switch (g.below(6)) {
    case 0: if (w.b > 1) odd = draw(g, w.a, w.b - 1, w.c); break;
    case 1: odd = draw(g, w.a, w.b, w.c + 1); break;
    case 2: if (w.c > 1) odd = draw(g, w.a, w.b, w.c - 1); break;
    case 3: if (w.a != w.b) odd = draw(g, w.b, w.a, w.c); break;
    case 4: if (w.b != 1) odd = draw(g, w.a * w.b, 1, w.c); else if (w.c != 1) odd = draw(g, w.a, w.c, 1); break;
    }
    SimpleMatrix<T> om = real_of<T>(odd);
    SimpleMatrix<T> out; auto none = [] {};
    const SimpleMatrix<T>& cm = s.m;
    switch (g.below(21)) {
    case 0: { int k = (int)g.below(6); op(x, "element-wise operation on different shapes", false, [&, k] { switch (k) { case 0: out = s.m + om; break; case 1: out = om - s.m; break; case 2: out = s.m * (om + 1); break; case 3: out = (s.m < om); break; case 4: out = SimpleMatrix<T>(om) + SimpleMatrix<T>(s.m); break; default: part_view(x) = s.m * om; } }, none); break; }
    case 1: { int k = (int)g.below(6); op(x, "compound assignment of another shape", false, [&, k] { switch (k) { case 0: o.m += om; break; case 1: o.m -= om; break; case 2: o.m *= om; break; case 3: o.m /= om; break; case 4: o.m += om - 1; break; default: o.m -= my_cnn::abs(om); } }, none); break; }
    case 2: op(x, "view = another shape", false, [&] { part_view(x) = om; }, none); break;
    case 3: op(x, "view *= another shape", false, [&] { part_view(x) *= om - 1; }, none); break;
    case 4: { int d = (int)g.below(6); dim3 st(d == 0 ? w.a : 0, d == 1 ? 1 : 0, d == 2 ? 1 : 0), sz(d == 3 ? w.a + 1 : 1, d == 1 ? w.b : d == 4 ? w.b + 1 : 1, d == 2 ? w.c : d == 5 ? w.c + 1 : 1);
        op(x, "view beyond the end", false, [&] { auto v = cm.subMatView(st, sz); out = v; }, none); break; }
    case 5: { int d = (int)g.below(3); dim3 st(d == 0 ? -1 : 0, d == 1 ? -1 : 0, d == 2 ? -1 : 0); op(x, "view before the beginning", false, [&] { auto v = cm.subMatView(st, dim3(1, 1, 1)); out = v; }, none); break; }
    case 6: op(x, "slice beyond the end", false, [&] { auto v = cm.slices(w.c - 1, 2); out = v; }, none); break;
    case 7: op(x, "slice of a view beyond its end", false, [&] { auto v = static_cast<const SimpleMatrix<T>&>(w.big.m).slices(0, 1); auto u = v.slice(1); out = u; }, none); break;
    case 8: { bool depth = g.chance(0.4); dim3 d2(depth ? w.b : g.chance(0.5) ? w.b + 1 : w.b - 1, (int)g.range(1, 3), depth ? w.c + 1 : w.c); bool sw = depth && g.chance(0.5) && d2.y == w.a;
        op(x, "matrix product of wrong shapes", false, [&, sw] { SimpleMatrix<T> m2(d2, (T)1); if (sw) out = my_cnn::matrixMultiply(m2, s.m); else out = my_cnn::matrixMultiply(s.m, m2); }, none); break; }
    case 9: op(x, "reshape to another size", false, [&] { x.loose.m.reshape(x.loose.r.x, x.loose.r.y, x.loose.r.z + 1); }, none); break;
    case 10: op(x, "quarter turn of a matrix that is not square", false, [&] { SimpleMatrix<T> q(dim3(w.a, w.a + 1, 1)); out = my_cnn::rotate<1>(q); }, none); break;
    case 11: { const size_t n0 = o.r.v.size(), vn = g.chance(0.5) ? n0 + 1 + g.below(4) : n0 - 1 - g.below(n0); op(x, "wrong number of values", false, [&, vn] { std::vector<T> v(vn, (T)9); if (g.chance(0.5)) o.m = std::move(v); else o.m.setEntries(std::move(v)); }, none); break; }
    case 12: op(x, "convolution with a larger filter", false, [&] { SimpleMatrix<T> f(dim3(w.a + (int)g.below(2), w.b + 1, 1), (T)1); auto v = cm.slice(0); out = my_cnn::convolve(v, f, dim2(1, 1)); }, none); break;
    case 13: op(x, "dot product of different lengths", false, [&] { SimpleMatrix<T> p(dim3(1, 3, 1)), q(dim3(4, 1, 1)); volatile double d = (double)my_cnn::dot(p, q); (void)d; }, none); break;
    case 15: { bool fx = g.chance(0.5); int z = g.chance(0.5) ? 0 : -1; op(x, "convolution with a stride below one", false, [&, fx, z] { auto v = cm.slice(0); SimpleMatrix<T> f(dim3(1, 1, 1), (T)1); out = my_cnn::convolve(v, f, dim2(fx ? z : 1, fx ? 1 : z)); }, none); break; }
    case 16: {   // parts of a view that begin before it or end behind it, inside the viewed matrix or not
        int d = (int)g.below(3), how = (int)g.below(4); const dim3 st(d == 0, d == 1, d == 2), in(d == 0 ? -1 : 0, d == 1 ? -1 : 0, d == 2 ? -1 : 0), one(1, 1, 1), two(d == 0 ? 2 : 1, d == 1 ? 2 : 1, d == 2 ? 2 : 1);
        if ((d == 0 ? w.big.r.x : d == 1 ? w.big.r.y : w.big.r.z) < 2) break;
        op(x, "part of a view outside of it", false, [&, d, how, st, in, one, two] { auto v = static_cast<const SimpleMatrix<T>&>(w.big.m).subMatView(how == 0 ? st : dim3(0, 0, 0), one); if (d == 2 && how == 3) { auto b = static_cast<const SimpleMatrix<T>&>(w.big.m).slices(1, 1); out = b.slice(-1); } else { typedef decltype(v) V; V u(v, how == 0 ? in : how == 1 ? st : dim3(0, 0, 0), how < 2 ? one : two); out = u; } }, none); break; }
    case 19: { int d = (int)g.below(3), how = (int)g.below(3); const dim3 st(0, 0, 0), sz(d == 0 ? -1 : 1, d == 1 ? -1 : 1, d == 2 ? -1 : 1);
        op(x, "view of negative size", false, [&, st, sz, how] { if (how == 0) { auto v = cm.subMatView(st, sz); out = v; } else if (how == 1) { auto v = cm.slice(0); typedef decltype(v) V; V u(v, st, sz); out = u; } else out = cm.subMatCopy(st, sz); }, none); break; }
    case 20: op(x, "a list of the wrong length for a new matrix", false, [&] { std::vector<T> v(w.a * w.b * w.c + 1, (T)1); SimpleMatrix<T> m(dim3(w.a, w.b, w.c), std::move(v)); out = m; }, none); break;
    case 18: { bool f = g.chance(0.5); op(x, "convolution of several layers", false, [&, f] { SimpleMatrix<T> a(dim3(w.a, w.b, f ? 2 : 1), (T)1), b(dim3(1, 1, f ? 1 : (int)g.range(0, 2) * 2), (T)1); out = my_cnn::convolve(a, b, dim2(1, 1)); }, none); break; }
    case 17: { int how = (int)g.below(4); op(x, "slices before the beginning or fewer than none", false, [&, how] { if (how == 0) out = cm.slice(-1); else if (how == 1) out = cm.slices(0, -1); else if (how == 2) { auto v = o.m.slices(-1, 1); v = (T)3; } else { auto v = o.m.slice(w.c); v = (T)3; } }, none); break; }
    case 14: { int d = (int)g.below(6); bool wr = g.chance(0.5); dim3 i(d == 0 ? w.a : d == 3 ? -1 : 0, d == 1 ? w.b : d == 4 ? -1 : 0, d == 2 ? w.c : d == 5 ? -1 : 0);
        op(x, "at() outside a view", false, [&, wr] { if (wr) { auto v = part_view(x); v.at(i) = (T)5; } else { const auto v = cm.subMatView(dim3(0, 0, 0), dim3(w.a, w.b, w.c)); volatile double q = (double)v.at(i); (void)q; } }, none); break; }
    }
}
template<class T> void step(Ctx<T>& x) {
    double u = x.g.unit();
    if (x.bad && u < 0.2) illformed(x);
    else if (u < 0.23) empty(x);
    else if (u < 0.45) elementwise(x);
    else if (u < 0.65) structural(x);
    else if (u < 0.82) inplace(x);
    else if (u < 0.88) access(x);
    else reduce(x);
}
// the shared matrices afterwards
template<class T> void audit_world(World<T>& w, std::deque<Ctx<T>>& cs) {
    auto chk = [&](const auto& m, const RM& r, const char* what) { std::string d = mismatch(m, r); if (!d.empty()) sim::violation("matrix", std::string("a matrix that was only read (") + what + ") afterwards: " + d); };
    for (auto& p : w.flat) chk(p.m, p.r, "shared"); for (auto& p : w.tr) chk(p.m, p.r, "shared"); for (auto& p : w.sq) chk(p.m, p.r, "shared");
    chk(w.div.m, w.div.r, "divisor"); chk(w.big.m, w.big.r, "larger"); chk(w.fl.m, w.fl.r, "float"); chk(w.in.m, w.in.r, "int");
    RM all = w.split.r;
    for (auto& c : cs) all.put(c.px, c.py, c.pz, c.part);
    std::string d = mismatch(w.split.m, all);
    if (!d.empty()) sim::violation("matrix", "the matrix written through disjoint views afterwards: " + d);
}

struct Cout {      // how std::cout formats must not change
    std::ios::fmtflags f = std::cout.flags(); std::streamsize p = std::cout.precision(), w = std::cout.width();
    ~Cout() noexcept(false) {
        if (std::cout.flags() != f || std::cout.precision() != p || std::cout.width() != w) sim::violation("matrix", sim::fmt("printing to other streams changed how std::cout formats: precision %d, before %d", (int)std::cout.precision(), (int)p));
    }
};
template<class T> void run_c23() {
    Cout guard;
    World<T> w; Rng g((uint64_t)P("valueseed", 1, 1 << 20));
    const int nt = (int)P("threads", 2, 4);
    make_world(w, g, nt);
    std::deque<Ctx<T>> cs;
    for (int t = 0; t < nt; t++) { cs.emplace_back(&w, g.next()); make_ctx(cs.back(), t); }
    std::vector<long> n; for (int t = 0; t < nt; t++) n.push_back(P("ops" + std::to_string(t), 1, 30));
    for (auto& c : cs) c.bad = chance("bad", 15);
    {
        sim::Scope sc;
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] { sim::Pause p; for (long i = 0; i < n[(size_t)t]; i++) step(cs[(size_t)t]); });
        for (auto& t : th) t.join();
    }
    audit_world(w, cs);
}
template<class T> void run_c24() {
    Cout guard;
    World<T> w; Rng g((uint64_t)P("valueseed", 1, 1 << 20));
    make_world(w, g, 1);
    std::deque<Ctx<T>> cs; cs.emplace_back(&w, g.next()); Ctx<T>& x = cs.back(); make_ctx(x, 0);
    x.bad = true;
    long n = P("ops", 1, 60), mean = P("mean", 1, 4);
    for (long i = 0; i < n; i++) {
        bool f = x.g.chance(0.6);
        if (f) { sim::fault_arm(sim::S_ALLOC, 1.0 / (double)mean, 1, 1); x.faults = true; }
        step(x);
        if (f) { sim::fault_disarm(sim::S_ALLOC); x.faults = false; }
    }
    audit_world(w, cs);
}
} // namespace mx
