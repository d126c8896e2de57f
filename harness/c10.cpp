// C10: weight domains obey the laws the searches rely on. All pairs and triples over a value set with every special element.
#include "mc.h"
#include <pdaaal/Weight.h>
using namespace pdaaal;
template<typename T> std::string show(const T& t) { std::ostringstream o; o << +t; return o.str(); }
template<typename T> std::string show(const std::vector<T>& v) { std::string r = "["; for (auto& x : v) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; }
template<typename T, size_t N> std::string show(const std::array<T, N>& v) { std::string r = "["; for (auto& x : v) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; }

// ---- the abstract domain: a finite value is a list of rationals (here: doubles hold them exactly), or one of the two special elements
enum Kind { FIN, TOP, BOT };
template<typename T> struct Abs { Kind k; std::vector<long double> v; T t; };
template<typename T> std::vector<long double> flat(const T& t) { return {(long double)t}; }
template<typename T> std::vector<long double> flat(const std::vector<T>& t) { return std::vector<long double>(t.begin(), t.end()); }
template<typename T, size_t N> std::vector<long double> flat(const std::array<T, N>& t) { return std::vector<long double>(t.begin(), t.end()); }
inline int cmp(const std::vector<long double>& a, const std::vector<long double>& b, bool mx) { // <0: a strictly better
    for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { long double x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if (x != y) return ((x < y) != mx) ? -1 : 1; }
    return 0;
}
template<typename W, bool mx> struct Domain {
    using T = typename W::type;
    std::vector<Abs<T>> vals; std::string name;
    bool bottom_is_finite = false; // unsigned minimisation: the unbounded element is zero, an ordinary value
    void fin(const T& t) { vals.push_back({FIN, flat(t), t}); }
    // abstract comparison: -1 better, 0 same, 1 worse
    int order(const Abs<T>& a, const Abs<T>& b) const {
        if (a.k != FIN || b.k != FIN) { auto rank = [](Kind k) { return k == BOT ? 0 : k == FIN ? 1 : 2; }; return rank(a.k) < rank(b.k) ? -1 : rank(a.k) > rank(b.k) ? 1 : 0; }
        return cmp(a.v, b.v, mx);
    }
    // abstract sum
    Abs<T> sum(const Abs<T>& a, const Abs<T>& b) const {
        if (a.k == TOP || b.k == TOP) return {TOP, {}, W::max()};
        if (a.k == BOT || b.k == BOT) return {BOT, {}, W::bottom()};
        std::vector<long double> v; for (size_t i = 0; i < std::max(a.v.size(), b.v.size()); ++i) v.push_back((i < a.v.size() ? a.v[i] : 0) + (i < b.v.size() ? b.v[i] : 0));
        return {FIN, v, T{}};
    }
    bool is(const T& t, const Abs<T>& a) const { // does the concrete value t represent a
        if (a.k == TOP) return t == W::max();
        if (a.k == BOT) return t == W::bottom();
        if (t == W::max() || (!bottom_is_finite && t == W::bottom())) return false;
        return cmp(flat(t), a.v, mx) == 0;
    }
    void run(bool triples = true) {
        vals.push_back({TOP, {}, W::max()});
        if (!bottom_is_finite) vals.push_back({BOT, {}, W::bottom()});
        for (auto& a : vals) mc::run_case([&] { return name + " " + show(a.t); }, [&] {
            mc::count("states");
            mc::require(!W::less(a.t, a.t), "less is not irreflexive");
            Abs<T> z{FIN, {}, W::zero()};
            mc::require(is(W::zero(), Abs<T>{FIN, {}, T{}}), "zero is not the zero weight");
            mc::require_f(is(W::add(a.t, W::zero()), a) && is(W::add(W::zero(), a.t), a), [&] { return "zero is not neutral: " + show(W::add(a.t, W::zero())); });
            mc::require(!W::less(a.t, W::bottom()), "something is better than the unbounded element");
            mc::require(!W::less(W::max(), a.t), "something is worse than the unreachable element");
            mc::require(a.k == TOP || W::less(a.t, W::max()), "a finite weight is not better than unreachable");
        });
        for (auto& a : vals) for (auto& b : vals) mc::run_case([&] { return name + " " + show(a.t) + " and " + show(b.t); }, [&] {
            mc::count("transitions"); mc::count("nontrivial", a.k == FIN && b.k == FIN);
            int o = order(a, b);
            mc::require_f(W::less(a.t, b.t) == (o < 0), [&] { return "less is " + std::to_string(W::less(a.t, b.t)) + " but the order is " + std::to_string(o); });
            auto s = sum(a, b);
            auto t = W::add(a.t, b.t);
            mc::require_f(is(t, s), [&] { return "wrong sum " + show(t); });
            mc::require_f(t == W::add(b.t, a.t), [&] { return "addition is not commutative"; });
        });
        if (triples) for (auto& a : vals) for (auto& b : vals) for (auto& c : vals) mc::run_case([&] { return name + " triple " + show(a.t) + ", " + show(b.t) + ", " + show(c.t); }, [&] {
            auto s = sum(sum(a, b), c);
            mc::require_f(is(W::add(W::add(a.t, b.t), c.t), s), [&] { return "wrong left sum " + show(W::add(W::add(a.t, b.t), c.t)); });
            mc::require_f(is(W::add(a.t, W::add(b.t, c.t)), s), [&] { return "wrong right sum " + show(W::add(a.t, W::add(b.t, c.t))); });
            if (W::less(a.t, b.t) && W::less(b.t, c.t)) mc::require(W::less(a.t, c.t), "less is not transitive");
            if (!W::less(b.t, a.t)) mc::require(!W::less(W::add(b.t, c.t), W::add(a.t, c.t)), "addition is not monotone");
            mc::count("triples");
        });
    }
};
template<typename T> std::vector<T> scalars(bool tiny) {
    std::vector<T> r; constexpr bool sg = std::numeric_limits<T>::is_signed;
    for (long x : tiny ? std::vector<long>{0, 1, 2} : std::vector<long>{0, 1, 2, 3, 7, 10, 20, 30}) { r.push_back((T)x); if (sg && x) r.push_back((T)-x); }
    if (!tiny && !std::is_integral_v<T>) for (double x : {0.25, -0.5, 1.5, 1e10, -1e10}) if (sizeof(T) > 4 || std::abs(x) < 100) r.push_back((T)x);
    if (!tiny && std::is_integral_v<T> && sizeof(T) > 1) for (long x : {100l, 1000l, 5000l}) { r.push_back((T)x); if (sg) r.push_back((T)-x); }
    if (!tiny && std::is_integral_v<T> && sizeof(T) > 2) for (long x : {65536l, 100000000l}) { r.push_back((T)x); if (sg) r.push_back((T)-x); }
    if (!tiny && std::is_integral_v<T> && sizeof(T) > 4) for (long x : {4294967296l, 1000000000000000l}) { r.push_back((T)x); if (sg) r.push_back((T)-x); }
    return r;
}
template<typename T, bool mx> using IW = std::conditional_t<mx, max_weight<T>, min_weight<T>>;
template<typename T, bool mx> void run_scalar(std::string n) { Domain<IW<T, mx>, mx> d; d.name = n + (mx ? " max" : " min"); d.bottom_is_finite = !mx && !std::numeric_limits<T>::is_signed; for (T x : scalars<T>(false)) d.fin(x); d.run(); }
template<typename T, bool mx> void run_vec(std::string n) {
    Domain<IW<std::vector<T>, mx>, mx> d; d.name = "vector " + n + (mx ? " max" : " min"); d.bottom_is_finite = !mx && !std::numeric_limits<T>::is_signed;
    auto s = scalars<T>(true); d.fin({}); for (T a : s) { d.fin({a}); for (T b : s) { d.fin({a, b}); if (a != 2) for (T c : s) if (mc::thorough() || c != 2) d.fin({a, b, c}); } }
    d.run();
}
template<typename T, bool mx> void run_arr(std::string n) {
    { Domain<IW<std::array<T, 2>, mx>, mx> d; d.name = "array2 " + n + (mx ? " max" : " min"); d.bottom_is_finite = !mx && !std::numeric_limits<T>::is_signed; auto s = scalars<T>(true); for (T a : s) for (T b : s) d.fin({a, b}); d.run(); }
    { Domain<IW<std::array<T, 3>, mx>, mx> d; d.name = "array3 " + n + (mx ? " max" : " min"); d.bottom_is_finite = !mx && !std::numeric_limits<T>::is_signed; auto s = scalars<T>(true); for (T a : s) for (T b : s) for (T c : s) if (mc::thorough() || c != 2) d.fin({a, b, c}); d.run(); }
}
// every pair of representable values of the 8-bit types: exact within range, saturating (never wrapping, never reaching the unreachable element) outside
template<typename T, bool mx> void range(std::string n, const std::vector<T>& V) {
    using W = IW<T, mx>; constexpr bool sg = std::numeric_limits<T>::is_signed; using B = __int128;
    B lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    T top = W::max(), bot = W::bottom();
    for (T a : V) mc::run_case([&] { return n + (mx ? " max" : " min") + " all sums with " + std::to_string(a); }, [&] {
        for (T b : V) {
            B x = a, y = b; T r = W::add(a, b); mc::count("transitions"); mc::count("states");
            auto bad = [&](const char* m) { mc::fail(std::string(m) + ": " + std::to_string(a) + " + " + std::to_string(b) + " = " + std::to_string(r)); };
            bool finb = !sg && !mx;
            bool l = W::less(a, b); int ra = a == top ? 2 : (!finb && a == bot) ? 0 : 1, rb = b == top ? 2 : (!finb && b == bot) ? 0 : 1;
            bool want = ra != rb ? ra < rb : ra == 1 && (mx ? x > y : x < y);
            if (l != want) bad("wrong order");
            if (a == top || b == top) { if (r != top) bad("the unreachable element does not absorb"); continue; }
            if (!finb && (a == bot || b == bot)) { if (r != bot) bad("the unbounded element does not absorb"); continue; }
            if (r == top) bad("a sum of reachable weights is unreachable");
            B s = x + y; // exact
            B f1 = sg ? lo + 1 : lo, f2 = (mx && !sg) ? hi - 2 : hi - 1; // range of ordinary finite values
            if (s >= f1 && s <= f2) { if (r != s) bad("wrong sum"); }
            else { // out of range: as good or bad as can be represented, on the right side
                bool best_side = mx ? s > f2 : s < f1;
                if (best_side && r != bot) bad("a sum beyond the range is not the unbounded element");
                if (!best_side && W::less(r, mx ? (T)f1 : (T)f2)) bad("an overflowing sum became better");
            }
        }
    });
}
template<typename T, bool mx> void bytes(std::string n) { std::vector<T> v; for (int x = std::numeric_limits<T>::lowest(); x <= std::numeric_limits<T>::max(); ++x) v.push_back((T)x); range<T, mx>(n, v); }
// wider types: everything near zero, the limits, their halves and every power of two
template<typename T> void limits(std::string n) {
    std::set<T> s; using B = __int128; B lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    auto put = [&](B c, int d) { for (int k = -d; k <= d; ++k) if (c + k >= lo && c + k <= hi) s.insert((T)(c + k)); };
    put(0, 4); put(lo, 4); put(hi, 4); put(lo / 2, 2); put(hi / 2, 2); for (int i = 3; i < (int)sizeof(T) * 8; ++i) { put((B)1 << i, 1); put(-((B)1 << i), 1); }
    std::vector<T> v(s.begin(), s.end()); range<T, false>(n, v); range<T, true>(n, v);
}
// linear and ordered combinations: every small tree of combinations against direct evaluation
template<typename W> void functions(std::string n, const std::vector<W>& consts) {
    using F = linear_weight_function<W, int, int>;
    std::vector<std::pair<std::string, std::function<W(int, int)>>> leaf = {{"x", [](int x, int) -> W { return (W)x; }}, {"y", [](int, int y) -> W { return (W)y; }}, {"x*y+1/2", [](int x, int y) -> W { return (W)(x * y) + (W)1 / (W)2; }}};
    std::vector<std::pair<std::string, F>> fs; std::vector<std::function<W(int, int)>> direct;
    for (auto& [s, f] : leaf) { fs.push_back({s, F(f)}); direct.push_back(f); }
    size_t base = fs.size();
    auto combine = [&](std::vector<std::pair<W, size_t>> parts) {
        std::vector<std::pair<W, F>> v; std::string s = "("; std::vector<std::pair<W, std::function<W(int, int)>>> dv;
        for (auto& [c, i] : parts) { v.emplace_back(c, fs[i].second); s += show(c) + "*" + fs[i].first + " "; dv.push_back({c, direct[i]}); }
        fs.push_back({s + ")", F(v)}); direct.push_back([dv](int x, int y) { W r = 0; for (auto& [c, f] : dv) r = (W)(r + (W)(c * f(x, y))); return r; });
    };
    combine({});
    for (W a : consts) for (size_t i = 0; i < base; ++i) { combine({{a, i}}); for (W b : consts) for (size_t j = 0; j < base; ++j) combine({{a, i}, {b, j}}); }
    size_t mid = fs.size();
    for (W a : consts) for (size_t i = base; i < mid; i += 3) combine({{a, i}, {consts[0], 0}});
    for (size_t k = 0; k < fs.size(); ++k) for (int x : {0, 1, 3, -2}) for (int y : {0, 2, 5}) {
        if (!std::numeric_limits<W>::is_signed && x < 0) continue;
        mc::run_case([&] { return n + " function " + fs[k].first + " at " + std::to_string(x) + "," + std::to_string(y); }, [&] {
            W got = fs[k].second(x, y), want = direct[k](x, y); mc::count("states"); mc::count("nontrivial", k >= base);
            mc::require_f(got == want, [&] { return "evaluates to " + show(got) + ", the weighted sum is " + show(want); });
            std::vector<F> ls{fs[k].second, fs[0].second, fs[(k * 7) % fs.size()].second};
            ordered_weight_function<W, int, int> o(ls); auto v = o(x, y);
            mc::require_f(v == std::vector<W>{want, direct[0](x, y), direct[(k * 7) % fs.size()](x, y)}, [&] { return "ordered combination is " + show(v); });
        });
    }
}
// longer composite weights: one non-zero component at every position of every length, and full ones; large components
template<typename T> std::vector<std::vector<T>> long_values(int N, bool fixed) {
    std::vector<std::vector<T>> r; constexpr bool sg = std::numeric_limits<T>::is_signed; std::vector<T> big{1, 3, 200, 1000000000}; if (sg) for (T x : {-1, -300, -1000000000}) big.push_back(x);
    for (int n = fixed ? N : 0; n <= N; ++n) { for (int i = 0; i < n; ++i) for (T c : i == n - 1 || i == 0 ? big : std::vector<T>{1, (T)(sg ? -1 : 2)}) { std::vector<T> v(n, (T)0); v[i] = c; r.push_back(v); } std::vector<T> z(n, (T)0), o(n, (T)1), a, d; for (int i = 0; i < n; ++i) { a.push_back(i + 1); d.push_back(n - i); } r.push_back(z); r.push_back(o); r.push_back(a); r.push_back(d); }
    return r;
}
template<typename T, bool mx> void long_vec(std::string n) { Domain<IW<std::vector<T>, mx>, mx> d; d.name = "long vector " + n + (mx ? " max" : " min"); d.bottom_is_finite = !mx && !std::numeric_limits<T>::is_signed; for (auto& v : long_values<T>(mc::thorough() ? 12 : 9, false)) d.fin(v); for (int k : {17, 33, 70}) { d.fin(std::vector<T>(k, (T)0)); d.fin(std::vector<T>(k, (T)1)); auto v = std::vector<T>(k, (T)0); v.back() = 1; d.fin(v); } d.run(false); }
template<typename T, bool mx, size_t N> void long_arr1(std::string n) { Domain<IW<std::array<T, N>, mx>, mx> d; d.name = "array" + std::to_string(N) + " " + n + (mx ? " max" : " min"); d.bottom_is_finite = !mx && !std::numeric_limits<T>::is_signed; for (auto& v : long_values<T>(N, true)) { std::array<T, N> a; std::copy(v.begin(), v.end(), a.begin()); d.fin(a); } d.run(false); }
template<typename T, bool mx> void long_all(std::string n) { long_vec<T, mx>(n); long_arr1<T, mx, 1>(n); long_arr1<T, mx, 4>(n); long_arr1<T, mx, 5>(n); long_arr1<T, mx, 8>(n); long_arr1<T, mx, 9>(n); long_arr1<T, mx, 17>(n); }
int main(int argc, char** argv) {
    mc::Check c; c.property = "C10";
    c.rule = "every single, pair and triple of the value set of each weight type (finite values of both signs, the unreachable and the unbounded element, vectors of different lengths) and all pairs of 8-bit values, compared with exact arithmetic; non-trivial = both values finite";
    c.assumptions = {"laws of exact arithmetic are required where the exact sum is representable; beyond that addition must saturate on the right side"};
    c.bounds_quick = "18 scalar instantiations, vectors of length <=3 and arrays of 2 and 3 over {0,+-1,+-2}, all 65536 pairs of int8/uint8 in both directions, all pairs of the values within 4 of zero, the limits, half the limits and every power of two for the 16- to 64-bit types, vectors of every length to 9 (and 17, 33, 70) and arrays of 1, 4, 5, 8, 9, 17 components with one non-zero component at every position, large components, all pairs; all combination trees of depth <=3 over the listed constants";
    c.bounds_thorough = c.bounds_quick + "; larger vector sets";
    c.suites = {
        {"scalar", [] { run_scalar<int, false>("int"); run_scalar<int, true>("int"); run_scalar<uint32_t, false>("uint32"); run_scalar<uint32_t, true>("uint32"); run_scalar<size_t, false>("size_t"); run_scalar<size_t, true>("size_t");
            run_scalar<long, false>("long"); run_scalar<long, true>("long"); run_scalar<int16_t, false>("int16"); run_scalar<int16_t, true>("int16"); run_scalar<uint16_t, false>("uint16"); run_scalar<uint16_t, true>("uint16");
            run_scalar<int8_t, false>("int8"); run_scalar<uint8_t, true>("uint8"); run_scalar<float, false>("float"); run_scalar<float, true>("float"); run_scalar<double, false>("double"); run_scalar<double, true>("double"); }},
        {"bytes", [] { bytes<int8_t, false>("int8"); bytes<int8_t, true>("int8"); bytes<uint8_t, false>("uint8"); bytes<uint8_t, true>("uint8"); }},
        {"limits", [] { limits<int16_t>("int16"); limits<uint16_t>("uint16"); limits<int32_t>("int32"); limits<uint32_t>("uint32"); limits<int64_t>("int64"); limits<uint64_t>("uint64"); }},
        {"array", [] { run_arr<int, false>("int"); run_arr<int, true>("int"); run_arr<uint32_t, false>("uint32"); run_arr<uint32_t, true>("uint32"); run_arr<double, false>("double"); run_arr<double, true>("double"); }},
        {"vector", [] { run_vec<int, false>("int"); run_vec<int, true>("int"); run_vec<uint32_t, false>("uint32"); run_vec<uint32_t, true>("uint32"); run_vec<double, false>("double"); run_vec<double, true>("double"); run_vec<long, false>("long"); run_vec<size_t, true>("size_t"); }},
        {"long", [] { long_all<int, false>("int"); long_all<int, true>("int"); long_all<uint32_t, false>("uint32"); long_all<uint32_t, true>("uint32"); long_all<double, false>("double"); long_all<double, true>("double"); }},
        {"functions", [] { functions<long>("long", {1, -2, 4}); functions<double>("double", {0.5, -1.25, 3}); functions<size_t>("size_t", {1, 5000000000ul, 3}); }},
    };
    return mc::main_(argc, argv, c);
}
