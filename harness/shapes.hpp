// Tree shapes for histories. BDS traversal with parameter k is defined for th - k even (k = 0 and 1 work for any
// height); several layers additionally need th - k >= 2 so that there is an update to spend per signature.
#pragma once
#include "lib.hpp"
namespace shapes {
struct S { unsigned th, d, k; };
inline bool legal(unsigned th, unsigned d, unsigned k) {
    if (th < 2 || k > th) return false;
    if (k > 1 && (th - k) % 2) return false;
    if (d > 1 && th - k < 2) return false;
    if (d == 1 && k == th) return false;
    return true;
}
// every legal shape with a lifetime of at most 2^maxh signatures
inline std::vector<S> all(unsigned maxh, unsigned minh = 2) {
    std::vector<S> v;
    for (unsigned d = 1; d <= maxh; d++) for (unsigned th = 2; th * d <= maxh; th++) for (unsigned k = 0; k <= th; k++)
        if (th * d >= minh && legal(th, d, k)) v.push_back({th, d, k});
    return v;
}
inline std::vector<eng::Fixed> strata(const std::vector<S> &v) {
    std::vector<eng::Fixed> f;
    for (auto &s : v) f.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}});
    return f;
}
// hash function and n from field "g" (0..6), w from field "wi" if present
inline ref::P params(const eng::Case &c, unsigned g) {
    static const struct { int f; unsigned n; } t[] = {{0, 32}, {0, 64}, {1, 32}, {2, 64}, {0, 24}, {2, 32}, {2, 24}};
    static const unsigned w[] = {16, 4, 256};
    unsigned wi = c.v.count("wi") ? (unsigned)c["wi"] : 0;
    return ref::make(t[g].f, t[g].n, w[wi], (unsigned)(c["th"] * c["d"]), (unsigned)c["d"], (unsigned)c["k"]);
}
inline std::vector<eng::Field> cat(std::vector<eng::Field> a, const std::vector<eng::Field> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline std::vector<eng::Fixed> grid(const char *a, int na, const char *b = nullptr, int nb = 1) {
    std::vector<eng::Fixed> v;
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { eng::Fixed f{{a, i}}; if (b) f[b] = j; v.push_back(f); }
    return v;
}
// positions in ref::standard() chosen by a predicate
template <class F> std::vector<eng::Fixed> pick(F f, std::initializer_list<int> fast = {}) {
    std::vector<eng::Fixed> v; auto &s = ref::standard();
    for (size_t i = 0; i < s.size(); i++) if (f(s[i])) {
        if (fast.size() == 0) v.push_back({{"ps", (int64_t)i}});
        for (int x : fast) v.push_back({{"ps", (int64_t)i}, {"fast", x}});
    }
    return v;
}
} // namespace shapes
