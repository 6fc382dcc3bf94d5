// Reference definitions of library algorithms, in terms of elementary loops.
// The analysed sources are read with std::NAME replaced by sdmodel::NAME for
// the names defined here (tool/sdextract.cpp); each definition is what the C++
// standard prescribes for random access iterators. Nothing here is executed.
#include <algorithm>
#include <initializer_list>
#include <iterator>
#include <numeric>
#include <utility>
#include <vector>
namespace sdmodel {
// a list that grows at its end stands for the position behind its last item
template <class C> C* back_inserter(C& c) { return &c; }
template <class I, class P> bool any_of(I f, I l, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (p(f[k])) return true;
    return false;
}
template <class I, class P> bool all_of(I f, I l, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (!p(f[k])) return false;
    return true;
}
template <class I, class P> bool none_of(I f, I l, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (p(f[k])) return false;
    return true;
}
template <class I, class P> P for_each(I f, I l, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) p(f[k]);
    return p;
}
template <class I, class P> long count_if(I f, I l, P p) {
    auto n = l - f;
    long c = 0;
    for (long k = 0; k < n; k++) if (p(f[k])) c++;
    return c;
}
template <class I, class T> long count(I f, I l, const T& v) {
    auto n = l - f;
    long c = 0;
    for (long k = 0; k < n; k++) if (f[k] == v) c++;
    return c;
}
template <class I, class P> I find_if(I f, I l, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (p(f[k])) return f + k;
    return l;
}
template <class I, class P> I find_if_not(I f, I l, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (!p(f[k])) return f + k;
    return l;
}
template <class I, class T> I find(I f, I l, const T& v) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (f[k] == v) return f + k;
    return l;
}
template <class I, class T> T accumulate(I f, I l, T v) {
    auto n = l - f;
    for (long k = 0; k < n; k++) v = v + f[k];
    return v;
}
template <class I, class T, class P> T accumulate(I f, I l, T v, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) v = p(v, f[k]);
    return v;
}
template <class I, class J, class T> T inner_product(I f, I l, J g, T v) {
    auto n = l - f;
    for (long k = 0; k < n; k++) v = v + f[k] * g[k];
    return v;
}
template <class I, class O> O copy(I f, I l, O o) {
    auto n = l - f;
    for (long k = 0; k < n; k++) o[k] = f[k];
    return o + n;
}
template <class I, class T> std::vector<T>* copy(I f, I l, std::vector<T>* o) {
    auto n = l - f;
    for (long k = 0; k < n; k++) o->push_back(f[k]);
    return o;
}
template <class I, class N, class O> O copy_n(I f, N n, O o) {
    for (long k = 0; k < n; k++) o[k] = f[k];
    return o + n;
}
template <class I, class T, class P> std::vector<T>* copy_if(I f, I l, std::vector<T>* o, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) if (p(f[k])) o->push_back(f[k]);
    return o;
}
template <class I, class O, class P> O transform(I f, I l, O o, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) o[k] = p(f[k]);
    return o + n;
}
template <class I, class T, class P> std::vector<T>* transform(I f, I l, std::vector<T>* o, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) o->push_back(p(f[k]));
    return o;
}
template <class I, class J, class O, class P> O transform(I f, I l, J g, O o, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) o[k] = p(f[k], g[k]);
    return o + n;
}
template <class I, class J, class T, class P> std::vector<T>* transform(I f, I l, J g, std::vector<T>* o, P p) {
    auto n = l - f;
    for (long k = 0; k < n; k++) o->push_back(p(f[k], g[k]));
    return o;
}
template <class I, class G> void generate(I f, I l, G g) {
    auto n = l - f;
    for (long k = 0; k < n; k++) f[k] = g();
}
template <class I, class T> void iota(I f, I l, T v) {
    auto n = l - f;
    for (long k = 0; k < n; k++) { f[k] = v; ++v; }
}
template <class I> void reverse(I f, I l) {
    auto n = l - f;
    for (long k = 0; 2 * k + 1 < n; k++) std::swap(f[k], f[n - 1 - k]);
}
template <class I> I min_element(I f, I l) {
    auto n = l - f;
    long b = 0;
    for (long k = 1; k < n; k++) if (f[k] < f[b]) b = k;
    return f + b;
}
template <class I> I max_element(I f, I l) {
    auto n = l - f;
    long b = 0;
    for (long k = 1; k < n; k++) if (f[b] < f[k]) b = k;
    return f + b;
}
template <class T, class U = T> T exchange(T& a, U&& b) {
    T o = a;
    a = b;
    return o;
}
template <class T> std::pair<T, T> minmax(const T& a, const T& b) {
    return std::pair<T, T>(std::min(a, b), std::max(a, b));
}
template <class T> std::pair<T, T> minmax(std::initializer_list<T> l) {
    return std::pair<T, T>(std::min(l), std::max(l));
}
template <class T> T midpoint(T a, T b) { return a + (b - a) / 2; }
template <class T> T lerp(T a, T b, T t) { return a + t * (b - a); }
namespace ranges {
template <class R, class P> bool any_of(R&& r, P p) { for (auto&& x : r) if (p(x)) return true; return false; }
template <class R, class P> bool all_of(R&& r, P p) { for (auto&& x : r) if (!p(x)) return false; return true; }
template <class R, class P> bool none_of(R&& r, P p) { for (auto&& x : r) if (p(x)) return false; return true; }
template <class R, class P> void for_each(R&& r, P p) { for (auto&& x : r) p(x); }
template <class R, class P> long count_if(R&& r, P p) { long c = 0; for (auto&& x : r) if (p(x)) c++; return c; }
template <class R, class T> void fill(R&& r, const T& v) { for (auto&& x : r) x = v; }
}
}
