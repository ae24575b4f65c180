// functions that return true: appended to a source of a copy of the repository, the interpreter must agree (devel/stress.py)
#include <algorithm>
#include <numeric>
#include <map>
#include <set>
#include <unordered_set>
#include <optional>
#include <functional>
#include <ranges>
#include <tuple>
#include <cmath>
#include <utility>
#include <deque>
#include <string>
#include <span>
#include <bitset>
#include <variant>
#include <list>
#include <memory>
#include <iterator>
namespace qugar::stress {
using V = std::vector<int>;
bool t_all_of() { V v{1,2,3}; return std::all_of(v.begin(), v.end(), [](int x) { return x > 0; }) && std::any_of(v.cbegin(), v.cend(), [](const int x) { return x == 3; }) && std::none_of(v.begin(), v.end(), [](auto x) { return x == 4; }); }
bool t_ranges_all() { V v{1,2,3}; return std::ranges::all_of(v, [](int x) { return x > 0; }) && std::ranges::any_of(v, [](int x) { return x == 3; }) && std::ranges::none_of(v, [](int x) { return x == 5; }); }
bool t_count_if() { V v{1,2,3}; return std::count_if(v.begin(), v.end(), [](int x) { return x > 1; }) == 2 && std::count(v.begin(), v.end(), 2) == 1 && std::ranges::count_if(v, [](int x){return x>1;}) == 2 && std::ranges::count(v, 3) == 1; }
bool t_accumulate() { V v{1,2,3}; return std::accumulate(v.begin(), v.end(), 0) == 6 && std::accumulate(v.begin(), v.end(), 1, std::multiplies<>()) == 6 && std::accumulate(v.begin(), v.end(), 1, std::multiplies<int>{}) == 6 && std::accumulate(v.begin(), v.end(), 0, [](int a, int b) { return a + 2 * b; }) == 12; }
bool t_reduce() { V v{1,2,3}; return std::reduce(v.begin(), v.end()) == 6 && std::inner_product(v.begin(), v.end(), v.begin(), 0) == 14 && std::transform_reduce(v.begin(), v.end(), v.begin(), 0) == 14; }
bool t_transform() { V v{1,2,3}, w; std::transform(v.begin(), v.end(), std::back_inserter(w), [](int x) { return 2 * x; }); std::transform(v.begin(), v.end(), w.begin(), v.begin(), std::plus<>()); return w[2] == 6 && v[2] == 9; }
bool t_ranges_transform() { V v{1,2,3}, w(3); std::ranges::transform(v, w.begin(), [](int x) { return 2 * x; }); return w[2] == 6; }
bool t_for_each() { V v{1,2,3}; int s = 0; std::for_each(v.begin(), v.end(), [&s](int x) { s += x; }); std::ranges::for_each(v, [&](int &x) { x += 1; s += x; }); return s == 15 && v[0] == 2; }
bool t_minmax() { V v{3,1,2}; return *std::min_element(v.begin(), v.end()) == 1 && *std::max_element(v.begin(), v.end()) == 3 && *std::ranges::max_element(v) == 3 && std::ranges::max(v) == 3 && std::max({1, 5, 2}) == 5 && std::min(1, 2) == 1 && std::clamp(5, 0, 3) == 3; }
bool t_minmax2() { V v{3,1,2}; const auto [a, b] = std::minmax_element(v.begin(), v.end()); auto [c, d] = std::minmax(4, 2); return *a == 1 && *b == 3 && c == 2 && d == 4; }
bool t_sort() { V v{3,1,2}; std::sort(v.begin(), v.end()); bool a = v[0] == 1 && v[2] == 3; std::sort(v.begin(), v.end(), std::greater<>()); bool b = v[0] == 3; std::ranges::sort(v); bool c = v[0] == 1; std::ranges::sort(v, [](int x, int y) { return x > y; }); std::stable_sort(v.begin(), v.end(), [](int x, int y) { return x < y; }); return a && b && c && v[0] == 1 && std::is_sorted(v.begin(), v.end()); }
bool t_rsort() { V v{3,1,2}; std::sort(v.rbegin(), v.rend()); return v[0] == 3; }
bool t_unique() { V v{1,1,2,2}; v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size() == 2 && v[1] == 2; }
bool t_remove_if() { V v{1,2,3,4}; v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x % 2 == 0; }), v.end()); auto n = std::erase_if(v, [](int x) { return x == 3; }); return v.size() == 1 && n == 1; }
bool t_erase() { V v{1,2,3,1}; auto n = std::erase(v, 1); return n == 2 && v.size() == 2; }
bool t_find() { V v{1,2,3}; return std::find(v.begin(), v.end(), 2) - v.begin() == 1 && std::find_if(v.begin(), v.end(), [](int x) { return x > 5; }) == v.end() && std::ranges::find(v, 3) != v.end() && std::distance(v.begin(), std::ranges::find_if(v, [](int x) { return x == 2; })) == 1 && std::find_if_not(v.begin(), v.end(), [](int x){return x<3;}) == v.begin()+2; }
bool t_binary() { V v{1,2,4}; return std::binary_search(v.begin(), v.end(), 2) && std::lower_bound(v.begin(), v.end(), 3) == v.begin() + 2 && std::upper_bound(v.begin(), v.end(), 2) == v.begin() + 2 && *std::ranges::lower_bound(v, 2) == 2 && std::ranges::binary_search(v, 4); }
bool t_copy() { V v{1,2,3}, w; std::copy(v.begin(), v.end(), std::back_inserter(w)); std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](int x) { return x > 1; }); std::copy_n(v.begin(), 2, w.begin() + 1); return w.size() == 5 && w[2] == 2; }
bool t_fill() { V v(3); std::fill(v.begin(), v.end(), 4); std::fill_n(v.begin(), 2, 5); std::ranges::fill(v, 6); int k = 0; std::generate(v.begin(), v.end(), [&k]() { return k++; }); return v[2] == 2; }
bool t_iota() { V v(3); std::iota(v.begin(), v.end(), 4); return v[2] == 6; }
bool t_reverse() { V v{1,2,3}; std::reverse(v.begin(), v.end()); std::swap(v[0], v[1]); std::iter_swap(v.begin(), v.begin() + 2); std::rotate(v.begin(), v.begin() + 1, v.end()); return v[0] == 3 && v[1] == 2 && v[2] == 1; }
bool t_equal() { V v{1,2,3}, w{1,2,3}; return std::equal(v.begin(), v.end(), w.begin()) && v == w && !(v != w) && !(v < w) && std::ranges::equal(v, w) && std::mismatch(v.begin(), v.end(), w.begin()).first == v.end() && !std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end()); }
bool t_insert() { V v{1,2,3}, w{7,8}; v.insert(v.end(), w.begin(), w.end()); v.insert(v.begin(), 0); v.insert(v.begin() + 1, 2, 9); v.erase(v.begin()); v.erase(v.begin(), v.begin() + 1); v.pop_back(); return v.size() == 5 && v.front() == 9 && v.back() == 7; }
bool t_assign() { V v{1,2,3}, w; w.assign(v.begin(), v.begin() + 2); w.assign(4, 1); w.resize(5, 3); w.shrink_to_fit(); w.swap(v); return v.size() == 5 && v[4] == 3 && w.size() == 3; }
bool t_set() { std::set<int> s{3, 1}; s.insert(2); auto [it, ok] = s.insert(2); int k = 0; for (const int x : s) { k = 10 * k + x; } const V v(s.begin(), s.end()); return !ok && *it == 2 && k == 123 && s.count(2) == 1 && s.contains(3) && s.size() == 3 && s.find(5) == s.end() && v[1] == 2 && *s.begin() == 1; }
bool t_uset() { std::unordered_set<int> s; s.insert(2); s.emplace(2); V v{4, 5}; std::unordered_set<int> r(v.begin(), v.end()); return s.size() == 1 && s.contains(2) && r.contains(5); }
bool t_map() { std::map<int, double> m; m[3] = 1.0; m[1] = 2.0; m.emplace(2, 5.0); double s = 0; for (const auto &[k, v] : m) { s = 10 * s + v; } for (auto &[k, v] : m) { v += 1; } auto it = m.find(3); return s == 251.0 && it->second == 2.0 && m.at(1) == 3.0 && m.count(7) == 0 && m.begin()->first == 1; }
bool t_optional() { std::optional<int> o; bool a = !o.has_value(); o = 3; auto f = [](int x) -> std::optional<int> { if (x > 0) return x; return std::nullopt; }; return a && o && *o == 3 && o.value() == 3 && f(2).value_or(7) == 2 && !f(-1) && f(-1).value_or(7) == 7; }
bool t_function() { std::function<int(int)> f = [](int x) { return x + 1; }; const auto g = [&f](auto &&h, int x) { return h(f(x)); }; return f(1) == 2 && g(f, 1) == 3 && static_cast<bool>(f); }
bool t_views() { V v{1,2,3,4}; int s = 0; for (const auto x : v | std::views::filter([](int x) { return x % 2 == 0; }) | std::views::transform([](int x) { return 10 * x; })) { s += x; } for (auto x : v | std::views::reverse) { s = s * 2 + x; } for (auto x : std::views::iota(0, 3)) { s += x; } for (auto x : v | std::views::drop(2)) s += x; for (auto x : v | std::views::take(1)) s += x; return s == ((((60*2+4)*2+3)*2+2)*2+1) + 3 + 7 + 1; }
bool t_tuple() { auto t = std::make_tuple(1, 2.5); auto [a, b] = t; int c; double d; std::tie(c, d) = t; auto p = std::make_pair(1, 2); const auto &[e, f] = p; return a == 1 && b == 2.5 && c == 1 && d == 2.5 && std::get<0>(t) == 1 && e == 1 && f == 2 && p.second == 2; }
bool t_array() { std::array<int, 3> a{}; a.fill(2); std::array<int, 3> b = a; b[1] = 3; std::array<std::array<int, 2>, 2> c{{{1, 2}, {3, 4}}}; auto d = std::to_array({1, 2, 3}); return a[1] == 2 && b[1] == 3 && a != b && c[1][0] == 3 && a.size() == 3 && std::size(a) == 3 && d.back() == 3 && std::get<1>(b) == 3; }
bool t_switch() { int s = 0; for (int i = 0; i < 5; ++i) { switch (i) { case 0: s += 1; break; case 1: [[fallthrough]]; case 2: s += 10; break; default: if (i == 4) continue; s += 100; } s += 1000; } return s == 4121; }
bool t_loops() { int s = 0; int i = 0; do { ++s; if (s > 3) break; } while (true); while (i < 10) { i += 3; if (i == 6) { continue; } s += i; } for (int a = 0, b = 10; a < b; ++a, --b) { s += b; } for (;;) { if (++s > 100) break; } return s == 101; }
bool t_lambda() { int k = 2; const auto add = [k](const int x) mutable { k += x; return k; }; auto a2 = add; int r = a2(3); auto fact = [](auto self, int n) -> int { return n <= 1 ? 1 : n * self(self, n - 1); }; auto imm = [&]() { if (k == 2) { return 1; } return 2; }(); return r == 5 && k == 2 && fact(fact, 4) == 24 && imm == 1; }
template<int N> constexpr int fct() { if constexpr (N <= 1) { return 1; } else { return N * fct<N - 1>(); } }
template<typename... A> int sum(A... a) { return (0 + ... + a); }
bool t_template() { return fct<4>() == 24 && sum(1, 2, 3) == 6; }
bool t_seq() { auto f = []<std::size_t... I>(std::index_sequence<I...>) { return ((I * 2) + ... + 0); }; return f(std::make_index_sequence<4>{}) == 12; }
bool t_string() { std::string s = "ab"; s += "c"; return s == "abc" && s.size() == 3 && std::to_string(3) == "3" && (s + "d").length() == 4 && !s.empty(); }
bool t_deque() { std::deque<int> q; q.push_back(1); q.push_back(2); q.push_front(0); int a = q.front(); q.pop_front(); return a == 0 && q.size() == 2 && q[1] == 2; }
bool t_list() { std::list<int> q; q.push_back(1); q.push_back(2); int s = 0; for (int x : q) s += x; return s == 3; }
bool t_span() { V v{1,2,3}; std::span<const int> s(v); auto t = s.subspan(1); auto u = s.first(2); auto w = s.last(1); return s.size() == 3 && t[0] == 2 && u.back() == 2 && w.front() == 3 && s.begin()[1] == 2; }
bool t_math() { return std::abs(-3) == 3 && std::fabs(-2.0) == 2.0 && std::pow(2.0, 3) == 8.0 && std::sqrt(4.0) == 2.0 && std::hypot(3.0, 4.0) == 5.0 && std::lround(2.6) == 3 && std::max(1.0, 2.0) == 2.0 && std::fma(2.0, 3.0, 1.0) == 7.0 && std::midpoint(1.0, 3.0) == 2.0 && std::lerp(1.0, 3.0, 0.5) == 2.0 && std::copysign(1.0, -2.0) == -1.0 && std::fmod(5.0, 3.0) == 2.0 && std::cbrt(8.0) == 2.0 && std::div(7, 2).rem == 1; }
bool t_uptr() { auto p = std::make_unique<V>(3, 1); auto q = std::move(p); auto s = std::make_shared<int>(3); std::weak_ptr<int> w = s; auto l = w.lock(); return !p && q->size() == 3 && *s == 3 && s.use_count() >= 1 && l; }
bool t_variant() { std::variant<int, double> v = 2.5; return std::holds_alternative<double>(v) && std::get<double>(v) == 2.5 && v.index() == 1; }
bool t_bitset() { std::bitset<4> b; b.set(1); return b.test(1) && b.count() == 1 && !b[0]; }
bool t_vbool() { std::vector<bool> b(4, false); b[2] = true; b.at(1) = true; b.flip(); return !b[2] && b[0] && std::count(b.begin(), b.end(), true) == 2; }
bool t_swap() { int a = 1, b = 2; std::swap(a, b); int c = std::exchange(a, 5); auto &r = a; r = 7; int *p = &b; *p += 3; return c == 2 && a == 7 && b == 4; }
bool t_except() { try { V v(2); v.at(5); } catch (const std::out_of_range &) { return true; } catch (...) { return false; } return false; }
bool t_rit() { V v{1,2,3}; int s = 0; for (auto it = v.rbegin(); it != v.rend(); ++it) s = 10 * s + *it; auto it = std::next(v.begin(), 2); auto jt = std::prev(v.end()); return s == 321 && it == jt && *it == 3 && *(v.end() - 1) == 3; }
bool t_initlist() { int s = 0; for (const int i : {1, 2, 3}) { s += i; } for (auto [a, b] : {std::pair{1, 2}, std::pair{3, 4}}) s += a * b; for (std::size_t i{0}; const auto x : V{5, 6}) { s += static_cast<int>(i++) * x; } return s == 26; }
bool t_partial() { V v{1,2,3}; V w(3); std::partial_sum(v.begin(), v.end(), w.begin()); V u(3); std::exclusive_scan(v.begin(), v.end(), u.begin(), 0); std::adjacent_difference(w.begin(), w.end(), v.begin()); return w[2] == 6 && u[2] == 3 && v[1] == 2; }
bool t_setops() { V a{1,2,3}, b{2,3,4}, c, d, e; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d)); std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(e)); std::ranges::set_difference(a, b, std::back_inserter(e)); V f; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(f)); return c.size() == 2 && d.size() == 4 && e.size() == 2 && f.size() == 6 && std::includes(a.begin(), a.end(), c.begin(), c.end()); }
bool t_partition() { V v{1,2,3,4}; auto it = std::partition(v.begin(), v.end(), [](int x) { return x > 2; }); auto jt = std::stable_partition(v.begin(), v.end(), [](int x) { return x > 2; }); return it - v.begin() == 2 && jt - v.begin() == 2; }
bool t_adjacent() { V v{1,2,2,4}; return std::adjacent_find(v.begin(), v.end()) == v.begin() + 1 && std::search(v.begin(), v.end(), v.begin() + 1, v.begin() + 2) == v.begin() + 1; }
bool t_cmp() { return std::less<>{}(1, 2) && std::equal_to<int>()(2, 2) && std::logical_and<>{}(true, true) && std::cmp_less(-1, 3u) && (1 <=> 2) < 0 && std::ssize(V{1, 2}) == 2 && std::as_const(*std::make_unique<int>(2)) == 2; }
struct S { int a{1}; int b{2}; bool operator==(const S &) const = default; auto operator<=>(const S &) const = default; };
bool t_struct() { S s; S t{.a = 1, .b = 3}; S u = s; u.b = 3; std::vector<S> v; v.push_back({1, 2}); v.emplace_back(S{2, 3}); std::ranges::sort(v, {}, &S::b); auto it = std::ranges::find(v, 3, &S::b); return t == u && s != t && s < t && it != v.end() && v[0].a == 1; }
enum class E { a, b, c };
bool t_enum() { E e = E::b; using enum E; const int k = static_cast<int>(e); return e == b && k == 1 && static_cast<E>(2) == c; }
bool t_static() { static const std::array<int, 3> tab{4, 5, 6}; static constexpr int m[2][2] = {{1, 2}, {3, 4}}; return tab[1] == 5 && m[1][0] == 3; }
bool t_bits() { unsigned x = 5u; return (x & 1u) && (x >> 1) == 2 && (x << 1) == 10 && (x | 2u) == 7 && (x ^ 1u) == 4 && (~x & 7u) == 2 && !(x & (1u << 1)); }
bool t_goto() { int i = 0; V v; v.reserve(3); while (v.size() < 3) { v.emplace_back(i++); } return v.back() == 2 && not v.empty() and v.capacity() >= 3; }
bool t_zip() { V v{1,2,3}; V w; w.reserve(v.size()); std::ranges::copy(v, std::back_inserter(w)); std::ranges::reverse(w); auto s = std::ranges::size(w); std::ranges::copy_if(v, std::back_inserter(w), [](int x){ return x > 2; }); return s == 3 && w[0] == 3 && w.size() == 4 && *std::ranges::begin(w) == 3 && std::ranges::distance(w) == 4; }
}
namespace qugar::stress {
bool t_array1() { std::array<int, 3> a{}; a.fill(2); std::array<int, 3> b = a; b[1] = 3; return a[1] == 2 && b[1] == 3; }
bool t_array2() { std::array<int, 3> a{1,2,3}; std::array<int, 3> b{1,2,4}; return a != b && a.size() == 3 && a < b; }
bool t_array3() { std::array<std::array<int, 2>, 2> c{{{1, 2}, {3, 4}}};  return c[1][0] == 3; }
bool t_array4() { auto d = std::to_array({1, 2, 3}); return d.back() == 3; }
bool t_array5() { std::array<int, 3> b{1,2,4}; return std::size(b) == 3 && std::get<1>(b) == 2; }
bool t_math1() { return std::abs(-3) == 3 && std::fabs(-2.0) == 2.0 && std::pow(2.0, 3) == 8.0 && std::sqrt(4.0) == 2.0 && std::hypot(3.0, 4.0) == 5.0;}
bool t_math2() { return std::lround(2.6) == 3 && std::max(1.0, 2.0) == 2.0 && std::fma(2.0, 3.0, 1.0) == 7.0;}
bool t_math3() { return  std::midpoint(1.0, 3.0) == 2.0 && std::lerp(1.0, 3.0, 0.5) == 2.0; }
bool t_math4() { return std::copysign(1.0, -2.0) == -1.0 && std::fmod(5.0, 3.0) == 2.0;}
bool t_math5() { return std::cbrt(8.0) == 2.0; }
bool t_math6() { return std::div(7, 2).rem == 1; }
bool t_math7() { return std::ceil(1.5) == 2.0 && std::round(2.5) == 3.0 && std::trunc(-1.5) == -1.0 && -7 / 2 == -3 && -7 % 2 == -1 && std::exp2(3.0) == 8.0 && std::remainder(5.0, 3.0) == -1.0; }
}
namespace qugar::stress {
struct Base { virtual ~Base() = default; virtual int f() const { return 1; } int g() const { return f() * 10; } static int h(int x) { return x + 1; } static constexpr int K = 7; protected: int q_ = 4; };
struct Der final : Base { int f() const override { return Base::f() + 1; } int operator()(int a) const { return a + q_; } explicit operator bool() const { return true; } operator int() const { return 5; } Der &set(int v) { q_ = v; return *this; } int q() const { return q_; } friend int fr(const Der &d) { return d.q_; } int operator[](int i) const { return i + q_; } Der operator+(const Der &o) const { Der r; r.q_ = q_ + o.q_; return r; } Der &operator+=(const Der &o) { q_ += o.q_; return *this; } Der &operator++() { ++q_; return *this; } Der operator++(int) { Der t = *this; ++q_; return t; } Der operator-() const { Der r; r.q_ = -q_; return r; } };
template<typename T> struct Box { T v; explicit Box(T x) : v(std::move(x)) {} const T &get() const & { return v; } T &&get() && { return std::move(v); } template<typename F> auto map(F &&f) const { return Box<std::invoke_result_t<F, T>>(std::forward<F>(f)(v)); } };
template<typename T, int N> struct Acc { std::array<T, N> a{}; int n{0}; void add(const T &x) { a.at(static_cast<std::size_t>(n++)) = x; } auto begin() const { return a.begin(); } auto end() const { return a.begin() + n; } };
class Guard { int &r_; public: explicit Guard(int &r) : r_(r) { ++r_; } ~Guard() { --r_; } Guard(const Guard &) = delete; };
bool t_c_virtual() { Der d; const Base &b = d; std::unique_ptr<Base> p = std::make_unique<Der>(); std::shared_ptr<const Base> s = std::make_shared<const Der>(); return b.g() == 20 && p->f() == 2 && s->g() == 20 && Base::h(2) == 3 && Der::K == 7 && dynamic_cast<const Der *>(&b) != nullptr && std::dynamic_pointer_cast<const Der>(s) != nullptr; }
bool t_c_ops() { Der d; Der e; d.set(3).set(6); e += d; const auto f = d + e; auto g = d++; ++d; return d(1) == 9 && e.q() == 10 && f.q() == 16 && g.q() == 6 && d.q() == 8 && fr(d) == 8 && d[2] == 10 && (-d).q() == -8 && static_cast<bool>(d) && static_cast<int>(d) == 5; }
bool t_c_box() { Box<int> b(3); auto c = b.map([](int x) { return x * 2.5; }); Box<std::vector<int>> v(std::vector<int>{1, 2}); auto w = std::move(v).get(); return c.get() == 7.5 && w.size() == 2; }
bool t_c_acc() { Acc<int, 4> a; a.add(3); a.add(5); int s = 0; for (const auto &x : a) s += x; return s == 8 && a.n == 2; }
bool t_c_guard() { int k = 0; { Guard g(k); if (k != 1) return false; } { const std::unique_ptr<Guard> p = std::make_unique<Guard>(k); if (k != 1) return false; } return k == 0; }
bool t_c_ret() { auto f = [](bool a) -> std::pair<int, std::vector<int>> { if (a) return {1, {1, 2}}; return {2, {}}; }; auto [i, v] = f(true); const auto &[j, w] = f(false); return i == 1 && v.size() == 2 && j == 2 && w.empty(); }
bool t_c_ref() { std::vector<int> v{1, 2, 3}; auto &r = v[1]; r = 7; auto *p = v.data(); p[0] = 4; *(p + 2) = 5; for (auto &x : v) x *= 2; const auto last = v.back(); v.back() = 0; std::vector<std::vector<int>> m(2, std::vector<int>(3, 1)); m[1][2] = 4; auto &row = m[1]; row[0] = 9; int (*fp)(int) = &Base::h; return v[0] == 8 && v[1] == 14 && last == 10 && v[2] == 0 && m[1][0] == 9 && m[0][2] == 1 && fp(1) == 2; }
bool t_c_memfn() { Der d; int (Base::*pm)() const = &Base::g; auto q = &Der::q; return (d.*pm)() == 20 && std::invoke(q, d) == 4 && std::mem_fn(&Der::q)(d) == 4; }
bool t_c_const() { constexpr auto tab = [] { std::array<int, 4> a{}; for (int i = 0; i < 4; ++i) a[static_cast<std::size_t>(i)] = i * i; return a; }(); static_assert(tab[2] == 4); constexpr int n = tab[3]; return n == 9 && tab[1] == 1; }
int ov(int) { return 1; } int ov(double) { return 2; } int ov(const std::vector<int> &) { return 3; } template<typename T> int ov(T *) { return 4; } int dflt(int a, int b = 3, int c = 4) { return a + 10 * b + 100 * c; }
bool t_c_overload() { int x = 0; return ov(1) == 1 && ov(1.0) == 2 && ov({1, 2}) == 3 && ov(&x) == 4 && dflt(1) == 431 && dflt(1, 2) == 421; }
bool t_c_short() { int n = 0; auto inc = [&] { ++n; return true; }; bool a = false && inc(); bool b = true || inc(); bool c = inc() && !inc(); return !a && b && !c && n == 2 && (n == 2 ? 1 : 0); }
bool t_c_int() { const unsigned u = 3; const int s = -1; std::size_t z = 0; z -= 1; return u - 4 > 0 && static_cast<unsigned>(s) > u && z == std::numeric_limits<std::size_t>::max() && static_cast<int>(2.9) == 2 && static_cast<int>(-2.9) == -2 && 7 / 2 == 3 && static_cast<double>(7) / 2 == 3.5 && static_cast<std::int8_t>(200) == -56; }
bool t_c_arr() { int a[2][3] = {{1, 2, 3}, {4, 5, 6}}; int s = 0; for (auto &r : a) for (int x : r) s += x; double b[2] = {1.5}; int c[] = {1, 2, 3}; return s == 21 && a[1][0] == 4 && b[1] == 0.0 && std::size(c) == 3 && sizeof(c) / sizeof(c[0]) == 3; }
bool t_c_nested() { std::function<int(int)> fib; fib = [&fib](int n) -> int { return n < 2 ? n : fib(n - 1) + fib(n - 2); }; return fib(7) == 13; }
bool t_c_tmpl() { auto f = []<typename T>(const std::vector<T> &v, auto &&g) { T s{}; for (const auto &x : v) s += g(x); return s; }; return f(std::vector<double>{1.5, 2.5}, [](double x) { return 2 * x; }) == 8.0; }
bool t_c_label() { int s = 0; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { if (j > i) break; if (j == 1) continue; s += 10 * i + j; } } return s == 52; }
bool t_c_elseif() { auto f = [](int x) { if (const int y = x * 2; y > 10) return 1; else if (y > 4) return 2; else return 3; }; return f(6) == 1 && f(3) == 2 && f(0) == 3; }
}
namespace qugar::stress {
bool t_c_g1() { int k = 0; { Guard g(k); if (k != 1) return false; } return k == 0; }
bool t_c_g2() { int k = 0; { const std::unique_ptr<Guard> p = std::make_unique<Guard>(k); if (k != 1) return false; }  return k == 0; }
bool t_c_g3() { int k = 0; Guard g(k); return k == 1; }
bool t_c_g4() { int k = 0; std::unique_ptr<Guard> p = std::make_unique<Guard>(k); return k == 1; }
}
namespace qugar::stress {
struct RefA { int &a; std::vector<int> &v; const int c; };
bool t_c_refagg() { int k = 1; std::vector<int> v; RefA r{k, v, 3}; r.a = 5; r.v.push_back(2); const RefA q = r; q.a += 1; return k == 6 && v.size() == 1 && q.c == 3; }
struct Cnt { int n = 0; Cnt &operator<<(int x) { n += x; return *this; } };
bool t_c_chain() { Cnt c; c << 1 << 2; const auto &[n] = c; return n == 3; }
}
