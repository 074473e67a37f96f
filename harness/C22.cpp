#include "fmt.h"
#include <array>
#include <list>
#include <map>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <tuple>
#include <variant>
#include <vector>
using namespace papilio;
// An element that records how it was formatted.
struct item { int id; };
static int seen[16], seen_n;
namespace papilio
{
template <typename C> class formatter<item, C>
{
    bool m_mark = false;
public:
    template <typename PC> auto parse(PC& ctx) -> typename PC::iterator
    {
        auto it = ctx.begin();
        if(it != ctx.end() && *it == U'!') { m_mark = true; ++it; }
        return it;
    }
    template <typename FC> auto format(const item& i, FC& ctx) const -> typename FC::iterator
    {
        seen[seen_n++] = i.id;
        format_context_traits<FC>::append(ctx, C(m_mark ? '!' : '.'), 1);
        return ctx.out();
    }
};
}
namespace
{
template <class C> using S = std::basic_string<C>;
template <class C> using V = std::basic_string_view<C>;
struct Marks { const char* open; const char* close; const char* sep; };
// the elements, each formatted alone, between the marks
template <class C, class R> S<C> joined(const R& r, const Marks& m, V<C> one)
{
    S<C> w = fm::L<C>(m.open);
    bool first = true;
    for(const auto& e : r)
    {
        if(!first) w += fm::L<C>(m.sep);
        first = false;
        w += fm::run<C>(one, e);
    }
    return w + fm::L<C>(m.close);
}
// every option for a range, without and with a specification of the elements
template <class C, class R> void options(const R& r, Marks m, const char* espec, bool may_m = false)
{
    S<C> f = fm::L<C>("{:"), one = fm::L<C>("{}");
    const unsigned o = vp_pick(0, may_m ? 3 : 2, "option"), e = vp_pick(0, 2, "elements");
    if(o == 0 && e == 0) f = fm::L<C>("{");
    if(o == 1) { f += fm::L<C>("n"); m.open = m.close = ""; }
    if(o == 2 && !may_m) { f = fm::L<C>("{0:"); }
    if(o >= 2 && may_m)
    {
        f += fm::L<C>("m"); m.open = "{"; m.close = "}";
        one = fm::L<C>("{:m}");
    }
    if(e && !(may_m && o >= 2))
    {
        f += fm::L<C>(":");
        if(e == 2) { f += fm::L<C>(espec); one = fm::L<C>("{:") + fm::L<C>(espec) + fm::L<C>("}"); }
    }
    f += fm::L<C>("}");
    S<C> got = fm::run<C>(V<C>(f), r), want = joined<C>(r, m, V<C>(one));
    vp_assert(ref::same<C>(got, want), "the elements in order, each as it would be formatted alone, between the marks");
    vp_reach("end");
}
template <class C> void sequences()
{
    const Marks seq{"[", "]", ", "}, set{"{", "}", ", "};
    const size_t n = vp_param(1);
    int e[4] = {};
    for(size_t k = 0; k < n; ++k) e[k] = int(vp_range(0, 9, "e"));
    switch(vp_param(0))
    {
    case 0: options<C>(std::vector<int>(e, e + n), seq, "+>4"); break;
    case 1: options<C>(std::span<const int>(e, n), seq, "*^3d"); break;
    case 2: options<C>(std::list<int>(e, e + n), seq, "#x"); break;
    case 3: { small_vector<int, 1> v; for(size_t k = 0; k < n; ++k) v.push_back(e[k]); options<C>(v, seq, "02"); break; }
    case 4: { fixed_vector<int, 4> v; for(size_t k = 0; k < n; ++k) v.push_back(e[k]); options<C>(v, seq, "02"); break; }
    case 5:
    {
        for(size_t k = 1; k < n; ++k) vp_assume(e[k - 1] < e[k]);
        std::set<int> v;
        for(size_t k = n; k; --k) v.insert(e[k - 1]);
        options<C>(v, set, "_<2");
        break;
    }
    case 6: { std::array<int, 3> v{e[0], e[1], e[2]}; options<C>(v, seq, "b"); break; }
    case 7: { int v[3]{e[0], e[1], e[2]}; options<C>(std::span<int>(v), seq, "b"); break; }
    case 8: options<C>(std::views::iota(e[0], e[0] + 3), seq, "03"); break;
    case 9: { std::vector<bool> v; for(size_t k = 0; k < n; ++k) v.push_back(k != 1); options<C>(v, seq, "d"); break; }
    case 10: { std::vector<utf::codepoint> v; for(size_t k = 0; k < n; ++k) v.emplace_back(char32_t(ref::sym_cp(32, 0xFF))); options<C>(v, seq, "?"); break; }
    case 11: { std::list<C> v; for(size_t k = 0; k < n; ++k) v.push_back(C(vp_range(0, 127, "c"))); options<C>(v, seq, "?"); break; }
    case 12: { std::vector<std::array<int, 2>> v; for(size_t k = 0; k < n; ++k) v.push_back({e[k], 7}); options<C>(v, seq, "n"); break; }
    case 13: { std::vector<std::pair<int, int>> v; for(size_t k = 0; k < n; ++k) v.emplace_back(e[k], 7); options<C>(v, seq, "n", true); break; }
    case 14:
    {
        for(size_t k = 1; k < n; ++k) vp_assume(e[k - 1] < e[k]);
        std::map<int, S<C>> v;
        for(size_t k = n; k; --k) v.emplace(e[k - 1], fm::L<C>("ab"));
        options<C>(v, set, "m", true);
        break;
    }
    case 15: { std::vector<std::vector<int>> v; for(size_t k = 0; k < n; ++k) v.push_back(std::vector<int>(k, e[k])); options<C>(v, seq, "n:2"); break; }
    case 16: { std::vector<std::tuple<int, bool, int>> v; for(size_t k = 0; k < n; ++k) v.emplace_back(e[k], true, 2); options<C>(v, seq, "n"); break; }
    case 17: { std::vector<const C*> v(n, &fm::L<C>("x")[0]); static const C t[] = {'a', 'b', 0}; for(auto& p : v) p = t; options<C>(v, seq, ">3"); break; }
    case 18: { std::vector<double> v; for(size_t k = 0; k < n; ++k) v.push_back(k + 1.0); options<C>(v, seq, ""); break; }
    }
}
template <class C> void texts() // elements that are strings of arbitrary code points
{
    ref::Text<C> a, b;
    ref::gen(a, vp_param(1)); ref::gen(b, vp_param(2));
    const Marks seq{"[", "]", ", "};
    switch(vp_param(0))
    {
    case 0: options<C>(std::vector<S<C>>{S<C>(a.view()), S<C>(b.view())}, seq, "_>3"); break;
    case 1: options<C>(std::list<V<C>>{a.view(), b.view()}, seq, "?"); break;
    case 2: options<C>(std::vector<utf::basic_string_container<C>>{utf::basic_string_container<C>(a.view()), utf::basic_string_container<C>(b.view())}, seq, ".1s"); break;
    }
}
// s and ?s: the characters as a string
template <class C> void strings()
{
    ref::Text<C> t;
    ref::gen(t, vp_param(0));
    S<C> got, want;
    const bool q = vp_pick(0, 1, "debug");
    S<C> f = fm::L<C>(q ? "{:?s}" : "{:s}"), g = f;
    if(vp_param(1) == 0) got = fm::run<C>(V<C>(f), std::list<C>(t.p, t.p + t.n)); // its units
    else { std::vector<utf::codepoint> v; for(size_t k = 0; k < t.ncp; ++k) v.emplace_back(t.cp[k]); got = fm::run<C>(V<C>(f), v); }
    want = S<C>(t.view());
    if(q) want = fm::run<C>(fm::L<C>("{:?}"), t.view());
    vp_assert(ref::same<C>(got, want), "the characters of the range, escaped for ?s");
    vp_reach("end");
}
// every element once, in order, with its specification
template <class C> void once()
{
    const size_t n = vp_param(0);
    item v[8];
    for(size_t k = 0; k < n; ++k) v[k].id = vp_any<int>("id");
    const bool mark = vp_pick(0, 1, "specification");
    S<C> got, want;
    seen_n = 0;
    if(vp_param(1) == 0) { got = fm::run<C>(fm::L<C>(mark ? "{:n:!}" : "{:n}"), std::span<const item>(v, n)); }
    else if(vp_param(1) == 1) { got = fm::run<C>(fm::L<C>(mark ? "{::!}" : "{}"), std::list<item>(v, v + n)); }
    else { std::vector<item> w(v, v + n); got = fm::run<C>(fm::L<C>(mark ? "{:!}" : "{}"), join<C>(w)); }
    if(vp_param(1) == 1) want += C('[');
    for(size_t k = 0; k < n; ++k) { if(k) want += fm::L<C>(", "); want += C(mark ? '!' : '.'); }
    if(vp_param(1) == 1) want += C(']');
    bool ok = seen_n == int(n);
    for(size_t k = 0; ok && k < n; ++k) ok = seen[k] == v[k].id;
    vp_assert(ok, "every element is formatted exactly once, in order");
    vp_assert(ref::same<C>(got, want), "separators strictly between the elements");
    vp_reach("end");
}
template <class C> void tuples()
{
    ref::Text<C> t;
    ref::gen(t, vp_param(1));
    const int x = int(vp_range(0, 9, "x"));
    const bool b = vp_bool("b");
    auto one = [](const auto& v) { return fm::run<C>(fm::L<C>("{}"), v); };
    auto l = [](const char* s) { return fm::L<C>(s); };
    const unsigned o = vp_pick(0, 2, "option");
    S<C> f = l(o == 0 ? "{}" : o == 1 ? "{:n}" : "{:m}"), got, want, open = l(o ? "" : "("), close = l(o ? "" : ")"), sep = l(o == 2 ? ": " : ", ");
    fm::Res<C> r;
    bool pair = false;
    switch(vp_param(0))
    {
    case 0: r = fm::tryrun<C>(V<C>(f), std::make_tuple(x, t.view(), b)); want = open + one(x) + sep + S<C>(t.view()) + sep + one(b) + close; break;
    case 1: r = fm::tryrun<C>(V<C>(f), std::tuple<>()); want = open + close; break;
    case 2: r = fm::tryrun<C>(V<C>(f), std::tuple<int>(x)); want = open + one(x) + close; break;
    case 3: pair = true; r = fm::tryrun<C>(V<C>(f), std::pair<int, S<C>>(x, t.view())); want = open + one(x) + sep + S<C>(t.view()) + close; break;
    case 4: pair = true; r = fm::tryrun<C>(V<C>(f), std::tuple<S<C>, int>(t.view(), x)); want = open + S<C>(t.view()) + sep + one(x) + close; break;
    case 5:
    {
        auto in = std::make_pair(x, 7);
        r = fm::tryrun<C>(V<C>(f), std::make_tuple(in, std::vector<int>{x, x}, std::optional<int>(), in));
        want = open + one(in) + sep + l("[") + one(x) + l(", ") + one(x) + l("]") + sep + l("nullopt") + sep + one(in) + close;
        break;
    }
    case 6: pair = true; r = fm::tryrun<C>(V<C>(f), compressed_pair<int, S<C>>(x, S<C>(t.view()))); want = open + one(x) + sep + S<C>(t.view()) + close; break;
    }
    vp_assert(r.threw == (o == 2 && !pair), "m is for pairs only");
    if(!r.threw) vp_assert(ref::same<C>(r.s, want), "the components in order, between the marks");
    vp_reach("end");
}
template <class C> void sums() // optional and variant
{
    ref::Text<C> t;
    ref::gen(t, vp_param(1));
    const int x = int(vp_range(0, 99, "x"));
    auto l = [](const char* s) { return fm::L<C>(s); };
    auto one = [](const auto& v) { return fm::run<C>(fm::L<C>("{}"), v); };
    S<C> got, want, f = l("<{}>");
    switch(vp_param(0))
    {
    case 0: { std::optional<int> o; if(vp_concrete(vp_bool("has"))) o = x; got = fm::run<C>(V<C>(f), o); want = o ? one(x) : l("nullopt"); break; }
    case 1: { std::optional<S<C>> o; if(vp_concrete(vp_bool("has"))) o = S<C>(t.view()); got = fm::run<C>(V<C>(f), o); want = o ? S<C>(t.view()) : l("nullopt"); break; }
    case 2:
    {
        std::variant<std::monostate, int, S<C>, bool> v;
        unsigned k = vp_pick(0, 3, "alternative");
        if(k == 1) v = x; else if(k == 2) v = S<C>(t.view()); else if(k == 3) v = true;
        got = fm::run<C>(V<C>(f), v); want = k == 0 ? l("monostate") : k == 1 ? one(x) : k == 2 ? S<C>(t.view()) : l("true");
        break;
    }
    case 3:
    {
        std::vector<std::optional<int>> v{x, std::nullopt};
        got = fm::run<C>(V<C>(f), v); want = l("[") + one(x) + l(", nullopt]");
        break;
    }
    case 4:
    {
        std::optional<std::variant<int, std::pair<int, S<C>>>> v;
        unsigned k = vp_pick(0, 2, "state");
        if(k == 1) v = std::variant<int, std::pair<int, S<C>>>(x); else if(k == 2) v = std::variant<int, std::pair<int, S<C>>>(std::pair<int, S<C>>(x, t.view()));
        got = fm::run<C>(V<C>(f), v); want = k == 0 ? l("nullopt") : k == 1 ? one(x) : l("(") + one(x) + l(", ") + S<C>(t.view()) + l(")");
        break;
    }
    }
    vp_assert(ref::same<C>(got, l("<") + want + l(">")), "the contained value as it would be formatted alone");
    // they take no specification
    bool threw = fm::tryrun<C>(l("{:d}"), std::optional<int>(x)).threw;
    vp_assert(threw, "a specification is not ignored");
    vp_reach("end");
}
template <class C> void joins()
{
    ref::Text<C> sep;
    ref::gen(sep, vp_param(1));
    const size_t n = vp_param(2);
    int e[4];
    for(size_t k = 0; k < n; ++k) e[k] = int(vp_range(0, 9, "e"));
    const unsigned o = vp_pick(0, 2, "specification");
    const char* spec = o == 0 ? "{}" : o == 1 ? "{:03}" : "{:*<2x}";
    S<C> f = fm::L<C>(spec), got, want;
    auto all = [&](const auto& r, V<C> s)
    {
        bool first = true;
        for(const auto& i : r) { if(!first) want += s; first = false; want += fm::run<C>(V<C>(f), i); }
    };
    switch(vp_param(0))
    {
    case 0: { std::vector<int> v(e, e + n); got = fm::run<C>(V<C>(f), join<C>(v, sep.view())); all(v, sep.view()); break; }
    case 1: { const std::list<int> v(e, e + n); got = fm::run<C>(V<C>(f), join<C>(v)); all(v, V<C>(fm::L<C>(", "))); break; }
    case 2: { S<C> z(sep.view()); for(C c : z) vp_assume(c != C()); std::vector<int> v(e, e + n); got = fm::run<C>(V<C>(f), join<C>(v, z.c_str())); all(v, sep.view()); break; }
    case 3:
    {
        std::vector<S<C>> v;
        for(size_t k = 0; k < n; ++k) v.push_back(S<C>(k, C('0' + e[k])));
        f = fm::L<C>(o == 0 ? "{}" : o == 1 ? "{:->3}" : "{:?}");
        got = fm::run<C>(V<C>(f), join<C>(v, sep.view())); all(v, sep.view());
        break;
    }
    case 4:
    {
        std::vector<std::optional<int>> v;
        for(size_t k = 0; k < n; ++k) { if(k == 1) v.emplace_back(); else v.emplace_back(e[k]); }
        f = fm::L<C>("{}");
        got = fm::run<C>(V<C>(f), join<C>(v, sep.view())); all(v, sep.view());
        break;
    }
    }
    vp_assert(ref::same<C>(got, want), "the elements in order with the separator strictly between them");
    vp_reach("end");
}
// an arbitrary option
template <class C> void invalid()
{
    unsigned char c = vp_any<unsigned char>("option");
    vp_assume(vp_and(c > 32, c < 127));
    vp_assume(vp_and(c != '{', c != '}'));
    const unsigned k = vp_param(0);
    S<C> f = fm::L<C>("{:");
    f.push_back(C(c)); f.push_back(C('}'));
    const bool q = c == '?', n = c == 'n', m = c == 'm', s = c == 's', colon = c == ':';
    bool ok = false;
    fm::Res<C> r;
    if(k == 0) { r = fm::tryrun<C>(V<C>(f), std::vector<int>{1, 2}); ok = n || m || colon; if(s) return; }
    else if(k == 1) { r = fm::tryrun<C>(V<C>(f), std::list<C>{C('a')}); ok = n || m || s || colon; }
    else if(k == 2) { r = fm::tryrun<C>(V<C>(f), std::make_tuple(1, 2, 3)); ok = n; }
    else if(k == 3) { r = fm::tryrun<C>(V<C>(f), std::make_pair(1, 2)); ok = n || m; }
    else if(k == 4) { r = fm::tryrun<C>(V<C>(f), std::optional<int>(1)); ok = false; }
    else if(k == 5) { r = fm::tryrun<C>(V<C>(f), std::vector<std::vector<int>>{{1}}); ok = n || m || colon; if(s) return; }
    (void)q;
    vp_assert(r.threw == !ok, "only the documented options are accepted");
    vp_reach("end");
}
}
#define E(n, C) extern "C" void sequences_##n() { sequences<C>(); } extern "C" void texts_##n() { texts<C>(); } extern "C" void strings_##n() { strings<C>(); } \
    extern "C" void once_##n() { once<C>(); } extern "C" void tuples_##n() { tuples<C>(); } extern "C" void sums_##n() { sums<C>(); } extern "C" void joins_##n() { joins<C>(); } extern "C" void invalid_##n() { invalid<C>(); }
E(char, char) E(wchar, wchar_t) E(char16, char16_t)
