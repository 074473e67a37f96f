#include "fmt.h"
#include <array>
#include <map>
#include <optional>
#include <span>
#include <tuple>
#include <variant>
#include <vector>
#include <papilio/accessor/misc.hpp>
#include <papilio/formatter/misc.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
using namespace papilio;
// A user type whose accessor makes new objects that the returned argument owns.
struct maker { const char* text; std::size_t n; };
namespace papilio
{
template <typename Context> struct accessor<maker, Context>
{
    using char_type = typename Context::char_type;
    using attribute_name_type = basic_attribute_name<char_type>;
    using format_arg_type = basic_format_arg<Context>;
    static format_arg_type attribute(const maker& m, const attribute_name_type& attr)
    {
        std::basic_string<char_type> s(m.text, m.text + m.n);
        if(attr == PAPILIO_TSTRING_VIEW(char_type, "text")) return format_arg_type(std::move(s));
        if(attr == PAPILIO_TSTRING_VIEW(char_type, "all")) return format_arg_type(independent, std::vector<std::basic_string<char_type>>{s, s});
        throw_invalid_attribute(attr);
    }
    static format_arg_type index(const maker& m, ssize_t i) { return format_arg_type(independent, std::pair<int, std::array<int, 2>>(int(m.n), {int(i), int(i + 1)})); }
};
}
namespace
{
template <class C> using Arg = basic_format_arg<fm::ctx<C>>;
template <class C> using Idx = basic_indexing_value<C>;
// position named by i in n elements, n when there is none
size_t place(ssize_t i, size_t n)
{
    size_t r = n;
    for(size_t k = 0; k < n; ++k)
        if(i == ssize_t(k) || i == ssize_t(k) - ssize_t(n)) r = k;
    return r;
}
// positions named by a slice
void span_of(ssize_t& f, ssize_t& s, size_t len)
{
    ssize_t n = ssize_t(len);
    if(f < 0) f = f < -n ? 0 : f + n;
    if(s < 0) s = s < -n ? 0 : s + n;
    if(f > n) f = n;
    if(s > n) s = n;
    if(s < f) s = f;
    for(ssize_t k = 0; k <= n; ++k) if(f == k) { f = k; break; }
    for(ssize_t k = 0; k <= n; ++k) if(s == k) { s = k; break; }
}
template <class C> bool is_int(const Arg<C>& a, int v) { return a.template holds<int>() && get<int>(a) == v; }
template <class C> bool is_size(const Arg<C>& a, size_t v)
{
    return a.template holds<unsigned long long>() && get<unsigned long long>(a) == v;
}
template <class C> bool is_text(const Arg<C>& a, std::basic_string_view<C> v)
{
    return a.template holds<utf::basic_string_container<C>>() && ref::same<C>(std::basic_string_view<C>(get<utf::basic_string_container<C>>(a)), v);
}
template <class C> void str_index()
{
    ref::Text<C> t;
    ref::gen(t, vp_param(0));
    Arg<C> a(t.view());
    ssize_t i = vp_num<ssize_t>("index");
    Arg<C> r = a.index(Idx<C>(i));
    vp_assert(r.template holds<utf::codepoint>(), "an element of a string is a code point");
    size_t p = place(i, t.ncp);
    vp_assert(char32_t(get<utf::codepoint>(r)) == (p < t.ncp ? t.cp[p] : U'\0'), "the code point at the index, counted from the end for negative ones, or a null character");
    vp_assert(is_size<C>(a.attribute(fm::L<C>("size")), t.n), "size is the number of units");
    vp_assert(is_size<C>(a.attribute(fm::L<C>("length")), t.ncp), "length is the number of code points");
    vp_reach("end");
}
template <class C> void str_slice()
{
    ref::Text<C> t;
    ref::gen(t, vp_param(0));
    Arg<C> a(t.view());
    ssize_t f = vp_num<ssize_t>("first"), s = vp_bool("open") ? index_range::npos : vp_num<ssize_t>("second");
    Arg<C> r = a.index(Idx<C>(index_range(f, s)));
    span_of(f, s, t.ncp);
    vp_assert(is_text<C>(r, t.sub(f, s)), "a slice is the text between its positions");
    vp_reach("end");
}
// an attribute name of n arbitrary units; returns what remains of the list of known names after it was compared
template <class C> struct Name
{
    std::basic_string<C> s;
    explicit Name(size_t n)
    {
        s.resize(n);
        for(auto& c : s) { c = vp_any<C>("name"); }
    }
    bool is(const char* k) const { return vp_concrete(ref::same<C>(std::basic_string_view<C>(s), fm::L<C>(k))); }
};
template <class C, class T, class F> void attr(const T& v, F&& expected)
{
    Name<C> n(vp_param(1));
    Arg<C> a(v), r;
    bool threw = false;
    try { r = a.attribute(n.s); }
    catch(const basic_invalid_attribute<C>& e) { threw = true; vp_assert(ref::same<C>(std::basic_string_view<C>(e.name().name()), n.s), "the exception carries the name"); }
    int e = expected(n, r);
    vp_assert(threw == (e < 0), "an attribute that is not documented throws");
    if(e >= 0) vp_assert(e == 1, "the attribute has the documented value");
    vp_reach("end");
}
template <class C> void attrs()
{
    using N = const Name<C>&;
    using R = const Arg<C>&;
    const int x = vp_any<int>("x"), y = vp_any<int>("y");
    auto size = [](size_t k) { return [k](N n, R r) { return n.is("size") ? is_size<C>(r, k) : -1; }; };
    switch(vp_param(0))
    {
    case 0: attr<C>(fm::L<C>("abc"), [](N n, R r) { return n.is("size") || n.is("length") ? is_size<C>(r, 3) : -1; }); break;
    case 1: attr<C>(std::vector<int>{x, y}, size(2)); break;
    case 2: attr<C>(std::span<const int>(), size(0)); break;
    case 3: attr<C>(std::array<int, 3>{x, y, x}, size(3)); break;
    case 4: attr<C>(std::vector<bool>{true, false}, size(2)); break;
    case 5: attr<C>(small_vector<int, 2>{x, y, x}, size(3)); break;
    case 6: { fixed_vector<int, 4> v; v.push_back(x); attr<C>(v, size(1)); break; }
    case 7: attr<C>(std::tuple<int, int, int>(x, y, x), size(3)); break;
    case 8: attr<C>(std::pair<int, int>(x, y), [&](N n, R r) { return n.is("size") ? is_size<C>(r, 2) : n.is("first") ? is_int<C>(r, x) : n.is("second") ? is_int<C>(r, y) : -1; }); break;
    case 9: attr<C>(compressed_pair<int, int>(x, y), [&](N n, R r) { return n.is("size") ? is_size<C>(r, 2) : n.is("first") ? is_int<C>(r, x) : n.is("second") ? is_int<C>(r, y) : -1; }); break;
    case 10:
    {
        std::map<int, int> m{{1, x}, {2, 5}, {3, y}};
        attr<C>(m, [&](N n, R r) { return n.is("size") ? is_size<C>(r, 3) : n.is("min") ? is_int<C>(r, x) : n.is("max") ? is_int<C>(r, y) : -1; });
        break;
    }
    case 11:
    {
        std::map<int, int, std::greater<int>> m{{1, x}, {2, 5}, {3, y}};
        attr<C>(m, [&](N n, R r) { return n.is("size") ? is_size<C>(r, 3) : n.is("min") ? is_int<C>(r, x) : n.is("max") ? is_int<C>(r, y) : -1; });
        break;
    }
    case 12:
    {
        std::map<int, int> m;
        attr<C>(m, [&](N n, R r) { return n.is("size") ? is_size<C>(r, 0) : n.is("min") || n.is("max") ? r.empty() : -1; });
        break;
    }
    case 13:
    {
        fixed_flat_map<int, int, 4> m;
        m.try_emplace(3, y); m.try_emplace(1, x); m.try_emplace(2, 5);
        attr<C>(m, [&](N n, R r) { return n.is("size") ? is_size<C>(r, 3) : n.is("min") ? is_int<C>(r, x) : n.is("max") ? is_int<C>(r, y) : -1; });
        break;
    }
    case 14:
    {
        const bool has = vp_bool("has");
        std::optional<int> o;
        if(has) o = x;
        attr<C>(o, [&](N n, R r) { return n.is("has_value") ? r.template holds<bool>() && get<bool>(r) == has : n.is("value") ? has ? is_int<C>(r, x) : r.empty() : -1; });
        break;
    }
    case 15:
    {
        using V = std::variant<int, std::basic_string<C>>;
        const bool text = vp_concrete(vp_bool("text"));
        V v = text ? V(fm::L<C>("ab")) : V(x);
        attr<C>(v, [&](N n, R r) { return n.is("index") ? is_size<C>(r, text) : n.is("value") ? text ? is_text<C>(r, fm::L<C>("ab")) : is_int<C>(r, x) : -1; });
        break;
    }
    case 16:
    {
        std::type_index ti(typeid(maker));
        attr<C>(ti, [&](N n, R r) { return n.is("name") ? is_text<C>(r, fm::L<C>(ti.name())) : n.is("hash_code") ? is_size<C>(r, ti.hash_code()) : -1; });
        break;
    }
    case 17: attr<C>(x, [](N, R) { return -1; }); break;
    case 18: attr<C>(1.5, [](N, R) { return -1; }); break;
    case 19: attr<C>(std::map<std::basic_string<C>, int, std::less<>>{}, [&](N n, R r) { return n.is("size") ? is_size<C>(r, 0) : n.is("min") || n.is("max") ? r.empty() : -1; }); break;
    case 20: attr<C>(std::tuple<int, int>(x, y), [&](N n, R r) { return n.is("size") ? is_size<C>(r, 2) : n.is("first") ? is_int<C>(r, x) : n.is("second") ? is_int<C>(r, y) : -1; }); break;
    }
}
// a container of n integers: an element or a slice
template <class C, class T> void elements(const T& v, const int* e, size_t n)
{
    Arg<C> a(v);
    ssize_t i = vp_num<ssize_t>("index");
    Arg<C> r = a.index(Idx<C>(i));
    size_t p = place(i, n);
    if(p < n) vp_assert(is_int<C>(r, e[p]), "the element at the index, counted from the end for negative ones");
    else vp_assert(r.empty(), "nothing for an index beyond the elements");
    bool threw = false;
    try { r = a.index(Idx<C>(fm::L<C>("size"))); } catch(const std::runtime_error&) { threw = true; }
    vp_assert(threw, "a sequence has no string keys");
    vp_reach("end");
}
template <class C, class T> void slices(const T& v, const int* e, size_t n)
{
    Arg<C> a(v);
    ssize_t f = vp_num<ssize_t>("first"), s = vp_bool("open") ? index_range::npos : vp_num<ssize_t>("second");
    Arg<C> r = a.index(Idx<C>(index_range(f, s)));
    span_of(f, s, n);
    if(f == s) vp_assert(r.empty(), "nothing for an empty slice");
    else
    {
        vp_assert(r.template holds<typename Arg<C>::handle>(), "a slice is a range");
        const std::span<const int>& sp = get<std::span<const int>>(r);
        vp_assert(sp.size() == size_t(s - f), "a slice has the elements between its positions");
        bool ok = true;
        for(size_t k = 0; k < sp.size(); ++k) ok = vp_and(ok, sp[k] == e[f + k]);
        vp_assert(ok, "in order");
        // and it can be indexed again
        vp_assert(is_int<C>(r.index(Idx<C>(ssize_t(-1))), e[s - 1]), "the last element of the slice");
    }
    vp_reach("end");
}
template <class C, bool Slice> void ranges()
{
    const size_t n = vp_param(1);
    int e[8];
    for(size_t k = 0; k < n; ++k) e[k] = vp_any<int>("e");
    auto go = [&](const auto& v) { if constexpr(Slice) slices<C>(v, e, n); else elements<C>(v, e, n); };
    switch(vp_param(0))
    {
    case 0: go(std::vector<int>(e, e + n)); break;
    case 1: go(std::span<const int>(e, n)); break;
    case 2: { small_vector<int, 2> v; for(size_t k = 0; k < n; ++k) v.push_back(e[k]); go(v); break; }
    case 3: { fixed_vector<int, 8> v; for(size_t k = 0; k < n; ++k) v.push_back(e[k]); go(v); break; }
    case 4: { std::array<int, 3> v{e[0], e[1], e[2]}; go(v); break; }
    case 5: { const int v[3]{e[0], e[1], e[2]}; go(v); break; }
    case 6: { std::span<int, 3> v(e, 3); go(std::span<int>(v)); break; }
    }
}
template <class C> void others()
{
    const int x = vp_any<int>("x"), y = vp_any<int>("y"), z = vp_any<int>("z");
    const ssize_t i = vp_num<ssize_t>("index");
    switch(vp_param(0))
    {
    case 0:
    {
        std::tuple<int, std::basic_string<C>, int> v(x, fm::L<C>("ab"), y);
        Arg<C> r = Arg<C>(v).index(Idx<C>(i));
        size_t p = place(i, 3);
        vp_assert(p == 0 ? is_int<C>(r, x) : p == 1 ? is_text<C>(r, fm::L<C>("ab")) : p == 2 ? is_int<C>(r, y) : r.empty(), "the component of the tuple");
        break;
    }
    case 1:
    {
        std::pair<int, bool> v(x, true);
        Arg<C> r = Arg<C>(v).index(Idx<C>(i));
        size_t p = place(i, 2);
        vp_assert(p == 0 ? is_int<C>(r, x) : p == 1 ? r.template holds<bool>() && get<bool>(r) : r.empty(), "the component of the pair");
        break;
    }
    case 2:
    {
        compressed_pair<int, int> v(x, y);
        Arg<C> r = Arg<C>(v).index(Idx<C>(i));
        size_t p = place(i, 2);
        vp_assert(p == 0 ? is_int<C>(r, x) : p == 1 ? is_int<C>(r, y) : r.empty(), "the component of the compressed pair");
        break;
    }
    case 3:
    {
        std::tuple<> v;
        vp_assert(Arg<C>(v).index(Idx<C>(i)).empty(), "an empty tuple has no components");
        break;
    }
    case 4:
    {
        std::vector<bool> v{true, false, true};
        Arg<C> r = Arg<C>(v).index(Idx<C>(i));
        size_t p = place(i, 3);
        vp_assert(p < 3 ? r.template holds<bool>() && get<bool>(r) == (p != 1) : r.empty(), "the element of a vector of bool");
        break;
    }
    case 5:
    {
        std::map<int, int> m;
        vp_assume(vp_and(x < y, y < z));
        m[y] = 2; m[x] = 1; m[z] = 3;
        Arg<C> r = Arg<C>(m).index(Idx<C>(i));
        vp_assert(i == x ? is_int<C>(r, 1) : i == y ? is_int<C>(r, 2) : i == z ? is_int<C>(r, 3) : r.empty(), "the value for the key");
        break;
    }
    case 6:
    {
        unsigned char u = vp_any<unsigned char>("key");
        std::map<unsigned char, int> m{{u, x}};
        Arg<C> r = Arg<C>(m).index(Idx<C>(i));
        vp_assert(i == ssize_t(u) ? is_int<C>(r, x) : r.empty(), "the value for the key, which is not truncated");
        break;
    }
    case 7:
    {
        unsigned long long u = vp_any<unsigned long long>("key");
        std::map<unsigned long long, int> m{{u, x}};
        Arg<C> r = Arg<C>(m).index(Idx<C>(i));
        vp_assert(i >= 0 && (unsigned long long)(i) == u ? is_int<C>(r, x) : r.empty(), "the value for the key");
        break;
    }
    case 8:
    {
        signed char u = vp_any<signed char>("key");
        fixed_flat_map<signed char, int, 4> m;
        m.try_emplace(u, x);
        Arg<C> r = Arg<C>(m).index(Idx<C>(i));
        vp_assert(i == ssize_t(u) ? is_int<C>(r, x) : r.empty(), "the value for the key");
        break;
    }
    case 9:
    {
        using V = std::variant<int, bool>;
        const bool second = vp_concrete(vp_bool("second"));
        V v = second ? V(true) : V(x);
        Arg<C> r = Arg<C>(v).index(Idx<C>(i));
        size_t p = place(i, 2);
        vp_assert(p == 0 && !second ? is_int<C>(r, x) : p == 1 && second ? r.template holds<bool>() && get<bool>(r) : r.empty(), "the alternative of the variant that it holds");
        break;
    }
    case 10: // a user-defined accessor
    {
        maker m{"ab", 2};
        vp_assume(vp_and(i > -1000, i < 1000));
        Arg<C> r = Arg<C>(m).index(Idx<C>(i));
        vp_assert(is_int<C>(r.index(Idx<C>(ssize_t(0))), 2) && is_int<C>(r.index(Idx<C>(ssize_t(1))).index(Idx<C>(ssize_t(0))), int(i)), "a user-defined accessor receives the index");
        break;
    }
    }
    vp_reach("end");
}
// maps with string keys
template <class C> void keys()
{
    const size_t n = vp_param(1);
    std::basic_string<C> k(n, C()), q(vp_param(2), C());
    for(auto& c : k) c = vp_any<C>("key");
    for(auto& c : q) c = vp_any<C>("query");
    const int x = vp_any<int>("x");
    bool same = ref::same<C>(std::basic_string_view<C>(k), q);
    auto go = [&](const auto& m)
    {
        Arg<C> r = Arg<C>(m).index(Idx<C>(q));
        vp_assert(same ? is_int<C>(r, x) : q.empty() ? is_int<C>(r, 7) : r.empty(), "the value for the key");
        bool threw = false;
        try { r = Arg<C>(m).index(Idx<C>(ssize_t(0))); } catch(const std::runtime_error&) { threw = true; }
        vp_assert(threw, "a map with string keys has no integer index");
        threw = false;
        try { r = Arg<C>(m).index(Idx<C>(index_range(0, 1))); } catch(const std::runtime_error&) { threw = true; }
        vp_assert(threw, "a map has no slices");
    };
    using S = std::basic_string<C>;
    if(vp_param(0) == 0) { std::map<S, int> m; m[S()] = 7; m[k] = x; go(m); }
    else if(vp_param(0) == 1) { std::map<S, int, std::less<>> m; m[S()] = 7; m[k] = x; go(m); }
    else { fixed_flat_map<S, int, 3> m; m.try_emplace(S(), 7); m.insert_or_assign(k, x); go(m); }
    vp_reach("end");
}
template <class C> void none()
{
    const ssize_t i = vp_num<ssize_t>("index"), j = vp_num<ssize_t>("last");
    const unsigned kind = vp_pick(0, 2, "kind");
    Idx<C> idx = kind == 0 ? Idx<C>(i) : kind == 1 ? Idx<C>(index_range(i, j)) : Idx<C>(fm::L<C>("x"));
    auto throws = [&](const Arg<C>& a)
    {
        bool t = false;
        try { (void)a.index(idx); } catch(const std::runtime_error&) { t = true; }
        return t;
    };
    int dummy = 0;
    std::optional<int> o(3);
    std::tuple<int, int> tp(1, 2);
    std::vector<int> v{1, 2};
    std::vector<bool> vb{true};
    std::map<int, int> m;
    switch(vp_param(0))
    {
    case 0: vp_assert(throws(5), "an integer has no elements"); break;
    case 1: vp_assert(throws(1.5), "a float has no elements"); break;
    case 2: vp_assert(throws(true), "a bool has no elements"); break;
    case 3: vp_assert(throws(utf::codepoint(U'x')), "a code point has no elements"); break;
    case 4: vp_assert(throws((const void*)&dummy), "a pointer has no elements"); break;
    case 5: vp_assert(throws(Arg<C>()), "an empty argument has no elements"); break;
    case 6: vp_assert(throws(o), "an optional has no elements"); break;
    case 7: vp_assert(throws(tp) == (kind != 0), "a tuple has only integer indices"); break;
    case 8: vp_assert(throws(v) == (kind == 2), "a vector has no string keys"); break;
    case 9: vp_assert(throws(vb) == (kind != 0), "a vector of bool has only integer indices"); break;
    case 10: vp_assert(throws(m) == (kind != 0), "a map with integer keys has only integer indices"); break;
    case 11: vp_assert(throws(std::type_index(typeid(maker))), "a type has no elements"); break;
    case 12: vp_assert(throws(fm::L<C>("abc")) == (kind == 2), "a string has no string keys"); break;
    }
    vp_reach("end");
}
// chains, in a replacement field
template <class C> int dig(std::basic_string<C>& f, unsigned top)
{
    bool neg = vp_pick(0, 1, "negative");
    unsigned d = vp_range(0, top, "digit");
    if(neg) f.push_back(C('-'));
    f.push_back(C('0' + d));
    return neg ? -int(d) : int(d);
}
template <class C> void chain()
{
    using S = std::basic_string<C>;
    S f = fm::L<C>("{0");
    auto add = [&](const char* s) { f += fm::L<C>(s); };
    const int x = int(vp_range(0, 9, "x")), y = int(vp_range(0, 9, "y"));
    auto spell = [](int d) { return S(1, C('0' + d)); };
    fm::Res<C> r;
    S want;
    bool bad = false;
    switch(vp_param(0))
    {
    case 0: // nested vectors
    {
        std::vector<std::vector<int>> v{{x}, {y, x}, {}};
        add("["); size_t p = place(dig<C>(f, 4), 3); add("]["); size_t q = 9;
        int d = dig<C>(f, 3); add("]}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
        if(p < 3) q = place(d, v[p].size());
        bad = p == 3 || q >= v[p].size();
        if(!bad) want = spell(v[p][q]);
        break;
    }
    case 1: // an array inside a small object
    {
        std::pair<int, std::array<int, 2>> v(x, {x, y});
        add(vp_pick(0, 1, "attribute") ? ".second[" : "[-1]["); size_t p = place(dig<C>(f, 3), 2); add("]}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
        bad = p == 2;
        if(!bad) want = spell(p ? y : x);
        break;
    }
    case 2: // an array inside a small object, as a whole
    {
        std::tuple<int, std::array<int, 2>> v(x, {x, y});
        add("[1]}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
        want = fm::L<C>("[") + spell(x) + fm::L<C>(", ") + spell(y) + fm::L<C>("]");
        break;
    }
    case 3: // a slice of a string that only the chain owns
    {
        maker m{"hello", 5};
        add(".text["); ssize_t a = dig<C>(f, 6); add(":"); ssize_t b = dig<C>(f, 6); add("]}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), m);
        span_of(a, b, 5);
        want = fm::L<C>("hello").substr(a, b - a);
        break;
    }
    case 4: // an element of a vector that only the chain owns
    {
        maker m{"hey", 3};
        add(".all["); size_t p = place(dig<C>(f, 3), 2); add("]["); size_t q = place(dig<C>(f, 4), 3); add("]}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), m);
        bad = p == 2;
        want = S(1, q < 3 ? C("hey"[q]) : C());
        break;
    }
    case 5: // a slice of a slice
    {
        const int e[4]{x, y, 7, 8};
        add("["); ssize_t a = dig<C>(f, 5); add(":]["); size_t d = 9;
        int i = dig<C>(f, 4); add("]}");
        ssize_t b = 4;
        r = fm::tryrun<C>(std::basic_string_view<C>(f), e);
        span_of(a, b, 4);
        d = a == b ? 0 : place(i, b - a);
        bad = a == b || d == size_t(b - a);
        if(!bad) want = spell(e[a + d]);
        break;
    }
    case 6: // the user's small object
    {
        maker m{"hey", 3};
        add("["); int i = int(vp_range(0, 8, "digit")); f.push_back(C('0' + i)); add("][1]["); size_t p = place(dig<C>(f, 3), 2); add("]}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), m);
        bad = p == 2;
        want = spell(i + int(p == 1));
        break;
    }
    case 7: // in a condition of the script
    {
        maker m{"hello", 5};
        f = fm::L<C>("{$ {0.text["); ssize_t a = dig<C>(f, 6); add(":"); ssize_t b = dig<C>(f, 6); add("]} == {0.text[1:3]} ? 'y' : 'n'}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), m);
        span_of(a, b, 5);
        want = fm::L<C>(std::string("hello").substr(a, b - a) == "el" ? "y" : "n");
        break;
    }
    case 8: // maps of optionals, by name
    {
        std::map<S, std::optional<int>> m;
        m[fm::L<C>("a")] = x;
        m[fm::L<C>("b")];
        unsigned char c = vp_range('a', 'd', "key"), k = vp_pick(0, 1, "attribute");
        const S name = fm::L<C>("it");
        f = fm::L<C>("{it['"); f.push_back(C(c)); add(k ? "'].has_value}" : "'].value}");
        r = fm::tryrun<C>(std::basic_string_view<C>(f), PAPILIO_NS arg(name.c_str(), m));
        if(c == 'a') want = k ? fm::L<C>("true") : spell(x);
        else if(c == 'b') { if(k) want = fm::L<C>("false"); else bad = true; }
        else bad = true;
        break;
    }
    }
    vp_assert(r.threw == bad, "a member that does not exist throws, any other does not");
    if(!bad) vp_assert(ref::same<C>(r.s, want), "the chain ends at the member it names");
    vp_reach("end");
}
}
#define E(n, C) extern "C" void str_index_##n() { str_index<C>(); } extern "C" void str_slice_##n() { str_slice<C>(); } extern "C" void attrs_##n() { attrs<C>(); } \
    extern "C" void ranges_##n() { ranges<C, false>(); } extern "C" void slices_##n() { ranges<C, true>(); } extern "C" void others_##n() { others<C>(); } \
    extern "C" void keys_##n() { keys<C>(); } extern "C" void none_##n() { none<C>(); } extern "C" void chain_##n() { chain<C>(); }
E(char, char) E(wchar, wchar_t) E(char16, char16_t)
