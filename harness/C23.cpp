#include "fmt.h"
#include <map>
#include <optional>
#include <tuple>
#include <vector>
using namespace papilio;
// A user-defined type whose output has as many characters as its value says.
struct item { unsigned n; };
namespace papilio
{
template <typename C> class formatter<item, C>
{
public:
    template <typename PC> auto parse(PC& ctx) -> typename PC::iterator { return ctx.begin(); }
    template <typename FC> auto format(const item& i, FC& ctx) const -> typename FC::iterator
    {
        auto it = ctx.out();
        for(unsigned j = 0; j < i.n; ++j) { *it = C('a' + j); ++it; }
        return it;
    }
};
}
namespace
{
template <class C> using S = std::basic_string<C>;
template <class C> using V = std::basic_string_view<C>;
enum { FORMAT, TO, SIZE, TO_N, LAZY, WIDE };
// an output iterator that counts and refuses to be used beyond its room
template <class C> struct sink
{
    using iterator_category = std::output_iterator_tag;
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    C* at = nullptr;
    C* stop = nullptr;
    sink& operator*() { return *this; }
    sink& operator++() { ++at; return *this; }
    sink operator++(int) { auto t = *this; ++at; return t; }
    sink& operator=(C c) { vp_assert(at != stop, "nothing is written beyond the given number of characters"); *at = c; return *this; }
};
template <class C, class... A> void agree(unsigned how, V<C> f, A&&... a)
{
    auto want = fm::tryrun<C>(f, a...);
    const size_t len = want.s.size();
    if(want.threw) vp_reach("rejected"); else vp_reach("formatted");
    if(how == FORMAT)
    {
        fm::Res<C> got;
        try { got.s = papilio::format(basic_format_string<C, std::type_identity_t<A&>...>(f), a...); }
        catch(const std::exception&) { got.threw = true; got.s.clear(); }
        vp_assert(got.threw == want.threw && ref::same<C>(got.s, want.s), "format agrees with vformat");
    }
    else if(how == TO)
    {
        S<C> got = fm::L<C>("<");
        bool threw = false;
        try { papilio::format_to(std::back_inserter(got), basic_format_string<C, std::type_identity_t<A&>...>(f), a...); }
        catch(const std::exception&) { threw = true; }
        vp_assert(threw == want.threw, "format_to agrees with vformat about errors");
        if(!threw) vp_assert(ref::same<C>(got, fm::L<C>("<") + want.s), "format_to appends what vformat returns");
        if(!want.threw)
        {
            std::vector<C> buf(len + 1, C('~'));
            C* e = papilio::format_to(buf.data(), basic_format_string<C, std::type_identity_t<A&>...>(f), a...);
            vp_assert(e == buf.data() + len && ref::same<C>(V<C>(buf.data(), len), want.s) && buf[len] == C('~'), "format_to writes to a pointer what vformat returns, and returns the end");
        }
    }
    else if(how == SIZE)
    {
        bool threw = false;
        size_t n = 0;
        try { n = papilio::formatted_size(basic_format_string<C, std::type_identity_t<A&>...>(f), a...); }
        catch(const std::exception&) { threw = true; }
        vp_assert(threw == want.threw && (threw || n == len), "formatted_size is the length of the text");
    }
    else if(how == TO_N)
    {
        const size_t n = vp_pick(0, unsigned(len + 2), "n");
        std::vector<C> buf(n + 1, C('~'));
        const size_t w = n < len ? n : len;
        try
        {
            auto r = papilio::format_to_n(sink<C>{buf.data(), buf.data() + n}, std::ptrdiff_t(n), basic_format_string<C, std::type_identity_t<A&>...>(f), a...);
            if(!want.threw)
            {
                vp_assert(r.size == std::ptrdiff_t(w) && r.out.at == buf.data() + w, "format_to_n returns the number of characters and the position after the last one");
                vp_assert(ref::same<C>(V<C>(buf.data(), w), V<C>(want.s).substr(0, w)), "format_to_n writes the first n characters");
                for(size_t i = w; i <= n; ++i) vp_assert(buf[i] == C('~'), "format_to_n writes nothing else");
                if(n < len) vp_reach("truncated");
            }
        }
        catch(const std::exception&) { vp_assert(want.threw, "format_to_n accepts what vformat accepts"); }
    }
    else if(how == LAZY)
    {
        S<C> got;
        bool threw = false;
        const unsigned mv = vp_pick(0, unsigned(len < 3 ? len : 3), "moved after");
        const bool assign = vp_bool("assigned");
        try
        {
            auto go = [&](const auto& args)
            {
                formatted_range<C> r(f, args);
                auto it = r.begin();
                while(!(it == r.end()) && got.size() < mv) { got.push_back(*it); ++it; }
                if(assign)
                {
                    auto jt = r.begin();
                    jt = std::move(it);
                    while(!(jt == r.end()) && (want.threw || got.size() <= len)) { got.push_back(*jt); jt++; }
                }
                else
                {
                    auto jt = std::move(it);
                    for(; want.threw ? !(jt == r.end()) : got.size() < len; ++jt) got.push_back(*jt);
                    vp_assert(jt == r.end(), "the lazy range ends with the text");
                }
            };
            go(papilio::make_format_args<fm::ctx<C>>(a...));
        }
        catch(const std::exception&) { threw = true; }
        vp_assert(threw == want.threw, "the lazy range agrees with vformat about errors");
        if(!threw) vp_assert(ref::same<C>(got, want.s), "the lazy range has the characters of the text");
    }
}
// the same text in another character type
template <class C> S<C> as(const std::string& s) { return fm::L<C>(s.c_str()); }
template <class C, bool Full = false, class... A> void agree(unsigned how, const char* f, A&&... a)
{
    const S<C> g = fm::L<C>(f);
    if(how != WIDE) { if constexpr(Full || std::is_same_v<C, char> || std::is_same_v<C, char16_t>) agree<C>(how, V<C>(g), a...); }
    else if constexpr(!(papilio::is_named_arg_v<std::remove_cvref_t<A>> || ...))
    {
        auto conv = [](auto& x) -> decltype(auto) { if constexpr(std::is_same_v<std::remove_cvref_t<decltype(x)>, S<C>>) return std::string(x.begin(), x.end()); else return (x); };
        auto want = fm::tryrun<char>(std::string_view(f), conv(a)...);
        auto got = fm::tryrun<C>(V<C>(g), a...);
        vp_assert(got.threw == want.threw && (got.threw || ref::same<C>(got.s, as<C>(want.s))), "every character type gives the same text");
    }
}
template <class C> S<C> word(unsigned n, bool ascii)
{
    S<C> s;
    if(ascii) { for(unsigned i = 0; i < n; ++i) { char c = char(vp_num<unsigned char>("char")); vp_assume(c > ' ' && c < 127); s.push_back(C(c)); } return s; }
    ref::Text<C> t; ref::gen<C>(t, n);
    return S<C>(t.view());
}
// one replacement field or several, with values of every kind; the second parameter selects the entry point
template <class C> void fields()
{
    const unsigned k = vp_param(0), how = vp_param(1);
    const bool wide = how == WIDE;
    switch(k)
    {
    case 0: { int v = vp_num<int>("v"); vp_assume(v > -1200 && v < 1200); agree<C>(how, "{}", v); break; }
    case 1: { auto s = word<C>(vp_pick(0, 1, "n"), wide); int v = vp_num<int>("v"); vp_assume(v > -2 && v < 12); agree<C, true>(how, "a{}b{}|", s, v); break; }
    case 2: { auto s = word<C>(vp_pick(0, 1, "n"), wide); agree<C>(how, "{:>4}{0:<3}{0:*^2}", s); break; }
    case 3: { auto s = word<C>(vp_pick(0, 2, "n"), wide); agree<C>(how, "{{{}}}", s); break; }
    case 4: { bool b = vp_bool("b"); unsigned u = vp_num<unsigned char>("u"); agree<C>(how, "{$ {0} ? 'x' : '{1}'}{$!{0}?'no'}", b, u); break; }
    case 5: { auto s = word<C>(vp_pick(0, 2, "n"), wide); agree<C>(how, "{0[1:]}{0.length}{0[-1]}", s); break; }
    case 6: { auto v = vp_num<unsigned char>("v"); agree<C>(how, "{:x}{0:#b}{0:+}{0:04o}", v); break; }
    case 7: { auto s = word<C>(1, wide); unsigned w = vp_pick(0, 3, "w"); agree<C>(how, "{:{}}{0:.{1}}", s, w); break; }
    case 8: { std::vector<int> v; unsigned n = vp_pick(0, 2, "n"); for(unsigned i = 0; i < n; ++i) { int x = vp_num<int>("x"); vp_assume(x > -10 && x < 10); v.push_back(x); } agree<C>(how, "{}{0:n}", v); break; }
    case 9: { item i{unsigned(vp_pick(0, 3, "n"))}; agree<C>(how, "<{}>{0}", i); break; }
    case 10: { C c = wide ? C(word<C>(1, true)[0]) : C(vp_num<std::make_unsigned_t<C>>("c")); if(sizeof(C) == 1 || !wide) vp_assume(std::make_unsigned_t<C>(c) < 128); agree<C>(how, "{}{0:?}{0:d}", c); break; }
    case 11: { int v = vp_num<int>("v"); vp_assume(v > -12 && v < 12); auto s = word<C>(1, wide); auto n = fm::L<C>("ab"); if constexpr(true) agree<C>(how, "{ab}{x_1}{ab:3}", papilio::arg(V<C>(n), v), papilio::arg(PAPILIO_TSTRING_VIEW(C, "x_1"), s)); break; }
    case 12: { std::optional<int> o; if(vp_bool("has")) { int v = vp_num<int>("v"); vp_assume(v > -12 && v < 12); o = v; } std::pair<int, bool> p{int(vp_pick(0, 3, "p")), vp_bool("q")}; agree<C>(how, "{}{}", o, p); break; }
    case 13: { bool b = vp_bool("b"); agree<C>(how, "{}{0:^7}{0:d}", b); break; }
    case 14: { double d = vp_bool("inf") ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN(); agree<C>(how, "{}{0:+F}{0:>5}", d); break; }
    }
}
// a format string of arbitrary characters between fixed ones
template <class C> void formats()
{
    const unsigned n = vp_param(0), how = vp_param(1), cls = vp_param(2);
    S<C> f;
    for(unsigned i = 0; i < n; ++i)
    {
        char c = char(vp_num<unsigned char>("char"));
        vp_assume(c > 0);
        f.push_back(C(c));
    }
    if(cls == 1) f = fm::L<C>("{") + f + fm::L<C>("}");
    if(cls == 2) f = fm::L<C>("{:") + f + fm::L<C>("}");
    int v = int(vp_pick(0, 1, "v")) * 37 - 5;
    auto s = fm::L<C>("q");
    agree<C>(how, V<C>(f), v, s);
    vp_reach("end");
}
// literal text of arbitrary code points
template <class C> void literal()
{
    const unsigned n = vp_param(0), how = vp_param(1);
    ref::Text<C> t; ref::gen<C>(t, n);
    for(unsigned i = 0; i < n; ++i) vp_assume(t.cp[i] != '{' && t.cp[i] != '}');
    agree<C>(how, t.view(), 1);
    vp_assert(ref::same<C>(fm::run<C>(t.view()), t.view()), "literal text is copied");
    vp_reach("end");
}
}
#define E(n, C) \
    extern "C" void fields_##n() { fields<C>(); } \
    extern "C" void formats_##n() { formats<C>(); } \
    extern "C" void literal_##n() { literal<C>(); }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
