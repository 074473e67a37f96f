#include "fmt.h"
#include <limits>
using namespace papilio;
// Formatters that record what the parsers understood.
template <int Kind> struct probe {};
static std_formatter_data seen;
static simple_formatter_data simple_seen;
namespace papilio
{
template <int Kind, typename C> class formatter<probe<Kind>, C> // 0: with precision, 1: without, 2: simple, 3: simple with locale
{
public:
    template <typename PC> auto parse(PC& ctx) -> typename PC::iterator
    {
        using namespace std::literals;
        typename PC::iterator it{};
        if constexpr(Kind < 2) { std_formatter_parser<PC, Kind == 0> p; std::tie(seen, it) = p.parse(ctx, U"sxX?"sv); }
        else { simple_formatter_parser<PC, Kind == 3> p; std::tie(simple_seen, it) = p.parse(ctx); }
        return it;
    }
    template <typename FC> auto format(const probe<Kind>&, FC& ctx) const -> typename FC::iterator { return ctx.out(); }
};
}
namespace
{
struct Parts
{
    bool fill = false, has_align = false, has_sign = false, alt = false, zero = false, locale = false, prec = false;
    uint32_t fill_ch = 0;
    format_align align = format_align::default_align;
    format_sign sign = format_sign::default_sign;
    uint64_t width = 0, precision = 0;
    uint32_t type = 0;
};
void compare(const Parts& e, int kind)
{
    if(kind < 2)
    {
        vp_assert((uint32_t)(char32_t)seen.fill == e.fill_ch && seen.align == e.align, "fill and alignment are understood as written");
        vp_assert(seen.sign == e.sign && seen.alternate_form == e.alt && seen.fill_zero == e.zero && seen.use_locale == e.locale, "sign, #, 0 and L are understood as written");
        vp_assert(seen.width == e.width, "the width is understood as written");
        vp_assert(seen.has_precision() == e.prec && (!e.prec || seen.precision == e.precision), "the precision is understood as written");
        vp_assert((uint32_t)seen.type == e.type, "the type is understood as written");
    }
    else
    {
        vp_assert((uint32_t)(char32_t)simple_seen.fill == e.fill_ch && simple_seen.align == e.align && simple_seen.width == e.width && simple_seen.use_locale == e.locale, "a simple specification is understood as written");
    }
    vp_reach("end");
}
bool is_align(uint32_t c) { return vp_concrete(vp_or(c == '<', vp_or(c == '>', c == '^'))); }
format_align align_of(uint32_t c) { return vp_concrete(c == '<') ? format_align::left : vp_concrete(c == '>') ? format_align::right : format_align::middle; }
bool digit(uint32_t c) { return vp_concrete(vp_and(c >= '0', c <= '9')); }
// the documented grammar over ASCII units without braces
bool grammar(const uint32_t* s, size_t n, int kind, Parts& p)
{
    size_t i = 0;
    if(n == 0) return true;
    if(n >= 2 && is_align(s[1])) { p.fill_ch = s[0]; p.align = align_of(s[1]); i = 2; }
    else if(is_align(s[0])) { p.align = align_of(s[0]); i = 1; }
    if(kind < 2)
    {
        if(i < n && vp_concrete(vp_or(s[i] == '+', vp_or(s[i] == '-', s[i] == ' '))))
        {
            p.sign = vp_concrete(s[i] == '+') ? format_sign::positive : vp_concrete(s[i] == '-') ? format_sign::negative : format_sign::space;
            ++i;
        }
        if(i < n && vp_concrete(s[i] == '#')) { p.alt = true; ++i; }
        if(i < n && vp_concrete(s[i] == '0')) { p.zero = true; ++i; }
    }
    if(i < n && digit(s[i]))
    {
        if(vp_concrete(s[i] == '0')) return false;
        while(i < n && digit(s[i])) p.width = p.width * 10 + (s[i++] - '0');
    }
    if(kind < 2 && i < n && vp_concrete(s[i] == '.'))
    {
        if(kind == 1) return false;
        ++i;
        p.prec = true;
        if(i == n || !digit(s[i])) return false;
        while(i < n && digit(s[i])) p.precision = p.precision * 10 + (s[i++] - '0');
    }
    if(kind != 2 && i < n && vp_concrete(s[i] == 'L')) { p.locale = true; ++i; }
    if(kind < 2 && i < n && vp_concrete(vp_or(vp_or(s[i] == 's', s[i] == 'x'), vp_or(s[i] == 'X', s[i] == '?')))) { p.type = s[i]; ++i; }
    return i == n;
}
template <class C, int Kind> void raw()
{
    size_t n = vp_param(0);
    uint32_t s[8];
    auto f = fm::L<C>("{:");
    for(size_t i = 0; i < n; ++i)
    {
        unsigned char c = vp_any<unsigned char>("unit");
        vp_assume(vp_and(vp_and(c > 0, c < 0x80), vp_and(c != '{', c != '}')));
        s[i] = c;
        f.push_back(C(c));
    }
    f.push_back(C('}'));
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<Kind>{});
    Parts p;
    bool ok = grammar(s, n, Kind, p);
    vp_assert(r.threw == !ok, "a specification is accepted exactly when it follows the documented grammar");
    if(ok) compare(p, Kind); else vp_reach("end");
}
// all parts at once, with symbolic fill, digits and nested values
template <class C> void number(std::basic_string<C>& f, uint64_t& v, unsigned digits, bool width)
{
    v = 0;
    for(unsigned i = 0; i < digits; ++i)
    {
        unsigned char d = vp_any<unsigned char>("digit");
        vp_assume(vp_and(d >= (i == 0 && width ? '1' : '0'), d <= '9'));
        f.push_back(C(d));
        v = v * 10 + (d - '0');
    }
}
template <class C> void parts()
{
    Parts p;
    auto f = fm::L<C>("{:");
    unsigned fk = (unsigned)vp_pick(0, ref::classes<C>(), "fill"), al = fk ? (unsigned)vp_pick(1, 3, "align") : (unsigned)vp_pick(0, 3, "align");
    if(fk)
    {
        char32_t c = ref::sym_cp_class<C>(fk, 1);
        vp_assume(vp_and(c != U'{', c != U'}'));
        C b[4];
        ref::enc<C>(c, fk, b);
        f.append(b, fk);
        p.fill_ch = c;
    }
    if(al) { f.push_back(C("<>^"[al - 1])); p.align = al == 1 ? format_align::left : al == 2 ? format_align::right : format_align::middle; }
    unsigned sign = (unsigned)vp_pick(0, 3, "sign");
    if(sign) { f.push_back(C("+- "[sign - 1])); p.sign = sign == 1 ? format_sign::positive : sign == 2 ? format_sign::negative : format_sign::space; }
    if((p.alt = vp_pick(0, 1, "#"))) f.push_back(C('#'));
    if((p.zero = vp_pick(0, 1, "0"))) f.push_back(C('0'));
    unsigned wd = (unsigned)vp_param(0), pd = (unsigned)vp_param(1);
    uint32_t a1 = vp_num<uint32_t>("width"), a2 = vp_num<uint32_t>("precision");
    if(wd == 9) { f += fm::L<C>("{}"); vp_assume(a1 > 0); p.width = a1; } else number<C>(f, p.width, wd, true);
    if(pd) { f.push_back(C('.')); p.prec = true; if(pd == 9) { f += fm::L<C>("{}"); p.precision = a2; } else number<C>(f, p.precision, pd, false); }
    if((p.locale = vp_pick(0, 1, "L"))) f.push_back(C('L'));
    unsigned t = (unsigned)vp_pick(0, 4, "type");
    if(t) { p.type = (uint32_t)"sxX?"[t - 1]; f.push_back(C(p.type)); }
    f.push_back(C('}'));
    fm::Res<C> r;
    if(wd == 9) r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}, a1, a2);
    else r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}, a2);
    vp_assert(!r.threw, "a complete specification is accepted");
    compare(p, 0);
}
// nested values of every kind
template <class C, class V> void nested(const V& v, bool ok, uint64_t value, bool precision)
{
    unsigned how = (unsigned)vp_pick(0, 3, "reference");
    auto f = fm::L<C>(how == 0 || how == 3 ? "{:" : how == 1 ? "{0:" : "{0:");
    if(precision) f.push_back(C('.'));
    f += fm::L<C>(how == 0 || how == 3 ? "{}" : how == 1 ? "{1}" : "{name}");
    f += fm::L<C>("s}");
    fm::Res<C> r;
    auto nm = fm::L<C>("name");
    if(how == 2) r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}, PAPILIO_NS arg(std::basic_string_view<C>(nm), v));
    else if(how == 3) { r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}); vp_assert(r.threw, "a nested field without an argument is rejected"); vp_reach("end"); return; }
    else r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}, v);
    vp_assert(r.threw == !ok, "a nested value is accepted exactly when it is an allowed integer");
    if(ok)
    {
        Parts p;
        p.type = 's';
        if(precision) { p.prec = true; p.precision = value; } else p.width = value;
        compare(p, 0);
    }
    else vp_reach("end");
}
struct custom { operator int() const { return 3; } };
}
template <class C> class papilio::formatter<custom, C> : public papilio::formatter<int, C> {};
namespace
{
template <class C, class T> void nested_int(bool precision)
{
    T v = vp_num<T>("v");
    bool ok = precision ? true : v != 0;
    if constexpr(std::is_signed_v<T>) ok = vp_and(ok, v >= 0);
    else if constexpr(sizeof(T) == 8) vp_assume(v <= (T)std::numeric_limits<long long>::max());
    ok = vp_concrete(ok);
    nested<C>(v, ok, (uint64_t)v, precision);
}
template <class C> void nested_kinds()
{
    bool precision = vp_param(1);
    switch(vp_param(0))
    {
    case 0: nested_int<C, int>(precision); break;
    case 1: nested_int<C, unsigned>(precision); break;
    case 2: nested_int<C, long>(precision); break;
    case 3: nested_int<C, unsigned long>(precision); break;
    case 4: nested_int<C, short>(precision); break;
    case 5: nested_int<C, signed char>(precision); break;
    case 6: nested_int<C, unsigned char>(precision); break;
    case 7: nested_int<C, long long>(precision); break;
    case 8: nested_int<C, unsigned long long>(precision); break;
    case 9: nested<C>(vp_bool("v"), false, 0, precision); break;
    case 10: nested<C>(C('5'), false, 0, precision); break;
    case 11: { double d = vp_any<double>("v"); nested<C>(d, false, 0, precision); } break;
    case 12: nested<C>(fm::L<C>("5"), false, 0, precision); break;
    case 13: nested<C>((const void*)0, false, 0, precision); break;
    case 14: nested<C>(custom{}, false, 0, precision); break;
    case 15: { float d = vp_any<float>("v"); nested<C>(d, false, 0, precision); } break;
    case 16: nested<C>(utf::codepoint(U'5'), false, 0, precision); break;
    }
}
// a nested reference that goes through an attribute or an index
template <class C> void nested_access()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 1);
    auto f = fm::L<C>("{0:{1.length}.{1.size}}");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}, t.view());
    if(t.ncp == 0) { vp_assert(r.threw, "a nested width of zero is rejected"); vp_reach("end"); return; }
    vp_assert(!r.threw, "a nested attribute is accepted");
    Parts p;
    p.width = t.ncp; p.prec = true; p.precision = t.n;
    compare(p, 0);
}
// huge nested unsigned values never wrap
template <class C> void nested_huge()
{
    unsigned long long v = vp_num<unsigned long long>("v");
    vp_assume(v > (unsigned long long)std::numeric_limits<long long>::max());
    bool precision = vp_pick(0, 1, "precision");
    auto f = fm::L<C>(precision ? "{:.{}}" : "{:{}}");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), probe<0>{}, v);
    vp_assert(r.threw || (precision ? seen.precision : seen.width) == v, "a huge nested value is rejected or kept");
    vp_reach("end");
}
// type letters: c is any ASCII character that is no other part of a specification
template <class C, class V> void letters(const V& v, const char* allowed, bool precision)
{
    unsigned char c = vp_any<unsigned char>("type");
    vp_assume(vp_and(c > 0, c < 0x80));
    for(char x : {'{', '}', '<', '>', '^', '+', '-', ' ', '#', '.', 'L'}) vp_assume(c != x);
    vp_assume(vp_or(c < '0', c > '9'));
    bool ok = false;
    for(const char* a = allowed; *a; ++a) ok = vp_or(ok, c == (unsigned char)*a);
    unsigned pre = (unsigned)vp_pick(0, 3, "before");
    std::basic_string<C> f = fm::L<C>(pre == 0 ? "{:" : pre == 1 ? "{:4" : pre == 2 ? "{:*>5" : "{:.2");
    f.push_back(C(c));
    f.push_back(C('}'));
    ok = vp_concrete(ok);
    if(pre == 3 && !precision) ok = false;
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
    vp_assert(r.threw == !ok, "a type letter is accepted exactly for the arguments it is documented for, a precision where there is one");
    // no two letters
    f.insert(f.size() - 1, 1, C(c));
    vp_assert(fm::tryrun<C>(std::basic_string_view<C>(f), v).threw, "a second type letter is rejected");
    vp_reach("end");
}
enum class shade { light, dark };
template <class C> void types()
{
    switch(vp_param(0))
    {
    case 0: letters<C>(5, "bBdoxXc", false); break;
    case 1: letters<C>(5ull, "bBdoxXc", false); break;
    case 2: letters<C>((signed char)5, "bBdoxXc", false); break;
    case 3: letters<C>(C('a'), "bBdoxXc?", false); break;
    case 4: letters<C>(true, "bBdoxXs", false); break;
    case 5: letters<C>(1.5, "aAeEfFgG", true); break;
    case 6: letters<C>(1.5f, "aAeEfFgG", true); break;
    case 7: letters<C>((const void*)0, "pP", false); break;
    case 8: letters<C>(nullptr, "pP", false); break;
    case 9: letters<C>(fm::L<C>("ab"), "s?", true); break;
    case 10: letters<C>(utf::basic_string_container<C>(fm::L<C>("ab")), "s?", true); break;
    case 11: letters<C>(utf::codepoint(U'a'), "bBdoxXc?", false); break;
    case 12:
    {
        // a precision goes with the name only
        unsigned char c = vp_any<unsigned char>("type");
        vp_assume(vp_or(vp_and(c >= 'a', c <= 'z'), vp_and(c >= 'A', c <= 'Z')));
        vp_assume(c != 'L');
        bool ints = false;
        for(char x : {'b', 'B', 'd', 'o', 'x', 'X'}) ints = vp_or(ints, c == (unsigned char)x);
        ints = vp_concrete(ints);
        bool s = vp_concrete(c == 's'), prec = vp_pick(0, 1, "precision");
        auto f = fm::L<C>(prec ? "{:.2" : "{:");
        f.push_back(C(c)); f.push_back(C('}'));
        vp_assert(fm::tryrun<C>(std::basic_string_view<C>(f), shade::dark).threw == !(s || (ints && !prec)), "enumerations accept s and the integer types, a precision with the name");
        vp_reach("end");
        break;
    }
    }
}
}
#define E(n, C) extern "C" void raw_##n() { switch(vp_param(1)) { case 0: raw<C, 0>(); break; case 1: raw<C, 1>(); break; case 2: raw<C, 2>(); break; default: raw<C, 3>(); } } \
    extern "C" void parts_##n() { parts<C>(); } extern "C" void nested_##n() { nested_kinds<C>(); } extern "C" void access_##n() { nested_access<C>(); } extern "C" void huge_##n() { nested_huge<C>(); } extern "C" void types_##n() { types<C>(); }
E(char, char) E(wchar, wchar_t) E(char16, char16_t)
