#include "fmt.h"
using namespace papilio;
namespace
{
// independent reference: escapes of a text of arbitrary units; forks on the class of every unit
template <class C> void hex(std::basic_string<C>& o, char kind, uint32_t v)
{
    o.push_back(C('\\')); o.push_back(C(kind)); o.push_back(C('{'));
    unsigned n = 1;
    while(n < 8 && vp_concrete(v >> (4 * n) != 0)) ++n;
    while(n--)
    {
        uint32_t d = (v >> (4 * n)) & 15;
        o.push_back(C(vp_ite(d < 10, '0' + d, 'a' + d - 10)));
    }
    o.push_back(C('}'));
}
template <class C> bool simple(std::basic_string<C>& o, uint32_t c, char quote)
{
    struct { char c, e; } t[] = {{'\t', 't'}, {'\n', 'n'}, {'\r', 'r'}, {'\\', '\\'}, {quote, quote}};
    for(auto& i : t)
        if(vp_concrete(c == (uint32_t)i.c)) { o.push_back(C('\\')); o.push_back(C(i.e)); return true; }
    if(vp_concrete(vp_or(c < 0x20, c == 0x7F))) { hex(o, 'u', c); return true; }
    return false;
}
bool in(uint32_t c, uint32_t lo, uint32_t hi) { return vp_concrete(vp_and(c >= lo, c <= hi)); }
template <class C> std::basic_string<C> reference(const C* p, size_t n, char quote)
{
    std::basic_string<C> o;
    for(size_t i = 0; i < n;)
    {
        if constexpr(sizeof(C) == 1)
        {
            auto b = [&](size_t k) { return (uint32_t)(unsigned char)p[i + k]; };
            if(in(b(0), 0, 0x7F)) { if(!simple(o, b(0), quote)) o.push_back(p[i]); ++i; continue; }
            size_t len = 0; // well-formed sequences, Unicode table 3-7
            size_t left = n - i;
            if(in(b(0), 0xC2, 0xDF)) { if(left > 1 && in(b(1), 0x80, 0xBF)) len = 2; }
            else if(in(b(0), 0xE0, 0xEF))
            {
                if(left > 2 && in(b(1), 0x80, 0xBF) && in(b(2), 0x80, 0xBF) && !(in(b(0), 0xE0, 0xE0) && in(b(1), 0x80, 0x9F)) && !(in(b(0), 0xED, 0xED) && in(b(1), 0xA0, 0xBF))) len = 3;
            }
            else if(in(b(0), 0xF0, 0xF4))
            {
                if(left > 3 && in(b(1), 0x80, 0xBF) && in(b(2), 0x80, 0xBF) && in(b(3), 0x80, 0xBF) && !(in(b(0), 0xF0, 0xF0) && in(b(1), 0x80, 0x8F)) && !(in(b(0), 0xF4, 0xF4) && in(b(1), 0x90, 0xBF))) len = 4;
            }
            if(len) { o.append(p + i, len); i += len; }
            else { hex(o, 'x', b(0)); ++i; }
        }
        else if constexpr(sizeof(C) == 2)
        {
            uint32_t c = (uint16_t)p[i];
            if(in(c, 0xD800, 0xDBFF) && i + 1 < n && in((uint16_t)p[i + 1], 0xDC00, 0xDFFF)) { o.append(p + i, 2); i += 2; continue; }
            if(in(c, 0xD800, 0xDFFF)) hex(o, 'x', c);
            else if(!simple(o, c, quote)) o.push_back(p[i]);
            ++i;
        }
        else
        {
            uint32_t c = (uint32_t)p[i];
            if(in(c, 0xD800, 0xDFFF) || in(c, 0x110000, 0xFFFFFFFF)) hex(o, 'x', c);
            else if(!simple(o, c, quote)) o.push_back(p[i]);
            ++i;
        }
    }
    return o;
}
template <class C> void check(const std::basic_string<C>& got, const std::basic_string<C>& want)
{
    vp_assert(ref::same<C>(got, want), "every character appears once: plain, as its escape, or as \\x{} of each invalid unit");
    vp_reach("end");
}
template <class C> std::basic_string<C> debug(std::basic_string_view<C> s)
{
    auto f = fm::L<C>("{:?}");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), s);
    vp_assert(!r.threw, "debug output accepts every text");
    return r.s;
}
}
// arbitrary units
template <class C> static void units()
{
    size_t n = vp_param(0);
    C* p = ref::raw<C>(n);
    check<C>(debug<C>({p, n}), reference<C>(p, n, '"'));
}
// well-formed text with ordinary neighbours: a symbolic character between two ASCII ones
template <class C> static void inside()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 0);
    std::basic_string<C> s = fm::L<C>("ab");
    s.append(t.view());
    s += fm::L<C>("'\"z");
    check<C>(debug<C>(s), reference<C>(s.data(), s.size(), '"'));
}
// characters
template <class C> static void chars()
{
    C c;
    if constexpr(sizeof(C) == 1) { c = vp_any<C>("char"); vp_assume((unsigned char)c < 0x80); }
    else if constexpr(sizeof(C) == 2) { c = vp_any<C>("char"); }
    else { c = vp_any<C>("char"); vp_assume((uint32_t)c <= 0x10FFFF); }
    auto f = fm::L<C>("{:?}");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), c);
    vp_assert(!r.threw, "debug output accepts every character");
    check<C>(r.s, reference<C>(&c, 1, '\''));
}
template <class C> static void codepoints()
{
    unsigned k = (unsigned)vp_pick(1, 4, "class");
    char32_t c = ref::sym_cp_class<char>(k);
    C b[4];
    ref::enc<C>(c, ref::len_of<C>(k), b);
    auto f = fm::L<C>("{:?}");
    check<C>(fm::run<C>(std::basic_string_view<C>(f), utf::codepoint(c)), reference<C>(b, ref::len_of<C>(k), '\''));
}
// the escape table through format_context_traits
template <class C> static void traits()
{
    size_t n = vp_param(0);
    C* p = ref::raw<C>(n);
    std::basic_string<C> out;
    using ctx = fm::ctx<C>;
    using tr = format_context_traits<ctx>;
    auto args = tr::make_format_args();
    ctx c(std::back_inserter(out), args);
    tr::append_escaped(c, std::basic_string_view<C>(p, n));
    check<C>(out, reference<C>(p, n, '"'));
}
#define E(n, C) extern "C" void units_##n() { units<C>(); } extern "C" void inside_##n() { inside<C>(); } extern "C" void chars_##n() { chars<C>(); } \
    extern "C" void codepoints_##n() { codepoints<C>(); } extern "C" void traits_##n() { traits<C>(); }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
