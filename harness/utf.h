// Reference UTF model and symbolic text generators shared by the text harnesses.
#pragma once
#include "vp.h"
#include <string>
#include <string_view>
#include <stdexcept>
#include <papilio/utf/string.hpp>
namespace ref
{
// one symbolic scalar value of a fixed encoded length class
//   char-sized units: 1..4 bytes, char16_t: 1..2 units, char32_t / wchar_t: 1
inline char32_t sym_cp(uint32_t lo, uint32_t hi)
{
    uint32_t c = vp_any<uint32_t>("cp");
    vp_assume(vp_and(c >= lo, c <= hi));
    if(lo <= 0xDFFF && hi >= 0xD800)
        vp_assume(vp_or(c < 0xD800, c > 0xDFFF));
    return static_cast<char32_t>(c);
}
template <class C> constexpr unsigned classes() { return sizeof(C) == 1 ? 4 : sizeof(C) == 2 ? 2 : 1; }
template <class C> inline char32_t sym_cp_class(unsigned k, uint32_t lo = 0)
{
    if constexpr(sizeof(C) == 1)
        return k == 1 ? sym_cp(lo, 0x7F) : k == 2 ? sym_cp(0x80, 0x7FF) : k == 3 ? sym_cp(0x800, 0xFFFF) : sym_cp(0x10000, 0x10FFFF);
    else if constexpr(sizeof(C) == 2)
        return k == 1 ? sym_cp(lo, 0xFFFF) : sym_cp(0x10000, 0x10FFFF);
    else
        return sym_cp(lo, 0x10FFFF);
}
// standard encoding, k units
template <class C> inline void enc(char32_t ch, unsigned k, C* o)
{
    uint32_t c = ch;
    if constexpr(sizeof(C) == 1)
    {
        if(k == 1) o[0] = C(c);
        else if(k == 2) { o[0] = C(0xC0 | (c >> 6)); o[1] = C(0x80 | (c & 0x3F)); }
        else if(k == 3) { o[0] = C(0xE0 | (c >> 12)); o[1] = C(0x80 | ((c >> 6) & 0x3F)); o[2] = C(0x80 | (c & 0x3F)); }
        else { o[0] = C(0xF0 | (c >> 18)); o[1] = C(0x80 | ((c >> 12) & 0x3F)); o[2] = C(0x80 | ((c >> 6) & 0x3F)); o[3] = C(0x80 | (c & 0x3F)); }
    }
    else if constexpr(sizeof(C) == 2)
    {
        if(k == 1) o[0] = C(c);
        else { uint32_t d = c - 0x10000; o[0] = C(0xD800 + (d >> 10)); o[1] = C(0xDC00 + (d & 0x3FF)); }
    }
    else
        o[0] = C(c);
}
// encoded length in units of type C, for a code point whose UTF-8 class is k8
template <class C> constexpr unsigned len_of(unsigned k8) { return sizeof(C) == 1 ? k8 : sizeof(C) == 2 ? (k8 == 4 ? 2 : 1) : 1; }

// documented display width of a code point
inline uint64_t wide(uint32_t c)
{
    static const uint32_t iv[][2] = {{0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0x303E}, {0x3040, 0xA4CF}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19}, {0xFE30, 0xFE6F}, {0xFF00, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1F300, 0x1F64F}, {0x1F900, 0x1F9FF}, {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}};
    uint64_t w = 1;
    for(auto& i : iv) w = vp_ite(vp_and(c >= i[0], c <= i[1]), 2, w);
    return w;
}
constexpr size_t MAXCP = 8;
template <class C> struct Text
{
    size_t ncp = 0, n = 0;
    char32_t cp[MAXCP];
    unsigned k[MAXCP];
    size_t off[MAXCP + 1];
    C* p = nullptr;
    C* mem = nullptr;
    std::basic_string_view<C> view() const { return {p, n}; }
    std::basic_string_view<C> sub(size_t i, size_t j) const { return {p + off[i], off[j] - off[i]}; }
    ~Text() { delete[] mem; }
};
// ncp symbolic code points, every combination of encoded lengths, in a heap buffer of exactly n units
template <class C> inline void gen(Text<C>& t, size_t ncp, uint32_t lo = 0, unsigned maxcls = 4)
{
    t.ncp = ncp;
    t.off[0] = 0;
    unsigned top = classes<C>() < maxcls ? classes<C>() : maxcls;
    for(size_t i = 0; i < ncp; ++i)
    {
        t.k[i] = top == 1 ? 1 : (unsigned)vp_pick(1, top, "len");
        t.cp[i] = sym_cp_class<C>(t.k[i], lo);
        t.off[i + 1] = t.off[i] + t.k[i];
    }
    t.n = t.off[ncp];
    t.mem = new C[t.n ? t.n : 1];
    t.p = t.n ? t.mem : t.mem + 1; // an empty text still has no readable unit
    for(size_t i = 0; i < ncp; ++i)
        enc<C>(t.cp[i], t.k[i], t.p + t.off[i]);
}
// n arbitrary units in a heap buffer of exactly n units
template <class C> inline C* raw(size_t n)
{
    if(n == 0) return new C[1] + 1;
    C* p = new C[n];
    if(n) vp_symbolic(p, n * sizeof(C), "units");
    return p;
}
template <class C> inline bool same(std::basic_string_view<C> a, std::basic_string_view<C> b)
{
    return a.size() == b.size() && vp_eq_bytes(a.data(), b.data(), a.size() * sizeof(C));
}
template <class C> inline bool same(const std::basic_string<C>& a, std::basic_string_view<C> b) { return same(std::basic_string_view<C>(a), b); }
} // namespace ref
