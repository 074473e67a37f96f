#include "utf.h"
using namespace papilio;
using ref::enc;
namespace u = papilio::utf;

template <class C> static void dec_one(char32_t c, unsigned k8)
{
    constexpr unsigned extra = 2;
    unsigned n = ref::len_of<C>(k8);
    C* buf = new C[n + extra];
    enc<C>(c, n, buf);
    vp_symbolic(buf + n, extra * sizeof(C), "tail");
    auto [cp, used] = u::decoder<C>::to_codepoint(std::basic_string_view<C>(buf, n + extra));
    vp_assert(char32_t(cp) == c, "decoding gives the encoded code point");
    vp_assert(used == n, "decoder reports the units consumed");
    auto [cp2, used2] = u::decoder<C>::to_codepoint(std::basic_string_view<C>(buf, n));
    vp_assert(char32_t(cp2) == c, "decoding an exact unit sequence");
    vp_assert(used2 == n, "units consumed, exact sequence");
    delete[] buf;
}

// one scalar value of UTF-8 class param(0): codepoint and all decoders
extern "C" void cp_roundtrip()
{
    unsigned k = vp_param(0);
    char32_t c = ref::sym_cp_class<char8_t>(k);
    unsigned char b[4];
    enc<unsigned char>(c, k, b);

    u::codepoint cp(c);
    vp_assert(cp.size_bytes() == k, "UTF-8 length");
    vp_assert(u::decoder<char32_t>::size_bytes(c) == k, "UTF-8 length from the scalar value");
    vp_assert(u::decoder<char8_t>::size_bytes(char8_t(b[0])) == k, "UTF-8 length from the lead byte");
    vp_assert(vp_eq_bytes(cp.u8data(), b, k), "UTF-8 bytes");
    vp_assert(char32_t(cp) == c, "code point value");
    auto [c32, used] = u::decoder<char32_t>::from_codepoint(cp);
    vp_assert(c32 == c, "to UTF-32");
    vp_assert(used == k, "from_codepoint reports the bytes it consumed");
    auto r16 = u::decoder<char16_t>::from_codepoint(cp);
    unsigned n16 = ref::len_of<char16_t>(k);
    char16_t e16[2];
    enc<char16_t>(c, n16, e16);
    vp_assert(r16.size == n16, "UTF-16 length");
    vp_assert(r16.chars[0] == e16[0], "UTF-16 first unit");
    if(n16 == 2) vp_assert(r16.chars[1] == e16[1], "UTF-16 second unit");
    vp_assert(r16.processed_size == k, "UTF-16 from_codepoint reports the bytes it consumed");
    auto rw = u::decoder<wchar_t>::from_codepoint(cp);
    vp_assert(rw.size == 1, "wide length");
    vp_assert(rw.chars[0] == wchar_t(c), "wide unit");
    vp_assert(rw.processed_size == k, "wide from_codepoint reports the bytes it consumed");

    // same value from bytes
    u::codepoint cb(reinterpret_cast<const char8_t*>(b), std::uint8_t(k));
    vp_assert(cb == cp, "code point from bytes");
    vp_assert(char32_t(cb) == c, "value from bytes");
    vp_assert(cb == c, "equals its value");
    auto [arr, an] = cp.as_array<char>();
    vp_assert(an == k, "as_array length");
    vp_assert(vp_eq_bytes(arr.data(), b, k), "as_array bytes");

    std::string s; cp.append_to(s);
    vp_assert(s.size() == k, "append_to string"); vp_assert(vp_eq_bytes(s.data(), b, k), "append_to string bytes");
    std::u16string s16; cp.append_to(s16);
    vp_assert(s16.size() == n16, "append_to u16string"); vp_assert(vp_eq_bytes(s16.data(), e16, n16 * 2), "append_to u16string units");
    std::u32string s32; cp.append_to(s32);
    vp_assert(s32.size() == 1, "append_to u32string"); vp_assert(s32[0] == c, "append_to u32string unit");
    std::wstring sw; cp.append_to(sw);
    vp_assert(sw.size() == 1, "append_to wstring"); vp_assert(sw[0] == wchar_t(c), "append_to wstring unit");
    vp_reach("end");
}
extern "C" void cp_decode()
{
    unsigned k = vp_param(0);
    char32_t c = ref::sym_cp_class<char8_t>(k);
    dec_one<char>(c, k);
    dec_one<char8_t>(c, k);
    dec_one<char16_t>(c, k);
    dec_one<wchar_t>(c, k);
    dec_one<char32_t>(c, k);
    vp_reach("end");
}

// whole-string conversion from C to all others
template <class C, class D> static void conv(const ref::Text<C>& t)
{
    std::basic_string<D> r = u::basic_string_ref<C>(t.view()).template to_string<D>();
    // expected
    D e[ref::MAXCP * 4];
    size_t n = 0;
    for(size_t i = 0; i < t.ncp; ++i)
    {
        unsigned k = 1;
        if constexpr(sizeof(D) == 1) k = sizeof(C) == 1 ? t.k[i] : (unsigned)vp_concrete(vp_ite(t.cp[i] <= 0x7F, 1, vp_ite(t.cp[i] <= 0x7FF, 2, vp_ite(t.cp[i] <= 0xFFFF, 3, 4))));
        else if constexpr(sizeof(D) == 2) k = (unsigned)vp_concrete(vp_ite(t.cp[i] <= 0xFFFF, 1, 2));
        enc<D>(t.cp[i], k, e + n);
        n += k;
    }
    vp_assert(r.size() == n, "converted length");
    vp_assert(vp_eq_bytes(r.data(), e, n * sizeof(D)), "converted units");
}
template <class C> static void str_conv_()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0));
    switch(vp_param(1))
    {
    case 0: conv<C, char>(t); break;
    case 1: conv<C, char8_t>(t); break;
    case 2: conv<C, char16_t>(t); break;
    case 3: conv<C, char32_t>(t); break;
    case 4: conv<C, wchar_t>(t); break;
    }
    vp_reach("end");
}
extern "C" void conv_char() { str_conv_<char>(); }
extern "C" void conv_char8() { str_conv_<char8_t>(); }
extern "C" void conv_char16() { str_conv_<char16_t>(); }
extern "C" void conv_char32() { str_conv_<char32_t>(); }
extern "C" void conv_wchar() { str_conv_<wchar_t>(); }
