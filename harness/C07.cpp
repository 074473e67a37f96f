#include "fmt.h"
using namespace papilio;
namespace u = papilio::utf;
using ref::wide;
extern "C" void width()
{
    uint32_t c = ref::sym_cp(0, 0x10FFFF);
    auto cp = u::decoder<char32_t>::to_codepoint((char32_t)c).first;
    vp_assert(cp.estimate_width() == wide(c), "estimated width follows the documented intervals");
    vp_reach("end");
}
// the width of the same character when it comes from text of each encoding
template <class C> static void from_text()
{
    ref::Text<C> t;
    ref::gen<C>(t, 1);
    uint32_t c = t.cp[0];
    u::basic_string_ref<C> r(t.view());
    u::codepoint cp = *r.begin();
    vp_assert(cp.estimate_width() == wide(c), "width of a character of a string");
    vp_assert(cp.is_digit() == vp_and(c >= '0', c <= '9'), "digit classification of a character of a string");
    vp_reach("end");
}
extern "C" void text_char() { from_text<char>(); }
extern "C" void text_char16() { from_text<char16_t>(); }
extern "C" void text_char32() { from_text<char32_t>(); }
extern "C" void text_wchar() { from_text<wchar_t>(); }
extern "C" void classify()
{
    uint32_t c = vp_any<uint32_t>("cp");
    vp_assert(u::is_digit((char32_t)c) == vp_and(c >= '0', c <= '9'), "is_digit");
    bool ws = vp_or(c == ' ', vp_and(c >= 9, c <= 13));
    vp_assert(u::is_whitespace((char32_t)c) == ws, "is_whitespace");
    vp_reach("end");
}
// units
extern "C" void units()
{
    uint8_t b = vp_any<uint8_t>("byte");
    bool trail = vp_and(b >= 0x80, b <= 0xBF);
    vp_assert(u::is_trailing_byte((char8_t)b) == trail, "is_trailing_byte");
    uint32_t w = vp_any<uint32_t>("unit");
    vp_assert(u::is_high_surrogate((char16_t)w) == vp_and((w & 0xFFFF) >= 0xD800, (w & 0xFFFF) <= 0xDBFF), "is_high_surrogate");
    vp_assert(u::is_low_surrogate((char16_t)w) == vp_and((w & 0xFFFF) >= 0xDC00, (w & 0xFFFF) <= 0xDFFF), "is_low_surrogate");
    vp_reach("end");
}
// observable through padding: a character in a field of width 3
extern "C" void padded()
{
    uint32_t k = vp_pick(1, 4, "class");
    char32_t c = ref::sym_cp_class<char>(k, 1);
    char b[4];
    ref::enc<char>(c, k, b);
    auto s = fm::run<char>("{:3}", std::string_view(b, k));
    vp_assert(s.size() == k + 3 - wide(c), "padding of a character follows its estimated width");
    vp_reach("end");
}
