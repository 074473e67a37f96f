#include "fmt.h"
#include <limits>
using namespace papilio;
namespace
{
const char INTS[] = "bBdoxX";
template <class C> std::basic_string<C> spec(const char* s, char type)
{
    std::basic_string<C> f = fm::L<C>("{:");
    f += fm::L<C>(s);
    if(type) f.push_back(C(type));
    f.push_back(C('}'));
    return f;
}
template <class C, class V> std::basic_string<C> out(const V& v, const char* s, char type)
{
    auto f = spec<C>(s, type);
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
    vp_assert(!r.threw, "the value is formatted");
    return r.s;
}
template <class C, class V> bool rejected(const V& v, char type)
{
    auto f = spec<C>("", type);
    return fm::tryrun<C>(std::basic_string_view<C>(f), v).threw;
}
// digits of v in a base, read from the text
template <class U, class C> bool spells(const std::basic_string<C>& s, U v, char type)
{
    unsigned base = type == 'b' || type == 'B' ? 2 : type == 'o' ? 8 : type == 'x' || type == 'X' ? 16 : 10;
    return fm::digits<U, C>(s, 0, s.size(), v, base, type == 'X', false);
}
template <class C, class V> void integers(const V& v, uint32_t code)
{
    char t = INTS[vp_param(0)];
    auto s = out<C>(v, "", t);
    vp_assert(spells<uint32_t, C>(s, code, t), "an integer type prints the code");
    auto a = out<C>(v, "#", t), want = t == 'd' ? std::basic_string<C>() : std::basic_string<C>(1, C('0'));
    if(t != 'd' && t != 'o') want.push_back(C(t));
    want += s;
    vp_assert(ref::same<C>(a, want), "# adds the prefix of the base");
    vp_reach("end");
}
}
template <class C> static C some_char()
{
    C c = vp_any<C>("char");
    if constexpr(sizeof(C) == 1) vp_assume((unsigned char)c < 0x80);
    else if constexpr(sizeof(C) == 2) vp_assume(vp_or(c < 0xD800, c > 0xDFFF));
    else vp_assume(vp_and((uint32_t)c <= 0x10FFFF, vp_or(c < C(0xD800), c > C(0xDFFF))));
    return c;
}
template <class C> static void char_itself()
{
    C c = some_char<C>();
    char t = vp_pick(0, 1, "type") ? 'c' : 0;
    auto s = out<C>(c, "", t);
    vp_assert(s.size() == 1 && s[0] == c, "a character prints as itself");
    vp_reach("end");
}
template <class C> static void char_code() { C c = some_char<C>(); integers<C>(c, (uint32_t)c); }
template <class C> static void char_high() // a lone byte above 0x7F
{
    C c = vp_any<C>("char");
    vp_assume((unsigned char)c >= 0x80);
    auto s = fm::L<C>("{}");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(s), c);
    vp_assert(r.threw || (r.s.size() == 1 && r.s[0] == c), "KF:high-char: a char above 0x7F prints as itself");
    vp_reach("end");
}
extern "C" void char_high_char() { char_high<char>(); }
template <class C> static void codepoint()
{
    unsigned k = (unsigned)vp_pick(1, 4, "class");
    char32_t c = ref::sym_cp_class<char>(k);
    if(vp_param(0) < 6) return integers<C>(utf::codepoint(c), (uint32_t)c);
    C b[4];
    ref::enc<C>(c, ref::len_of<C>(k), b);
    auto s = out<C>(utf::codepoint(c), "", vp_pick(0, 1, "type") ? 'c' : 0);
    vp_assert(ref::same<C>(s, std::basic_string_view<C>(b, ref::len_of<C>(k))), "a code point prints as itself");
    vp_reach("end");
}
template <class C> static void boolean()
{
    bool b = vp_bool("bool");
    auto t = fm::L<C>("true"), f = fm::L<C>("false");
    std::basic_string<C> want = vp_concrete(b) ? t : f;
    vp_assert(ref::same<C>(out<C>(b, "", 0), want) && ref::same<C>(out<C>(b, "", 's'), want), "a bool prints true or false");
    for(char c : {'b', 'B', 'd', 'o', 'x', 'X'})
    {
        auto s = out<C>(b, "", c);
        vp_assert(s.size() == 1 && s[0] == C(b ? '1' : '0'), "a bool prints 1 or 0 in the integer types");
    }
    for(char c : {'c', '?', 'p', 'e'}) vp_assert(rejected<C>(b, c), "other types are rejected");
    vp_reach("end");
}
template <class C> static void pointer()
{
    uintptr_t u = vp_num<uintptr_t>("pointer");
    const void* p = reinterpret_cast<const void*>(u);
    char t = "\0pP"[vp_pick(0, 2, "type")];
    auto s = out<C>(p, "", t);
    vp_assert(s.size() > 2 && s[0] == C('0') && s[1] == C(t == 'P' ? 'X' : 'x'), "a pointer starts with 0x");
    vp_assert(spells<uintptr_t, C>(s.substr(2), u, t == 'P' ? 'X' : 'x'), "a pointer prints its hexadecimal address");
    vp_reach("end");
}
template <class C> static void null()
{
    for(char t : {'\0', 'p', 'P'}) vp_assert(ref::same<C>(out<C>(nullptr, "", t), fm::L<C>(t == 'P' ? "0X0" : "0x0")), "the null pointer prints 0x0");
    int i = 0;
    vp_assert(ref::same<C>(out<C>((void*)&i, "", 0), out<C>((const void*)&i, "", 'p')), "void pointers of either kind print the same");
    for(char t : {'d', 'x', 's', 'c'}) vp_assert(rejected<C>((const void*)&i, t), "other types are rejected");
    vp_reach("end");
}
// an integer as a character
template <class T, class C> static void as_char()
{
    T v = vp_num<T>("v");
    auto f = spec<C>("", 'c');
    bool valid = true;
    if constexpr(std::is_signed_v<T>) valid = vp_and(valid, v >= 0);
    uint64_t u = (uint64_t)v;
    valid = vp_and(valid, vp_and(u <= 0x10FFFF, vp_or(u < 0xD800, u > 0xDFFF)));
    valid = vp_concrete(valid);
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
    vp_assert(r.threw == !valid, "an integer is formatted as a character exactly when it is a valid one");
    if(valid)
    {
        unsigned k = vp_concrete(u < 0x80) ? 1 : vp_concrete(u < 0x800) ? 2 : vp_concrete(u < 0x10000) ? 3 : 4;
        C b[4];
        ref::enc<C>((char32_t)u, ref::len_of<C>(k), b);
        vp_assert(ref::same<C>(r.s, std::basic_string_view<C>(b, ref::len_of<C>(k))), "the character with that code is printed");
    }
    vp_reach("end");
}
#define E(n, T) extern "C" void int_##n() { switch(vp_param(0)) { case 0: as_char<T, char>(); break; case 1: as_char<T, wchar_t>(); break; case 2: as_char<T, char16_t>(); break; case 3: as_char<T, char8_t>(); break; default: as_char<T, char32_t>(); } }
E(schar, signed char) E(uchar, unsigned char) E(short, short) E(ushort, unsigned short) E(int, int) E(uint, unsigned) E(long, long) E(ulong, unsigned long) E(llong, long long) E(ullong, unsigned long long)
#undef E
// enumerations
namespace shapes
{
enum class i32 : int { none, one, minus = -7, low = -128, high = 127, beyond = 128, least = std::numeric_limits<int>::min() };
enum class u8 : unsigned char { zero, top = 255, mid = 127 };
enum class s8 : signed char { zero, low = -128, high = 127 };
enum class u64 : unsigned long long { zero, some_name = 64, all = ~0ull };
enum class ch : char { a = 'a' };
enum class c32 : char32_t { a = U'a' };
enum class b : bool { no, yes };
enum plain { first, second };
}
template <class C> static void names()
{
    using namespace shapes;
    auto is = [](const std::basic_string<C>& s, const char* w) { return ref::same<C>(s, fm::L<C>(w)); };
    auto n = [&](auto e, const char* w) { vp_assert(is(out<C>(e, "", 0), w) && is(out<C>(e, "", 's'), w), "an enumerator prints its name, a value without one its integer"); };
    n(i32::none, "none"); n(i32::one, "one"); n(i32::minus, "minus"); n(i32::low, "low"); n(i32::high, "high"); n(i32::beyond, "128"); n(i32::least, "-2147483648");
    n(u8::zero, "zero"); n(u8::mid, "mid"); n(u8::top, "255"); n(s8::low, "low"); n(s8::high, "high");
    n(u64::some_name, "some_name"); n(u64::all, "18446744073709551615"); n(ch::a, "a"); n(c32::a, "a"); n(b::yes, "yes"); n(first, "first"); n(second, "second");
    vp_reach("end");
}
template <class En, class C> static void enum_ints()
{
    using U = std::underlying_type_t<En>;
    En e;
    if constexpr(std::is_same_v<U, bool>) e = En(vp_concrete(vp_bool("enum")) != 0); else e = En(vp_num<U>("enum"));
    U u = U(e);
    char t = INTS[vp_param(0)];
    using M = std::make_unsigned_t<std::conditional_t<std::is_same_v<U, bool>, unsigned char, U>>;
    auto s = out<C>(e, "", t);
    if constexpr(std::is_signed_v<U>)
        if(vp_concrete(u < 0))
        {
            vp_assert(s.size() > 1 && s[0] == C('-') && spells<M, C>(s.substr(1), M(M(0) - M(u)), t), "a negative enumeration value prints as its integer");
            vp_reach("end");
            return;
        }
    vp_assert(spells<M, C>(s, M(u), t), "an enumeration value prints as its integer");
    vp_reach("end");
}
// values without a name in the documented range
template <class C> static void outside()
{
    using namespace shapes;
    int v = vp_num<int>("v");
    vp_assume(vp_and(vp_or(v < -128, v >= 128), vp_and(v > -100000, v < 100000)));
    auto s = out<C>(i32(v), "", 0);
    vp_assert(ref::same<C>(s, out<C>(v, "", 'd')), "a value whose name is not available prints its integer");
    vp_reach("end");
}
#define E(n, C) extern "C" void itself_##n() { char_itself<C>(); } extern "C" void code_##n() { char_code<C>(); } extern "C" void codepoint_##n() { codepoint<C>(); } \
    extern "C" void boolean_##n() { boolean<C>(); } extern "C" void pointer_##n() { pointer<C>(); } extern "C" void null_##n() { null<C>(); } extern "C" void outside_##n() { outside<C>(); } extern "C" void names_##n() { names<C>(); } \
    extern "C" void enums_##n() { switch(vp_param(1)) { case 0: enum_ints<shapes::i32, C>(); break; case 1: enum_ints<shapes::u8, C>(); break; case 2: enum_ints<shapes::s8, C>(); break; \
        case 3: enum_ints<shapes::ch, C>(); break; case 4: enum_ints<shapes::c32, C>(); break; case 5: enum_ints<shapes::b, C>(); break; case 6: enum_ints<shapes::u64, C>(); break; } }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
