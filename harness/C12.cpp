#include "fmt.h"
#include <cmath>
#include <limits>
#include <map>
#include <vector>
using namespace papilio;
namespace
{
const char* const OP[] = {"==", "!=", "<", "<=", ">", ">="};
template <class C> std::basic_string<C> cond(const char* l, const char* op, const char* r)
{
    std::string s = std::string("{$") + l + op + r + "?'y':'n'}";
    return fm::L<C>(s.c_str());
}
// mathematical three-way comparison of integers of any kind: -1, 0, 1, without forking
template <class A, class B> int cmp(A a, B b)
{
    __int128 x = a, y = b;
    return (int)(int64_t)vp_ite(x < y, (uint64_t)-1, vp_ite(x == y, 0, 1));
}
bool holds(unsigned op, int c)
{
    switch(op)
    {
    case 0: return c == 0;
    case 1: return c != 0;
    case 2: return c < 0;
    case 3: return c <= 0;
    case 4: return c > 0;
    default: return c >= 0;
    }
}
template <class C, class... A> void verdict(const std::basic_string<C>& f, bool expect, const char* msg, A&&... a)
{
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), std::forward<A>(a)...);
    vp_assert(!r.threw, "comparable operands are compared");
    vp_assert(r.s.size() == 1 && r.s[0] == C(vp_ite(expect, 'y', 'n')), msg);
}
template <class T> T sym(const char* n) { if constexpr(std::is_same_v<T, bool>) return vp_bool(n); else return vp_any<T>(n); }
}
// two arguments of any integer types, every value
template <class C, class A, class B> static void ints()
{
    A a = sym<A>("a");
    B b = sym<B>("b");
    unsigned op = (unsigned)vp_pick(0, 5, "op");
    verdict<C>(cond<C>("{0}", OP[op], "{1}"), holds(op, cmp(a, b)), "the comparison of two integers is the mathematical one", a, b);
    vp_reach("end");
}
template <class C, class A> static void ints_b()
{
    switch(vp_param(0))
    {
    case 0: ints<C, A, int>(); break;
    case 1: ints<C, A, unsigned>(); break;
    case 2: ints<C, A, long long>(); break;
    case 3: ints<C, A, unsigned long long>(); break;
    case 4: ints<C, A, short>(); break;
    case 5: ints<C, A, bool>(); break;
    case 6: ints<C, A, unsigned long>(); break;
    case 7: ints<C, A, signed char>(); break;
    case 8: ints<C, A, unsigned short>(); break;
    }
}
#define E(n, T) extern "C" void ints_##n() { ints_b<char, T>(); }
E(int, int) E(uint, unsigned) E(llong, long long) E(ullong, unsigned long long) E(long, long) E(bool, bool) E(ushort, unsigned short) E(uchar, unsigned char)
#undef E
extern "C" void ints_char16() { ints_b<char16_t, unsigned long long>(); }
extern "C" void ints_wchar() { ints_b<wchar_t, long>(); }
// an argument against a constant, on either side, every value of the argument
template <class A> static void konst()
{
    static const char* const K[] = {"0", "1", "-1", "7", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "-00042", "0099"};
    static const int64_t V[] = {0, 1, -1, 7, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, INT64_MAX, INT64_MIN, -42, 99};
    A a = sym<A>("a");
    unsigned k = (unsigned)vp_pick(0, 12, "constant"), op = (unsigned)vp_pick(0, 5, "op");
    if(vp_param(0))
        verdict<char>(cond<char>(K[k], OP[op], "{0}"), holds(op, cmp(V[k], a)), "a constant compares with an integer mathematically", a);
    else
        verdict<char>(cond<char>("{0}", OP[op], K[k]), holds(op, cmp(a, V[k])), "an integer compares with a constant mathematically", a);
    vp_reach("end");
}
#define E(n, T) extern "C" void konst_##n() { konst<T>(); }
E(int, int) E(llong, long long) E(ullong, unsigned long long) E(uint, unsigned) E(bool, bool)
#undef E
// truth of a bare value and of its negation
template <class A> static void truth()
{
    A a = sym<A>("a");
    bool t = a != A(0);
    verdict<char>("{${0}?'y':'n'}", t, "a number is true exactly when it is not zero", a);
    verdict<char>("{$!{0}?'y':'n'}", !t, "the negation of a number is true exactly when it is zero", a);
    vp_reach("end");
}
#define E(n, T) extern "C" void truth_##n() { truth<T>(); }
E(int, int) E(uint, unsigned) E(llong, long long) E(ullong, unsigned long long) E(bool, bool) E(short, short) E(float, float)
#undef E
// floating operands: single precision, equality within its epsilon
static int fcmp(float x, float y) { return x < y ? -1 : x == y ? 0 : x > y ? 1 : 2; }
static bool fholds(unsigned op, float x, float y)
{
    float d = std::fabs(x - y);
    bool eq = vp_or(x == y, d < std::numeric_limits<float>::epsilon());
    switch(op)
    {
    case 0: return eq;
    case 1: return !eq;
    case 2: return x < y;
    case 3: return x <= y;
    case 4: return x > y;
    default: return x >= y;
    }
}
extern "C" void floats()
{
    unsigned op = (unsigned)vp_pick(0, 5, "op"), kind = vp_param(0);
    if(kind == 0) { float a = vp_any<float>("a"), b = vp_any<float>("b"); verdict<char>(cond<char>("{0}", OP[op], "{1}"), fholds(op, a, b), "two floats compare mathematically", a, b); }
    else if(kind == 1) { double a = vp_any<double>("a"); float b = vp_any<float>("b"); verdict<char>(cond<char>("{0}", OP[op], "{1}"), fholds(op, (float)a, b), "a double and a float compare in single precision", a, b); }
    else if(kind == 2) { int a = vp_any<int>("a"); float b = vp_any<float>("b"); verdict<char>(cond<char>("{0}", OP[op], "{1}"), fholds(op, (float)a, b), "an int and a float compare mathematically", a, b); }
    else if(kind == 3) { float a = vp_any<float>("a"); unsigned long long b = vp_any<unsigned long long>("b"); verdict<char>(cond<char>("{0}", OP[op], "{1}"), fholds(op, a, (float)b), "a float and an unsigned compare mathematically", a, b); }
    else if(kind == 4) { float a = vp_any<float>("a"); verdict<char>(cond<char>("{0}", OP[op], "1.5"), fholds(op, a, 1.5f), "a float compares with a floating constant", a); }
    else if(kind == 5) { long long a = vp_any<long long>("a"); verdict<char>(cond<char>("-2.25", OP[op], "{0}"), fholds(op, -2.25f, (float)a), "a floating constant compares with an integer", a); }
    else if(kind == 6) { float a = vp_any<float>("a"); verdict<char>(cond<char>("{0}", OP[op], "-3"), fholds(op, a, -3.0f), "a float compares with an integer constant", a); }
    else if(kind == 7) { bool a = vp_bool("a"); float b = vp_any<float>("b"); verdict<char>(cond<char>("{0}", OP[op], "{1}"), fholds(op, a ? 1.f : 0.f, b), "a bool compares with a float", a, b); }
    vp_reach("end");
}
// strings: lexicographic; against numbers: never equal, never ordered
template <class C> static void strings()
{
    unsigned op = (unsigned)vp_pick(0, 5, "op"), la = vp_param(0), lb = vp_param(1), kind = vp_param(2);
    constexpr std::uint32_t TOP = sizeof(C) == 1 ? 0x7F : 0xD800; // one unit per character
    C a[4], b[4];
    for(unsigned i = 0; i < la; ++i) { a[i] = vp_any<C>("a"); vp_assume(vp_and(a[i] > C(0), a[i] < C(TOP))); }
    for(unsigned i = 0; i < lb; ++i) { b[i] = vp_any<C>("b"); vp_assume(vp_and(b[i] != C('\''), b[i] != C('\\'))); vp_assume(vp_and(b[i] > C(0), b[i] < C(TOP))); }
    std::basic_string_view<C> A(a, la), B(b, lb);
    // lexicographic over the units (the comparison of std::basic_string_view)
    int c = 0;
    unsigned m = la < lb ? la : lb;
    for(unsigned i = m; i-- > 0;)
        c = (int)(int64_t)vp_ite(std::char_traits<C>::lt(a[i], b[i]), (uint64_t)-1, vp_ite(std::char_traits<C>::lt(b[i], a[i]), 1, i + 1 == m ? (uint64_t)(int64_t)(la < lb ? -1 : la > lb ? 1 : 0) : (uint64_t)(int64_t)c));
    if(m == 0) c = la < lb ? -1 : la > lb ? 1 : 0;
    bool e = holds(op, c);
    if(kind == 0) verdict<C>(cond<C>("{0}", OP[op], "{1}"), e, "strings compare lexicographically", A, B);
    else if(kind == 1)
    {
        std::basic_string<C> f = fm::L<C>("{${0}") + fm::L<C>(OP[op]) + fm::L<C>("'") + std::basic_string<C>(B) + fm::L<C>("'?'y':'n'}");
        verdict<C>(f, e, "a string compares with a string constant lexicographically", A);
    }
    else
    {
        std::basic_string<C> f = fm::L<C>("{$'") + std::basic_string<C>(B) + fm::L<C>("'") + fm::L<C>(OP[op]) + fm::L<C>("{0}?'y':'n'}");
        verdict<C>(f, holds(op, -c), "a string constant compares with a string lexicographically", std::basic_string<C>(A));
    }
    vp_reach("end");
}
#define E(n, C) extern "C" void strings_##n() { strings<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
extern "C" void mixed()
{
    unsigned op = (unsigned)vp_pick(0, 5, "op");
    char t[2] = {vp_any<char>("t"), vp_any<char>("t")};
    std::string_view s(t, (size_t)vp_pick(0, 2, "len"));
    int i = vp_any<int>("i");
    float x = vp_any<float>("x");
    unsigned long long u = vp_any<unsigned long long>("u");
    verdict<char>(cond<char>("{0}", OP[op], "{1}"), op == 1, "a string and an integer are neither equal nor ordered", s, i);
    verdict<char>(cond<char>("{1}", OP[op], "{0}"), op == 1, "an integer and a string are neither equal nor ordered", s, i);
    verdict<char>(cond<char>("{0}", OP[op], "{1}"), op == 1, "a string and a float are neither equal nor ordered", s, x);
    verdict<char>(cond<char>("{0}", OP[op], "{1}"), op == 1, "a string and an unsigned are neither equal nor ordered", s, u);
    verdict<char>(cond<char>("{0}", OP[op], "12"), op == 1, "a string and a constant are neither equal nor ordered", s);
    verdict<char>("{${0}?'y':'n'}", !s.empty(), "a string is true exactly when it is not empty", s);
    verdict<char>("{$!{0}?'y':'n'}", s.empty(), "the negation of a string is true exactly when it is empty", s);
    // a character is a string of one character
    char c = vp_any<char>("c");
    vp_assume(vp_and(c > 0, c < 127));
    if(!s.empty()) vp_assume(vp_and(t[0] > 0, t[0] < 127));
    int k = s.empty() ? 1 : (int)(int64_t)vp_ite((unsigned char)c < (unsigned char)t[0], (uint64_t)-1, vp_ite(c != t[0], 1, (uint64_t)(int64_t)(s.size() > 1 ? -1 : 0)));
    verdict<char>(cond<char>("{0}", OP[op], "{1}"), holds(op, k), "a character compares as the string of it", c, s);
    vp_reach("end");
}
// values that are no numbers and no strings are rejected
extern "C" void rejected()
{
    unsigned op = (unsigned)vp_pick(0, 5, "op");
    int i = vp_any<int>("i");
    const void* p = &i;
    std::vector<int> v{i};
    auto rej = [&](const std::string& f, auto&&... a) { vp_assert(fm::tryrun<char>(std::string_view(f), a...).threw, "an operand that is no number and no string is rejected"); };
    rej(cond<char>("{0}", OP[op], "{1}"), p, i);
    rej(cond<char>("{1}", OP[op], "{0}"), p, i);
    rej(cond<char>("{0}", OP[op], "{1}"), v, v);
    rej("{${0}?'y':'n'}", v);
    rej("{$!{0}?'y':'n'}", p);
    vp_reach("end");
}
// the results of accessors take part like arguments
extern "C" void accessed()
{
    unsigned op = (unsigned)vp_pick(0, 5, "op");
    std::vector<int> v(vp_pick(0, 3, "size"));
    for(auto& x : v) x = vp_any<int>("x");
    int i = vp_any<int>("i");
    verdict<char>(cond<char>("{0.size}", OP[op], "{1}"), holds(op, cmp(v.size(), i)), "a size compares like a number", v, i);
    if(!v.empty()) verdict<char>(cond<char>("{0[-1]}", OP[op], "{1}"), holds(op, cmp(v.back(), i)), "an element compares like an argument", v, i);
    std::string s = "abc";
    s[1] = vp_any<char>("s");
    vp_assume(vp_and(s[1] > ' ', s[1] < 127));
    verdict<char>(cond<char>("{0[1:2]}", OP[op], "'k'"), holds(op, cmp(s[1], 'k')), "a part of a string compares like a string", s);
    verdict<char>(cond<char>("{0[1]}", OP[op], "'k'"), holds(op, cmp(s[1], 'k')), "a character of a string compares like a string", s);
    vp_reach("end");
}
// the variable itself
extern "C" void variables()
{
    long long a = vp_any<long long>("a");
    unsigned long long b = vp_any<unsigned long long>("b");
    variable x(a), y(b);
    int c = cmp(a, b);
    vp_assert(((x <=> y) == std::partial_ordering::less) == (c < 0) && ((x <=> y) == std::partial_ordering::equivalent) == (c == 0) && (x == y) == (c == 0) && (y == x) == (c == 0), "variables compare mathematically");
    vp_assert(x.holds_int() && y.holds_int() && !x.holds_float() && !x.holds_string() && !x.holds_bool(), "an integer variable holds an integer");
    vp_assert(x.as<long long>() == a && y.as<unsigned long long>() == b && x.as<bool>() == (a != 0), "an integer variable keeps its value");
    bool t = vp_bool("t");
    variable z(t);
    vp_assert(z.holds_bool() && z.as<int>() == (int)t && (z == variable(1)) == t, "a bool variable keeps its value");
    char s[3];
    vp_symbolic(s, 3, "s");
    variable w(std::string_view(s, 3));
    vp_assert(w.holds_string() && ref::same<char>(w.as<std::string>(), std::string_view(s, 3)) && !w.has_ownership(), "a string variable refers to its text");
    bool threw = false;
    try { (void)w.as<int>(); } catch(const invalid_conversion&) { threw = true; }
    vp_assert(threw, "a string is no number");
    threw = false;
    try { (void)x.as<std::string>(); } catch(const invalid_conversion&) { threw = true; }
    vp_assert(threw, "a number is no string");
    threw = false;
    try { (void)x.get<bool>(); } catch(const bad_variable_access&) { threw = true; }
    vp_assert(threw, "retrieving the wrong kind is rejected");
    variable o(independent, std::string_view(s, 3));
    char keep[3] = {s[0], s[1], s[2]};
    s[1] = char(s[1] + 1);
    vp_assert(o.has_ownership() && ref::same<char>(o.as<std::string>(), std::string_view(keep, 3)), "an independent variable keeps its text");
    variable moved(std::move(o));
    vp_assert(ref::same<char>(moved.as<std::string>(), std::string_view(keep, 3)), "moving a variable keeps its text");
    vp_assert(std::get<std::int64_t>(variable(a).to_variant()) == a || a != a, "the variant of a variable");
    vp_reach("end");
}
