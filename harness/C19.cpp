#include "fmt.h"
#include <charconv>
#include <cmath>
#include <limits>
using namespace papilio;
// In the symbolic build std::to_chars is an uninterpreted function of the value, the format and the
// precision: it yields text of the exact shape the standard prescribes for the decade of the value, with
// unknown digits, and the same text for the same arguments. In a native replay it is the real one.
namespace model
{
struct Call { bool used = false; int mode; double v; int fmt, prec; size_t n; char s[800]; };
static Call calls[6];
static int decade;      // the value is in [1, 9) * 10^decade; 9999: zero
static unsigned frac;   // digits after the first that a shortened text keeps
static int xdigits;     // hexadecimal digits
static char digit(bool nonzero) { unsigned char c = vp_any<unsigned char>("digit"); vp_assume(vp_and(c >= (nonzero ? '1' : '0'), c <= '9')); return (char)c; }
static void fixed(Call& c, int prec, bool strip)
{
    bool zero = decade == 9999;
    int ip = zero || decade < 0 ? 1 : decade + 1;
    for(int i = 0; i < ip; ++i) c.s[c.n++] = zero || decade < 0 ? '0' : digit(i == 0);
    if(strip) { prec = zero ? 0 : decade < 0 ? -decade + (int)frac : (int)frac; }
    if(prec > 0)
    {
        c.s[c.n++] = '.';
        for(int i = 1; i <= prec; ++i)
            c.s[c.n++] = zero || i < -decade ? '0' : digit((strip && i == prec) || i == -decade);
    }
}
static void scientific(Call& c, int prec, bool strip)
{
    bool zero = decade == 9999;
    c.s[c.n++] = zero ? '0' : digit(true);
    if(strip) prec = zero ? 0 : (int)frac;
    if(prec > 0)
    {
        c.s[c.n++] = '.';
        for(int i = 1; i <= prec; ++i) c.s[c.n++] = zero ? '0' : digit(strip && i == prec);
    }
    int e = zero ? 0 : decade;
    c.s[c.n++] = 'e';
    c.s[c.n++] = e < 0 ? '-' : '+';
    if(e < 0) e = -e;
    if(e >= 100) c.s[c.n++] = (char)('0' + e / 100);
    c.s[c.n++] = (char)('0' + e / 10 % 10);
    c.s[c.n++] = (char)('0' + e % 10);
}
static void hexadecimal(Call& c, int prec)
{
    bool zero = decade == 9999;
    c.s[c.n++] = zero ? '0' : '1';
    int n = prec >= 0 ? prec : zero ? 0 : xdigits;
    if(n) c.s[c.n++] = '.';
    for(int i = 0; i < n; ++i)
    {
        unsigned char d = vp_any<unsigned char>("xdigit");
        if(i > 2) vp_assume(vp_and(d >= '0', d <= '9')); // three digits may be letters
        else vp_assume(vp_or(vp_and(d >= '0', d <= '9'), vp_and(d >= 'a', d <= 'f')));
        if(zero) d = '0';
        c.s[c.n++] = (char)d;
    }
    int e2 = zero ? 0 : decade < 0 ? -((-decade * 3322 + 500) / 1000) : decade * 3322 / 1000 + 1;
    c.s[c.n++] = 'p';
    c.s[c.n++] = e2 < 0 ? '-' : '+';
    if(e2 < 0) e2 = -e2;
    if(e2 >= 100) c.s[c.n++] = (char)('0' + e2 / 100);
    if(e2 >= 10) c.s[c.n++] = (char)('0' + e2 / 10 % 10);
    c.s[c.n++] = (char)('0' + e2 % 10);
}
// mode: 0 shortest, 1 with a format, 2 with a precision too, plus 4 for float
static std::to_chars_result text(char* b, char* e, double v, int mode, int fmt, int prec)
{
    Call* c = nullptr;
    for(auto& i : calls)
        if(i.used && i.mode == mode && i.fmt == fmt && i.prec == prec && vp_concrete(i.v == v)) c = &i;
    if(!c)
    {
        for(auto& i : calls) if(!i.used) { c = &i; break; }
        vp_assert(c, "the conversion is called for one value");
        c->used = true; c->mode = mode; c->v = v; c->fmt = fmt; c->prec = prec; c->n = 0;
        const int m = mode & 3;
        if(m == 0) { if(decade == 9999 || (decade < 6 && decade > -5)) fixed(*c, 0, true); else scientific(*c, 0, true); }
        else if(fmt == (int)std::chars_format::hex) hexadecimal(*c, m == 2 ? prec : -1);
        else if(m == 1) { if(fmt == (int)std::chars_format::scientific) scientific(*c, 0, true); else fixed(*c, 0, true); }
        else if(prec < 0) fixed(*c, 6, false);
        else if(fmt == (int)std::chars_format::fixed) fixed(*c, prec, false);
        else if(fmt == (int)std::chars_format::scientific) scientific(*c, prec, false);
        else
        {
            int p = prec ? prec : 1, x = decade == 9999 ? 0 : decade;
            unsigned keep = frac;
            if(p > x && x >= -4) { int room = p - 1 - x; if(x >= 0 && (int)frac > room) frac = (unsigned)room; if(x < 0 && (int)frac > p - 1) frac = (unsigned)(p - 1); fixed(*c, 0, true); }
            else { if((int)frac > p - 1) frac = (unsigned)(p - 1); scientific(*c, 0, true); }
            frac = keep;
        }
    }
    if((size_t)(e - b) < c->n) return {e, std::errc::value_too_large};
    memcpy(b, c->s, c->n);
    return {b + c->n, std::errc()};
}
}
#ifdef VP_SYM
namespace std
{
to_chars_result to_chars(char* b, char* e, float v) noexcept { return model::text(b, e, v, 4, 0, 0); }
to_chars_result to_chars(char* b, char* e, float v, chars_format f) noexcept { return model::text(b, e, v, 5, (int)f, 0); }
to_chars_result to_chars(char* b, char* e, float v, chars_format f, int p) noexcept { return model::text(b, e, v, 6, (int)f, p); }
to_chars_result to_chars(char* b, char* e, double v) noexcept { return model::text(b, e, v, 0, 0, 0); }
to_chars_result to_chars(char* b, char* e, double v, chars_format f) noexcept { return model::text(b, e, v, 1, (int)f, 0); }
to_chars_result to_chars(char* b, char* e, double v, chars_format f, int p) noexcept { return model::text(b, e, v, 2, (int)f, p); }
}
#endif
namespace
{
void num(std::string& f, unsigned v)
{
    if(v >= 10) num(f, v / 10);
    f.push_back(char('0' + v % 10));
}
const int DECADES[] = {0, 9999, 5, 2, -3, 6, -6, 35, 20, -30, 200, 307, -300};
const int PRECS[] = {-1, 0, 3, 1, 40, 12, 300};
const char TYPES[] = "\0fFeEgGaA";
double pow10(int k) { double r = 1; for(int i = 0; i < (k < 0 ? -k : k); ++i) r *= 10; return k < 0 ? 1 / r : r; }
// what the documented conversion yields for the magnitude
template <class T> std::string conversion(T m, char type, int prec)
{
    static char b[1000];
    std::to_chars_result r;
    char* e = b + sizeof(b);
    std::chars_format f = type == 'f' || type == 'F' ? std::chars_format::fixed : type == 'e' || type == 'E' ? std::chars_format::scientific : type == 'a' || type == 'A' ? std::chars_format::hex : std::chars_format::general;
    if(type == 0 && prec < 0) r = std::to_chars(b, e, m);
    else if((type == 'a' || type == 'A') && prec < 0) r = std::to_chars(b, e, m, f);
    else r = std::to_chars(b, e, m, f, prec < 0 ? 6 : prec);
    return std::string(b, r.ptr);
}
template <class C, class T> void check(T v, bool neg, const std::string& text, bool finite, char type, int prec, unsigned wextra)
{
    unsigned sign = (unsigned)vp_pick(0, 3, "sign"), align = (unsigned)vp_pick(0, 3, "align"), wpick = (unsigned)vp_pick(0, wextra, "width");
    bool zero = vp_pick(0, 1, "0"), dynamic = (wpick || prec >= 0) && vp_pick(0, 1, "dynamic");
    size_t len = text.size() + (neg || sign == 1 || sign == 3);
    size_t width = wpick == 0 ? 0 : len - 2 + wpick; // around the length of the text
    if(wpick == wextra && wextra) width = len + 9;
    std::string f = "{0:";
    if(align) { f.push_back('*'); f.push_back("<>^"[align - 1]); }
    if(sign) f.push_back("+- "[sign - 1]);
    if(zero) f.push_back('0');
    if(width) { if(dynamic) f += "{1}"; else num(f, (unsigned)width); }
    if(prec >= 0) { f += '.'; if(dynamic) f += "{2}"; else num(f, (unsigned)prec); }
    if(type) f += type;
    f += '}';
    auto fc = fm::L<C>(f.c_str());
    auto r = fm::tryrun<C>(std::basic_string_view<C>(fc), v, (unsigned)width, prec < 0 ? 0 : prec);
    vp_assert(!r.threw, "a floating-point value is formatted");
    std::basic_string<C> want;
    size_t n = width > len ? width - len : 0, left = align == 1 ? 0 : align == 3 ? n / 2 : n;
    bool zeros = zero && align == 0 && finite;
    if(!zeros) want.append(left, align ? C('*') : C(' '));
    if(neg) want.push_back(C('-'));
    else if(sign == 1) want.push_back(C('+'));
    else if(sign == 3) want.push_back(C(' '));
    if(zeros) want.append(n, C('0'));
    for(char c : text)
    {
        if(type >= 'A' && type <= 'Z') c = (char)vp_ite(vp_and(c >= 'a', c <= 'z'), (unsigned char)(c - 32), (unsigned char)c);
        want.push_back((C)c);
    }
    if(!zeros) want.append(n - left, align ? C('*') : C(' '));
    vp_assert(ref::same<C>(r.s, want), "the output is padding, sign, zeros, the documented conversion of the magnitude, padding");
    vp_reach("end");
}
}
// every value of a decade, of either sign
template <class C, class T> static void finite()
{
    model::decade = DECADES[vp_param(0)];
    char type = TYPES[vp_param(1)];
    int prec = PRECS[vp_param(2)];
    model::frac = (unsigned)vp_pick(0, 1, "fraction") * 3;
    model::xdigits = 2;
    T v = vp_any<T>("value");
    T m = std::abs(v);
    if(model::decade == 9999) vp_assume(m == T(0));
    else { double p = pow10(model::decade); vp_assume(vp_and(m >= T(p * 1.0001), m < T(p * 8.5))); }
    bool neg = vp_concrete(std::signbit(v));
    check<C, T>(v, neg, conversion<T>(m, type, prec), true, type, prec, (unsigned)vp_param(3));
}
// infinities and every NaN
template <class C, class T> static void special()
{
    char type = TYPES[vp_param(0)];
    int prec = (int)vp_pick(0, 2, "precision") - 1;
    T v = vp_any<T>("value");
    bool inf = vp_pick(0, 1, "inf");
    if(inf) vp_assume(std::abs(v) > std::numeric_limits<T>::max());
    else vp_assume(v != v);
    bool neg = vp_concrete(std::signbit(v));
    check<C, T>(v, neg, inf ? "inf" : "nan", false, type, prec, 4);
}
#define E(n, C, T) extern "C" void finite_##n() { finite<C, T>(); } extern "C" void special_##n() { special<C, T>(); }
E(double, char, double) E(float, char, float) E(wdouble, wchar_t, double) E(double16, char16_t, double) E(double32, char32_t, double) E(double8, char8_t, double)
