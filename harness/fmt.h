// Formatting helpers shared by the harnesses.
#pragma once
#include "utf.h"
#include <exception>
#include <initializer_list>
#include <limits>
#include <papilio/format.hpp>
#include <papilio/xchar.hpp>
namespace fm
{
using namespace papilio;
template <class C> using ctx = basic_format_context<format_iterator_for<C>, C>;
// format, letting exceptions through
template <class C, class... A> inline std::basic_string<C> run(std::basic_string_view<C> f, A&&... a)
{
    if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
        return papilio::vformat(f, papilio::make_format_args<ctx<C>>(std::forward<A>(a)...));
    else
    {
        std::basic_string<C> r;
        papilio::vformat_to(std::back_inserter(r), f, papilio::make_format_args<ctx<C>>(std::forward<A>(a)...));
        return r;
    }
}
template <class C> struct Res { bool threw = false; std::basic_string<C> s; };
// format; any exception derived from std::exception is recorded, anything else escapes
template <class C, class... A> inline Res<C> tryrun(std::basic_string_view<C> f, A&&... a)
{
    Res<C> r;
    try { r.s = run<C>(f, std::forward<A>(a)...); }
    catch(const std::exception&) { r.threw = true; r.s.clear(); }
    return r;
}
// a literal in every character type
template <class C> inline std::basic_string<C> L(const char* s)
{
    std::basic_string<C> r;
    for(; *s; ++s) r.push_back(static_cast<C>(static_cast<unsigned char>(*s)));
    return r;
}
template <class C> inline void put(std::basic_string<C>& s, std::basic_string_view<C> t) { s.append(t); }
inline bool is(std::string_view a, std::string_view b) { return ref::same<char>(a, b); }
// checks that the text t, from i to e, spells mag in the base, without leading zeros unless they are wanted
template <class U, class C> bool digits(const std::basic_string<C>& t, size_t i, size_t e, U mag, unsigned base, bool upper, bool zeros)
{
    if(i >= e) return false;
    bool ok = true, big = false;
    const U max = std::numeric_limits<U>::max();
    unsigned most = 0; // digits of the largest value
    U top = 1;         // weight of its first digit
    for(U m = max; m; m /= U(base)) { ++most; if(most > 1) top = U(top * base); }
    size_t k = i;
    if(zeros) for(; e - k > most; ++k) ok = vp_and(ok, t[k] == C('0'));
    if(e - k > most) return false;
    bool full = e - k == most;
    U v = 0, rest = 0, first = 0;
    for(size_t j = k; j < e; ++j)
    {
        U c = U(std::make_unsigned_t<C>(t[j])), d;
        if(base <= 10) { d = U(c - U('0')); ok = vp_and(ok, d < base); }
        else
        {
            bool letter = c >= U(upper ? 'A' : 'a');
            d = U(vp_ite(letter, U(c - U(upper ? 'A' : 'a') + 10), U(c - U('0'))));
            ok = vp_and(ok, vp_and(d < 16, vp_or(letter, d < 10)));
        }
        if constexpr(sizeof(C) > sizeof(U)) ok = vp_and(ok, t[j] < C(128));
        if(j == k && !zeros && e - k > 1) ok = vp_and(ok, d != 0);
        if(j == k) first = d; else rest = U(rest * base + d);
        v = U(v * base + d);
    }
    if(full) big = vp_or(first > U(max / top), vp_and(first == U(max / top), rest > U(max % top))); // beyond the type
    return vp_and(ok, vp_and(v == mag, !big));
}
} // namespace fm
