#include "utf.h"
using namespace papilio;
namespace u = papilio::utf;
using ref::same;
template <class C, class S> static void ranges(const S& s, const ref::Text<C>& t)
{
    int64_t b = vp_any<int64_t>("begin");
    int64_t e = vp_param(1) ? index_range::npos : vp_any<int64_t>("end");
    int64_t n = (int64_t)t.ncp;
    // mathematical positions
    bool bin = vp_and(b >= -n, b <= n), ein = vp_or(e == index_range::npos, vp_and(e >= -n, e <= n));
    int64_t bp = (int64_t)vp_ite(b >= 0, vp_ite(b > n, n, b), vp_ite(b < -n, 0, uint64_t(b) + uint64_t(n)));
    int64_t ep = (int64_t)vp_ite(e >= 0, vp_ite(e > n, n, e), vp_ite(e < -n, 0, uint64_t(e) + uint64_t(n)));
    bp = (int64_t)vp_concrete(bp);
    ep = (int64_t)vp_concrete(ep);
    auto want = bp < ep ? t.sub(bp, ep) : std::basic_string_view<C>();
    {
        auto r = s.template substr<u::substr_behavior::empty_string>(index_range(b, e));
        vp_assert(same<C>(r.to_string_view(), want), "clamped slice selects exactly the characters");
    }
    bool threw = false;
    try
    {
        auto r = s.substr(index_range(b, e));
        vp_assert(same<C>(r.to_string_view(), want), "checked slice selects exactly the characters");
        vp_assert(bin, "checked slice rejects a begin bound outside the text");
        vp_assert(ein, "checked slice rejects an end bound outside the text");
    }
    catch(const std::out_of_range&) { threw = true; }
    if(threw) vp_assert(!vp_and(bin, ein), "checked slice throws only for a bound outside the text");
    vp_reach(threw ? "thrown" : "end");
}
template <class C, class S> static void counts(const S& s, const ref::Text<C>& t)
{
    uint64_t pos = vp_any<uint64_t>("pos"), cnt = vp_param(1) ? u::npos : vp_any<uint64_t>("count");
    uint64_t n = t.ncp;
    bool in = pos <= n;
    uint64_t bp = vp_concrete(vp_ite(in, pos, n));
    uint64_t ep = vp_concrete(vp_ite(cnt > n - bp, n, bp + cnt));
    auto want = t.sub(bp, ep);
    auto [r, k] = s.template substr_extended<u::substr_behavior::empty_string>(pos, cnt);
    vp_assert(same<C>(r.to_string_view(), vp_concrete(in) ? want : std::basic_string_view<C>()), "substr selects exactly the characters");
    vp_assert(k == (vp_concrete(in) ? ep - bp : 0), "substr reports the number of characters");
    vp_assert(same<C>(s.template substr<u::substr_behavior::empty_string>(pos, cnt).to_string_view(), vp_concrete(in) ? want : std::basic_string_view<C>()), "substr (empty on error)");
    bool threw = false;
    try { vp_assert(same<C>(s.substr(pos, cnt).to_string_view(), want), "checked substr"); }
    catch(const std::out_of_range&) { threw = true; }
    vp_assert(threw == !vp_concrete(in), "checked substr throws exactly when the position is outside");
    vp_reach("end");
}
template <class C> static void slice(int what)
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 0, 3);
    bool cont = vp_param(2);
    if(what == 0)
    {
        if(cont) ranges<C>(u::basic_string_container<C>(t.view()), t);
        else ranges<C>(u::basic_string_ref<C>(t.view()), t);
    }
    else
    {
        if(cont) counts<C>(u::basic_string_container<C>(t.view()), t);
        else counts<C>(u::basic_string_ref<C>(t.view()), t);
    }
}
#define E(n, C) extern "C" void range_##n() { slice<C>(0); } extern "C" void count_##n() { slice<C>(1); }
E(char, char) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t) E(wchar, wchar_t)
#undef E
template <class C> static void remove()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 0, 3);
    uint64_t k = vp_any<uint64_t>("n");
    uint64_t m = vp_concrete(vp_ite(k > t.ncp, t.ncp, k));
    u::basic_string_ref<C> s(t.view());
    s.remove_prefix(k);
    vp_assert(same<C>(s.to_string_view(), t.sub(m, t.ncp)), "remove_prefix");
    u::basic_string_ref<C> r(t.view());
    r.remove_suffix(k);
    vp_assert(same<C>(r.to_string_view(), t.sub(0, t.ncp - m)), "remove_suffix");
    vp_reach("end");
}
extern "C" void remove_char() { remove<char>(); }
extern "C" void remove_char16() { remove<char16_t>(); }
extern "C" void remove_char32() { remove<char32_t>(); }
