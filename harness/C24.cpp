#include "fmt.h"
#include <memory>
#include <typeinfo>
using namespace papilio;
// Objects that count themselves and know whether they are alive.
static int live, copies_until_throw = -1;
struct counted
{
    static constexpr uint32_t ALIVE = 0x600dbeef;
    uint32_t state = ALIVE;
    int v;
    explicit counted(int x) : v(x) { ++live; }
    counted(const counted& o) noexcept(false) : v(o.v)
    {
        vp_assert(o.state == ALIVE, "an object is copied while it is alive");
        if(copies_until_throw == 0) throw 7;
        if(copies_until_throw > 0) --copies_until_throw;
        ++live;
    }
    ~counted() { vp_assert(state == ALIVE, "an object is destroyed once"); state = 0; --live; }
};
struct big : counted { using counted::counted; long pad[4]; };       // behind a pointer
struct small_ : counted                                              // stored in place
{
    explicit small_(int x) : counted(x) {}
    small_(const small_& o) noexcept : counted(o) {}
};
struct other { int v; };
static int shown; // the object last given to its formatter
static const void* shown_at;
namespace papilio
{
template <typename T, typename C> requires(std::is_base_of_v<counted, T> || std::is_same_v<T, other>) class formatter<T, C>
{
public:
    template <typename PC> auto parse(PC& ctx) -> typename PC::iterator { return ctx.begin(); }
    template <typename FC> auto format(const T& o, FC& ctx) const -> typename FC::iterator
    {
        if constexpr(!std::is_same_v<T, other>) vp_assert(o.state == counted::ALIVE, "an object is formatted while it is alive");
        shown = o.v;
        shown_at = std::addressof(o);
        return ctx.out();
    }
};
}
namespace
{
template <class C> using A = basic_format_arg<fm::ctx<C>>;
enum Kind { EMPTY, BOOL, CP, INT, UINT, LL, ULL, FLOAT, DOUBLE, LDOUBLE, BSTR, OSTR, LSTR, PTR, SOO, BBIG, OBIG, SHORT, NKINDS };
template <class C> struct Source // what the arguments are made from
{
    uint64_t bits;
    std::basic_string<C> text;
    small_ so;
    big bi;
    int anchor;
    explicit Source(uint64_t b) : bits(b), so(int(b)), bi(int(b)) {}
};
template <class C> A<C> make(Kind k, Source<C>& s)
{
    switch(k)
    {
    case BOOL: return A<C>(bool(s.bits & 1));
    case CP: return A<C>(utf::codepoint(char32_t(s.bits & 0x7F)));
    case INT: return A<C>(int(s.bits));
    case UINT: return A<C>(unsigned(s.bits));
    case LL: return A<C>((long long)(s.bits));
    case ULL: return A<C>((unsigned long long)(s.bits));
    case SHORT: return A<C>(short(s.bits));
    case FLOAT: return A<C>(float(int(s.bits)));
    case DOUBLE: return A<C>(double(int(s.bits)));
    case LDOUBLE: return A<C>((long double)(int(s.bits)));
    case BSTR: return A<C>(s.text);
    case OSTR: case LSTR: return A<C>(independent, s.text);
    case PTR: return A<C>(&s.anchor);
    case SOO: return A<C>(s.so);
    case BBIG: return A<C>(s.bi);
    case OBIG: return A<C>(independent, s.bi);
    default: return A<C>();
    }
}
// whether the argument refers to something that dies with another argument
bool owned(Kind k) { return k == OSTR || k == LSTR || k == OBIG; }
template <class T, class C> bool rejects(const A<C>& a)
{
    try { (void)get<T>(a); return false; }
    catch(const std::bad_variant_access&) { return true; }
    catch(const bad_handle_cast&) { return true; }
}
template <class C> void expect(const A<C>& a, Kind k, Source<C>& s)
{
    switch(k)
    {
    case EMPTY: vp_assert(a.empty() && !a, "an argument without a value is empty"); return;
    case BOOL: vp_assert(a.template holds<bool>() && get<bool>(a) == bool(s.bits & 1), "a bool is preserved"); break;
    case CP: vp_assert(a.template holds<utf::codepoint>() && get<utf::codepoint>(a) == char32_t(s.bits & 0x7F) && get<char>(a) == char32_t(s.bits & 0x7F), "a code point is preserved"); break;
    case INT: vp_assert(a.template holds<int>() && get<int>(a) == int(s.bits), "an int is preserved"); break;
    case SHORT: vp_assert(a.template holds<int>() && get<short>(a) == short(s.bits), "a short is preserved"); break;
    case UINT: vp_assert(a.template holds<unsigned>() && get<unsigned>(a) == unsigned(s.bits), "an unsigned is preserved"); break;
    case LL: vp_assert(a.template holds<long long>() && get<long long>(a) == (long long)(s.bits), "a long long is preserved"); break;
    case ULL: vp_assert(a.template holds<unsigned long long>() && get<unsigned long long>(a) == s.bits, "an unsigned long long is preserved"); break;
    case FLOAT: vp_assert(a.template holds<float>() && get<float>(a) == float(int(s.bits)), "a float is preserved"); break;
    case DOUBLE: vp_assert(a.template holds<double>() && get<double>(a) == double(int(s.bits)), "a double is preserved"); break;
    case LDOUBLE: vp_assert(a.template holds<long double>() && get<long double>(a) == (long double)(int(s.bits)), "a long double is preserved"); break;
    case BSTR: case OSTR: case LSTR:
    {
        const auto& t = get<std::basic_string<C>>(a);
        vp_assert(ref::same<C>(std::basic_string_view<C>(t), s.text), "a string is preserved");
        if(k == BSTR) vp_assert(std::basic_string_view<C>(t).data() == s.text.data() && !a.has_ownership(), "a string passed by reference is not copied");
        break;
    }
    case PTR: vp_assert(a.template holds<const void*>() && get<void*>(a) == &s.anchor, "a pointer is preserved"); break;
    case SOO: case BBIG: case OBIG:
    {
        const auto& h = std::get<typename A<C>::handle>(a.to_variant());
        vp_assert(h.type() == (k == SOO ? typeid(small_) : typeid(big)) && h.is_formattable() && a.is_formattable(), "the type of an object is preserved");
        const counted& o = k == SOO ? static_cast<const counted&>(get<small_>(a)) : get<big>(a);
        vp_assert(o.state == counted::ALIVE && o.v == (k == SOO ? s.so.v : s.bi.v), "an object is preserved");
        if(k == BBIG) vp_assert(&o == &s.bi && !a.has_ownership(), "an object passed by reference is not copied");
        vp_assert(handle_cast<other>(&h) == nullptr && rejects<other>(a), "an object of another type is not retrieved");
        std::basic_string<C> r, f = fm::L<C>("}");
        auto args = papilio::make_format_args<fm::ctx<C>>();
        basic_format_parse_context<fm::ctx<C>> pc{std::basic_string_view<C>(f), args};
        fm::ctx<C> fc(std::back_inserter(r), args);
        shown_at = nullptr;
        a.format(pc, fc);
        vp_assert(shown_at == &o && shown == o.v, "an object is handed to its formatter");
        break;
    }
    default: break;
    }
    vp_assert(!a.empty() && bool(a), "an argument with a value is not empty");
}
template <class C> struct State
{
    Kind kind;
    int src;    // which source the value comes from
    unsigned uses; // the owned resources the value may live in
    unsigned own;  // the one this argument holds itself
};
template <class C> void history()
{
    const Kind ka = Kind(vp_param(0)), kb = Kind(vp_param(1));
    const unsigned depth = vp_param(2);
    {
        Source<C> src[2] = {Source<C>(vp_num<uint64_t>("a")), Source<C>(vp_num<uint64_t>("b"))};
        for(int i = 0; i < 2; ++i)
        {
            unsigned n = (i ? kb : ka) == LSTR ? 20 : 2;
            for(unsigned j = 0; j < n; ++j) src[i].text.push_back(C(j < 2 ? vp_num<std::make_unsigned_t<C>>("unit") & 0x7F : 'x'));
        }
        const int outside = live;
        {
            std::unique_ptr<A<C>> s[3] = {std::make_unique<A<C>>(make<C>(ka, src[0])), std::make_unique<A<C>>(make<C>(kb, src[1])), std::make_unique<A<C>>()};
            State<C> m[3] = {{ka, 0, owned(ka) ? 1u : 0u, owned(ka) ? 1u : 0u}, {kb, 1, owned(kb) ? 2u : 0u, owned(kb) ? 2u : 0u}, {EMPTY, 0, 0, 0}};
            unsigned dead = 0, fresh = 4;
            auto usable = [&](int i) { return !(m[i].uses & dead); };
            auto drop = [&](int i) { dead |= m[i].own; };
            auto text = [](Kind k) { return k == BSTR || k == OSTR || k == LSTR; };
            // the value of j goes elsewhere; short text moves with it
            auto moved = [&](int j) -> State<C>
            {
                State<C> t = m[j];
                if(t.own && text(t.kind)) { dead |= t.own; t.uses = (t.uses & ~t.own) | fresh; t.own = fresh; fresh <<= 1; }
                return t;
            };
            // what a copy of j depends on; a copy of text by assignment may hold it or refer to it
            auto copied = [&](int j, bool assigned) -> State<C>
            {
                State<C> t = m[j];
                t.own = 0;
                if(assigned && text(t.kind)) { t.own = fresh; t.uses |= fresh; fresh <<= 1; }
                return t;
            };
            const State<C> none{EMPTY, 0, 0, 0};
            for(unsigned d = 0; d < depth; ++d)
            {
                const unsigned op = vp_pick(0, 4, "operation"), i = vp_pick(0, 2, "to"), j = vp_pick(0, 2, "from");
                if(!usable(j) || (op == 4 && !usable(i))) { vp_assume(false); }
                if(op == 0) // copy construction
                {
                    auto n = std::make_unique<A<C>>(*s[j]);
                    State<C> t = copied(j, false);
                    drop(i);
                    s[i] = std::move(n);
                    m[i] = t;
                }
                else if(op == 1) // move construction
                {
                    auto n = std::make_unique<A<C>>(std::move(*s[j]));
                    State<C> t = moved(j);
                    m[j] = none;
                    expect<C>(*s[j], EMPTY, src[0]);
                    drop(i);
                    s[i] = std::move(n);
                    m[i] = t;
                }
                else if(op == 2) // copy assignment
                {
                    *s[i] = *std::as_const(s[j]);
                    if(i != j) { State<C> t = copied(j, true); drop(i); m[i] = t; }
                }
                else if(op == 3) // move assignment
                {
                    *s[i] = std::move(*s[j]);
                    if(i != j)
                    {
                        State<C> t = moved(j);
                        m[j] = none;
                        drop(i);
                        m[i] = t;
                    }
                    else m[i] = moved(i);
                }
                else // swap
                {
                    if(vp_bool("member")) s[i]->swap(*s[j]); else { using std::swap; swap(*s[i], *s[j]); }
                    if(i != j) { State<C> t = moved(i); State<C> u = moved(j); m[i] = u; m[j] = t; }
                    else m[i] = moved(i);
                }
            }
            for(int i = 0; i < 3; ++i)
                if(usable(i)) expect<C>(*s[i], m[i].kind, src[m[i].src]);
            vp_reach("end");
        }
        vp_assert(live == outside && src[0].bi.state == counted::ALIVE && src[1].bi.state == counted::ALIVE, "owned objects are destroyed once and referenced ones are not");
    }
    vp_assert(live == 0, "every object is destroyed");
}
// what is stored can be retrieved in its own type and in no other
template <class C> void types()
{
    const Kind k = Kind(vp_param(0));
    Source<C> s(vp_num<uint64_t>("v"));
    s.text = fm::L<C>("ab");
    A<C> a = make<C>(k, s);
    expect<C>(a, k, s);
    auto only = [&](bool mine, bool rejected) { vp_assert(mine != rejected, "a value is retrieved in its own type only"); };
    only(k == BOOL, rejects<bool>(a));
    only(k == CP, rejects<char32_t>(a));
    only(k == INT || k == SHORT, rejects<int>(a));
    only(k == INT || k == SHORT, rejects<signed char>(a));
    only(k == UINT, rejects<unsigned>(a));
    only(k == UINT, rejects<unsigned short>(a));
    only(k == LL, rejects<long long>(a));
    only(k == ULL, rejects<unsigned long long>(a));
    only(k == FLOAT, rejects<float>(a));
    only(k == DOUBLE, rejects<double>(a));
    only(k == LDOUBLE, rejects<long double>(a));
    only(k == BSTR || k == OSTR || k == LSTR, rejects<std::basic_string<C>>(a));
    only(k == BSTR || k == OSTR || k == LSTR, rejects<std::basic_string_view<C>>(a));
    only(k == PTR, rejects<const void*>(a));
    only(k == SOO, rejects<small_>(a));
    only(k == BBIG || k == OBIG, rejects<big>(a));
    only(false, rejects<other>(a));
    vp_assert(a.template holds<std::monostate>() == (k == EMPTY), "an empty argument holds nothing");
    vp_reach("end");
}
// argument lists of both kinds, also moved and grown
template <class C> void lists()
{
    const unsigned n = vp_param(0), first = vp_param(1);
    {
        Source<C> s(vp_num<uint64_t>("v"));
        s.text = fm::L<C>("ab");
        const int outside = live;
        auto kind = [&](unsigned i) { return Kind(1 + (first + i * 5) % (NKINDS - 1)); };
        {
            basic_dynamic_format_args<fm::ctx<C>, C> list;
            for(unsigned i = 0; i < n; ++i) list.emplace(make<C>(kind(i), s));
            auto name = fm::L<C>("nm");
            list.emplace(papilio::arg(std::basic_string_view<C>(name), s.bi));
            auto check = [&](const format_args_base<fm::ctx<C>, C>& l)
            {
                vp_assert(l.indexed_size() == n && l.named_size() == 1, "a list has the arguments given to it");
                for(unsigned i = 0; i < n; ++i) expect<C>(l.get(i), kind(i), s);
                expect<C>(l.get(std::basic_string_view<C>(name)), BBIG, s);
                const size_t i = vp_any<size_t>("i");
                vp_assert(l.contains(i) == (i < n), "an index is contained if it is below the size");
                bool threw = false;
                try { if(i >= n) (void)l.get(i); }
                catch(const std::out_of_range&) { threw = true; }
                vp_assert(threw == (i >= n), "an argument beyond the list is refused");
                threw = false;
                auto no = fm::L<C>("mn");
                try { (void)l.get(std::basic_string_view<C>(no)); }
                catch(const std::out_of_range&) { threw = true; }
                vp_assert(threw && !l.contains(std::basic_string_view<C>(no)) && l.contains(std::basic_string_view<C>(name)), "an unknown name is refused");
            };
            if(n == 0 && vp_bool("static")) { auto st = papilio::make_format_args<fm::ctx<C>>(papilio::arg(std::basic_string_view<C>(name), s.bi)); check(st); }
            else if(vp_bool("moved"))
            {
                auto moved = std::move(list);
                check(moved);
            }
            else check(basic_format_args_ref<fm::ctx<C>, C>(list));
            vp_reach("end");
        }
        vp_assert(live == outside, "the objects of a list are destroyed with it");
    }
    vp_assert(live == 0, "every object is destroyed");
}
// the arguments made by make_format_args
template <class C> void made()
{
    {
        Source<C> s(vp_num<uint64_t>("v"));
        s.text = fm::L<C>("ab");
        auto name = fm::L<C>("nm");
        const int outside = live;
        {
            const bool b = s.bits & 1;
            const unsigned long long u = s.bits;
            auto l = papilio::make_format_args<fm::ctx<C>>(b, s.text, int(s.bits), s.so, papilio::arg(std::basic_string_view<C>(name), u), s.bi, &s.anchor);
            vp_assert(l.indexed_size() == 6 && l.named_size() == 1, "a list has the arguments given to it");
            const Kind ks[6] = {BOOL, BSTR, INT, SOO, BBIG, PTR};
            for(unsigned i = 0; i < 6; ++i) expect<C>(l.get(i), ks[i], s);
            expect<C>(l.get(std::basic_string_view<C>(name)), ULL, s);
            vp_reach("end");
        }
        vp_assert(live == outside, "the objects of a list are destroyed with it");
    }
    vp_assert(live == 0, "every object is destroyed");
}
// handles themselves, and objects that cannot be copied at some point
template <class C> void handles()
{
    using H = typename A<C>::handle;
    {
        big b(vp_any<int>("b"));
        small_ o(vp_any<int>("o"));
        const int outside = live;
        const unsigned k = vp_pick(0, 3, "object");
        {
            auto mk = [&] { return k == 0 ? std::make_unique<H>(b) : k == 1 ? std::make_unique<H>(independent, b) : k == 2 ? std::make_unique<H>(o) : std::make_unique<H>(independent, o); };
            auto is = [&](const H& h)
            {
                if(k < 2) { vp_assert(handle_cast<big>(&h) && handle_cast<big>(h).v == b.v && handle_cast<big>(h).state == counted::ALIVE && !handle_cast<small_>(&h), "a handle keeps its object"); }
                else vp_assert(handle_cast<small_>(&h) && handle_cast<small_>(h).v == o.v && handle_cast<small_>(h).state == counted::ALIVE && !handle_cast<big>(&h), "a handle keeps its object");
            };
            auto h = mk();
            is(*h);
            vp_assert(h->has_ownership() == (k != 0), "only a handle to a large object passed by reference does not own it");
            const unsigned op = vp_pick(0, 4, "operation");
            if(op == 0) { auto c = std::make_unique<H>(*h); is(*c); if(k != 1) h.reset(); is(*c); }
            if(op == 1) { auto c = std::make_unique<H>(std::move(*h)); h.reset(); is(*c); }
            if(op == 2) { auto c = std::make_unique<H>(b); *c = *h; is(*c); is(*h); if(k != 1) h.reset(); is(*c); }
            if(op == 3) { auto c = std::make_unique<H>(o); *c = std::move(*h); h.reset(); is(*c); }
            if(op == 4) { auto& r = *h; *h = r; is(*h); *h = std::move(r); is(*h); }
        }
        vp_assert(live == outside, "owned objects are destroyed once and referenced ones are not");
        copies_until_throw = 0;
        bool threw = false;
        try { if(vp_bool("handle")) H h(independent, b); else A<C> a(independent, b); }
        catch(int) { threw = true; }
        copies_until_throw = -1;
        vp_assert(threw && live == outside, "an object that cannot be copied leaves no trace");
        vp_reach("end");
    }
    vp_assert(live == 0, "every object is destroyed");
}
}
#define E(n, C) \
    extern "C" void history_##n() { history<C>(); } \
    extern "C" void types_##n() { types<C>(); } \
    extern "C" void lists_##n() { lists<C>(); } \
    extern "C" void made_##n() { made<C>(); } \
    extern "C" void handles_##n() { handles<C>(); }
E(char, char) E(char16, char16_t)
