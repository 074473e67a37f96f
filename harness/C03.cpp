#include "utf.h"
#include "fmt.h"
using namespace papilio;
namespace u = papilio::utf;
// any exception derived from std::exception is an acceptable end of one operation
template <class F> static void op(F f) { try { f(); } catch(const std::exception&) {} }
static uint64_t g_sink;
static void use(uint64_t v) { g_sink += v; }
template <class S, class C> static void measure(const S& s)
{
    size_t n = s.size();
    op([&] { use(s.length()); });
    op([&] { vp_assert(s.length() <= n, "length exceeds the number of units"); });
    size_t c = 0;
    for(auto it = s.cbegin(); it != s.cend(); ++it, ++c)
    {
        vp_assert(c < n, "forward iteration does not end");
        vp_assert(size_t(it.base() - s.data()) + it.size() <= n, "a character extends past the text");
        op([&] { use(char32_t(*it)); });
        op([&] { u::codepoint cp = *it; use(cp.size_bytes() + cp.estimate_width()); });
        op([&] { use(it - s.cbegin()); });
    }
    c = 0;
    for(auto it = s.crbegin(); it != s.crend(); ++it, ++c)
    {
        vp_assert(c < n, "backward iteration does not end");
        op([&] { use(char32_t(*it)); });
    }
    c = 0;
    for(auto it = s.cend(); it != s.cbegin(); ++c)
    {
        vp_assert(c < n, "decrement does not end");
        --it;
        vp_assert(size_t(it.base() - s.data()) + it.size() <= n, "a character extends past the text");
        op([&] { use(it - s.cbegin()); });
    }
}
template <class S, class C> static void index(const S& s)
{
    size_t n = s.size();
    for(size_t i = 0; i <= n; ++i)
    {
        op([&] { use(s.at(i)); });
        op([&] { use(s.at(reverse_index, i)); });
        op([&] { use(s.index_or(i, U'?')); });
        op([&] { use(s.index_or(reverse_index, i, U'?')); });
        if(i < s.length()) op([&] { use(char32_t(s[i])); });
        size_t o = s.get_offset(i), r = s.get_offset(reverse_index, i);
        vp_assert(o == u::npos || o < n, "offset outside the text");
        vp_assert(r == u::npos || r < n, "reverse offset outside the text");
    }
    if(n)
    {
        op([&] { use(s.front()); });
        op([&] { use(s.back()); });
    }
}
template <class S, class C> static void seek(const S& s)
{
    op([&] { use(s.starts_with(u::codepoint(U'x'))); });
    op([&] { use(s.contains(u::codepoint(U'x'))); });
    op([&] { use(s.find(u::codepoint(U'\x20AC'), 1) == s.cend()); });
}
template <class S, class C> static void inside(const S& r, const S& s)
{
    if(r.size() == 0) return;
    vp_assert(r.data() >= s.data(), "slice begins before the text");
    vp_assert(r.data() + r.size() <= s.data() + s.size(), "slice ends after the text");
}
template <class S, class C> static void slice(const S& s)
{
    constexpr auto es = u::substr_behavior::empty_string;
    int64_t n = (int64_t)s.size();
    for(int64_t i = -n - 1; i <= n + 1; ++i)
    {
        op([&] { inside<S, C>(s.template substr<es>(index_range(i)), s); });
        for(int64_t j : {int64_t(1), n, int64_t(-1), -n})
        {
            op([&] { inside<S, C>(s.template substr<es>(index_range(i, j)), s); });
            op([&] { inside<S, C>(s.substr(index_range(i, j)), s); });
        }
        if(i >= 0)
        {
            op([&] { inside<S, C>(s.substr(i), s); });
            op([&] { inside<S, C>(s.template substr<es>(i, 1), s); });
        }
    }
}
template <class C> static void convert(u::basic_string_ref<C> s)
{
    op([&] { use(s.template to_string<char>().size()); });
    op([&] { use(s.template to_string<char8_t>().size()); });
    op([&] { use(s.template to_string<char16_t>().size()); });
    op([&] { use(s.template to_string<char32_t>().size()); });
    op([&] { use(s.template to_string<wchar_t>().size()); });
    op([&] { use(s.compare(U"ab")); });
    op([&] { use(s == u::u8string_ref(u8"\u20AC")); });
    op([&] { use(s.compare(s)); });
    op([&] { use(s == u::u16string_ref(u"a\u20AC")); });
    for(size_t i = 0; i <= s.size() + 1; ++i)
    {
        auto p = s, q = s;
        p.remove_prefix(i); inside<u::basic_string_ref<C>, C>(p, s);
        q.remove_suffix(i); inside<u::basic_string_ref<C>, C>(q, s);
    }
}
template <class C> static void lens(std::basic_string_view<C> v)
{
    using u::strlen_behavior;
    op([&] { vp_assert(u::strlen<strlen_behavior::replace>(v) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::ignore>(v) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::stop>(v) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::exception>(v) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::replace>(v.data(), v.size()) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::ignore>(v.data(), v.size()) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::stop>(v.data(), v.size()) <= v.size(), "strlen"); });
    op([&] { vp_assert(u::strlen<strlen_behavior::exception>(v.data(), v.size()) <= v.size(), "strlen"); });
    op([&] {
        auto [cp, k] = u::decoder<C>::to_codepoint(v);
        vp_assert(k <= v.size(), "decoder consumed more than it was given");
        use(char32_t(cp)); use(cp.size_bytes()); use(cp.estimate_width());
    });
}
// the container's mutable access
template <class C> static void mutate(std::basic_string_view<C> v)
{
    size_t n = v.size(), c = 0;
    u::basic_string_container<C> s(independent, v.data(), n);
    for(auto it = s.begin(); it != s.end(); ++it, ++c)
    {
        vp_assert(c < n, "mutable iteration does not end");
        op([&] { use(char32_t(*it)); });
    }
    c = 0;
    for(auto it = s.end(); it != s.begin(); ++c)
    {
        vp_assert(c < n, "mutable decrement does not end");
        --it;
        op([&] { use(char32_t(*it)); });
    }
    for(size_t i = 0; i < n; ++i)
        if(s.get_offset(i) != u::npos)
        {
            u::basic_string_container<C> q(independent, v.data(), n);
            op([&] { use(char32_t(q[i])); });
            op([&] { q[i] = u::codepoint(U'\x20AC'); });
            use(q.size());
        }
}
template <class C> static void text()
{
    size_t n = vp_param(0);
    C* p = ref::raw<C>(n);
    std::basic_string_view<C> v(p, n);
    switch(vp_param(1))
    {
    case 0: lens<C>(v); break;
    case 1: measure<u::basic_string_ref<C>, C>(v); break;
    case 2: index<u::basic_string_ref<C>, C>(v); break;
    case 3: slice<u::basic_string_ref<C>, C>(v); break;
    case 4: convert<C>(v); break;
    case 5: measure<u::basic_string_container<C>, C>(v); break;
    case 7: index<u::basic_string_container<C>, C>(v); break;
    case 8: seek<u::basic_string_ref<C>, C>(v); break;
    case 9: seek<u::basic_string_container<C>, C>(v); break;
    case 6: mutate<C>(v); break;
    }
    vp_reach("end");
}
extern "C" void text_char() { text<char>(); }
extern "C" void text_char8() { text<char8_t>(); }
extern "C" void text_char16() { text<char16_t>(); }
extern "C" void text_char32() { text<char32_t>(); }
extern "C" void text_wchar() { text<wchar_t>(); }
template <class C> static void as_arg()
{
    size_t n = vp_param(0);
    C* p = ref::raw<C>(n);
    std::basic_string_view<C> v(p, n);
    std::basic_string<C> f;
    switch(vp_param(1))
    {
    case 0: f = fm::L<C>("{}"); break;
    case 1: f = fm::L<C>("{:?}"); break;
    case 2: f = fm::L<C>("{:.1}"); break;
    case 3: f = fm::L<C>("{:>5}"); break;
    case 4: f = fm::L<C>("{:^5.2}"); break;
    case 5: f = fm::L<C>("{[0]}{[-1]}"); break;
    case 6: f = fm::L<C>("{[:2]}{[-2:]}"); break;
    case 7: f = fm::L<C>("{$ {0} ? 'a' : 'b'}"); break;
    case 8: f = fm::L<C>("{0.length}"); break;
    }
    bool thrown = false;
    try
    {
        auto r = fm::run<C>(std::basic_string_view<C>(f), v);
        if(vp_param(1) == 0) vp_assert(ref::same<C>(r, v), "{} reproduces the text");
        vp_reach("end");
    }
    catch(const std::exception&) { thrown = true; vp_reach("end"); }
}
extern "C" void format_char() { as_arg<char>(); }
extern "C" void format_char16() { as_arg<char16_t>(); }
extern "C" void format_char32() { as_arg<char32_t>(); }
// the format string itself is arbitrary non-ASCII text (braces excluded: see C08/C09)
template <class C> static void format_str()
{
    size_t n = vp_param(0);
    C* p = ref::raw<C>(n);
    for(size_t i = 0; i < n; ++i) { vp_assume(p[i] != C('{')); vp_assume(p[i] != C('}')); }
    std::basic_string_view<C> v(p, n);
    op([&] { use(fm::run<C>(v, 1).size()); });
    vp_reach("end");
}
extern "C" void fstr_char() { format_str<char>(); }
extern "C" void fstr_char16() { format_str<char16_t>(); }
extern "C" void fstr_char32() { format_str<char32_t>(); }
