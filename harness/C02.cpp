#include "utf.h"
#include <iterator>
using namespace papilio;
namespace u = papilio::utf;
template <class S> static char32_t at_or(const S& s, bool rev, size_t i, bool& threw)
{
    threw = false;
    try { return rev ? char32_t(s.at(reverse_index, i)) : char32_t(s.at(i)); }
    catch(const std::out_of_range&) { threw = true; return 0; }
}
template <class C, class S> static void agree(const S& s, const ref::Text<C>& t)
{
    vp_assert(s.size() == t.n, "size is the number of units");
    vp_assert(s.length() == t.ncp, "length is the number of code points");
    vp_assert(s.empty() == (t.ncp == 0), "empty");
    // iteration
    size_t i = 0;
    for(auto it = s.cbegin(); it != s.cend(); ++it, ++i)
    {
        vp_assert(i < t.ncp, "forward iteration ends");
        vp_assert(char32_t(*it) == t.cp[i], "forward iteration");
        vp_assert(it.base() == s.data() + t.off[i], "iterator position");
        vp_assert(it.size() == t.k[i], "iterator unit count");
        vp_assert(size_t(it - s.cbegin()) == i, "iterator distance");
    }
    vp_assert(i == t.ncp, "forward iteration visits all");
    i = t.ncp;
    for(auto it = s.crbegin(); it != s.crend(); ++it)
    {
        vp_assert(i > 0, "backward iteration ends");
        --i;
        vp_assert(char32_t(*it) == t.cp[i], "backward iteration");
    }
    vp_assert(i == 0, "backward iteration visits all");
    {
        auto it = s.cend();
        for(size_t j = t.ncp; j-- > 0;)
        {
            --it;
            vp_assert(it.base() == s.data() + t.off[j], "decrement position");
            vp_assert(it.size() == t.k[j], "decrement unit count");
        }
        vp_assert(it == s.cbegin(), "decrement reaches begin");
    }
    for(size_t j = 0; j <= t.ncp; ++j)
    {
        auto a = s.cbegin() + std::ptrdiff_t(j);
        auto b = s.cend() - std::ptrdiff_t(t.ncp - j);
        vp_assert(a.base() == s.data() + t.off[j], "begin + n");
        vp_assert(b == a, "end - n");
    }
    for(size_t j = 0; j < t.ncp; ++j)
    {
        vp_assert(s.get_offset(j) == t.off[j], "offset of the n-th character");
        vp_assert(s.get_offset(reverse_index, j) == t.off[t.ncp - 1 - j], "reverse offset");
        vp_assert(char32_t(u::codepoint(s[j])) == t.cp[j], "operator[]");
        vp_assert(char32_t(u::codepoint(s.index(j))) == t.cp[j], "index");
        vp_assert(char32_t(u::codepoint(s.index(reverse_index, j))) == t.cp[t.ncp - 1 - j], "reverse index");
        bool threw;
        vp_assert(at_or(s, false, j, threw) == t.cp[j], "at"); vp_assert(!threw, "at throws in range");
        vp_assert(at_or(s, true, j, threw) == t.cp[t.ncp - 1 - j], "reverse at"); vp_assert(!threw, "reverse at throws in range");
        vp_assert(char32_t(s.index_or(j, U'?')) == t.cp[j], "index_or");
        vp_assert(char32_t(s.index_or(reverse_index, j, U'?')) == t.cp[t.ncp - 1 - j], "reverse index_or");
    }
    if(t.ncp)
    {
        vp_assert(char32_t(s.front()) == t.cp[0], "front");
        vp_assert(char32_t(s.back()) == t.cp[t.ncp - 1], "back");
    }
    // past the end
    for(int r = 0; r < 3; ++r)
    {
        size_t j = r == 0 ? t.ncp : r == 1 ? t.ncp + 1 : u::npos;
        bool threw;
        at_or(s, false, j, threw); vp_assert(threw, "at past the end throws");
        at_or(s, true, j, threw); vp_assert(threw, "reverse at past the end throws");
        vp_assert(char32_t(s.index_or(j, U'?')) == U'?', "index_or past the end");
        vp_assert(char32_t(s.index_or(reverse_index, j, U'?')) == U'?', "reverse index_or past the end");
        vp_assert(s.get_offset(j) == u::npos, "no offset past the end");
        vp_assert(s.get_offset(reverse_index, j) == u::npos, "no reverse offset past the end");
    }
}
template <class C> static void seq()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0));
    agree(u::basic_string_ref<C>(t.view()), t);
    agree(u::basic_string_container<C>(t.view()), t);
    vp_reach("end");
}
extern "C" void seq_char() { seq<char>(); }
extern "C" void seq_char8() { seq<char8_t>(); }
extern "C" void seq_char16() { seq<char16_t>(); }
extern "C" void seq_char32() { seq<char32_t>(); }
extern "C" void seq_wchar() { seq<wchar_t>(); }

// free functions over pointer + length and over NUL-terminated text, for every invalid-unit policy (no NUL in the text)
template <class C> static void lens()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 1);
    vp_assert(u::strlen(t.view()) == t.ncp, "strlen(view)");
    vp_assert(u::strlen<u::strlen_behavior::ignore>(t.view()) == t.ncp, "strlen<ignore>(view)");
    vp_assert(u::strlen<u::strlen_behavior::stop>(t.view()) == t.ncp, "strlen<stop>(view)");
    vp_assert(u::strlen<u::strlen_behavior::exception>(t.view()) == t.ncp, "strlen<exception>(view)");
    vp_assert(u::strlen(t.p, t.n) == t.ncp, "strlen(ptr, n)");
    vp_assert(u::strlen<u::strlen_behavior::ignore>(t.p, t.n) == t.ncp, "strlen<ignore>(ptr, n)");
    vp_assert(u::strlen<u::strlen_behavior::stop>(t.p, t.n) == t.ncp, "strlen<stop>(ptr, n)");
    vp_assert(u::strlen<u::strlen_behavior::exception>(t.p, t.n) == t.ncp, "strlen<exception>(ptr, n)");
    C* z = new C[t.n + 3];
    for(size_t i = 0; i < t.n; ++i) z[i] = t.p[i];
    z[t.n] = 0; z[t.n + 1] = 'x'; z[t.n + 2] = 0;
    vp_assert(u::strlen(z) == t.ncp, "strlen(ptr) stops at NUL");
    vp_assert(u::strlen(z, t.n + 2) == t.ncp, "strlen(ptr, n) stops at NUL");
    vp_assert(u::strlen(z, t.n) == t.ncp, "strlen(ptr, n) stops at n");
    delete[] z;
    for(size_t i = 0; i < t.ncp; ++i)
    {
        vp_assert(u::index_offset(i, t.p, t.n) == t.off[i], "index_offset(ptr)");
        vp_assert(u::index_offset(reverse_index, i, t.p, t.n) == t.off[t.ncp - 1 - i], "index_offset(reverse, ptr)");
        vp_assert(u::index_offset(i, t.view()) == t.off[i], "index_offset(view)");
        vp_assert(u::index_offset(reverse_index, i, t.view()) == t.off[t.ncp - 1 - i], "index_offset(reverse, view)");
    }
    vp_assert(u::index_offset(t.ncp, t.p, t.n) == u::npos, "index_offset past the end");
    vp_assert(u::index_offset(reverse_index, t.ncp, t.p, t.n) == u::npos, "reverse index_offset past the end");
    vp_reach("end");
}
extern "C" void lens_char() { lens<char>(); }
extern "C" void lens_char8() { lens<char8_t>(); }
extern "C" void lens_char16() { lens<char16_t>(); }
extern "C" void lens_char32() { lens<char32_t>(); }
extern "C" void lens_wchar() { lens<wchar_t>(); }

// searching by character and by text, prefix and suffix tests
template <class C> static void search()
{
    size_t n = vp_param(0);
    ref::Text<C> t;
    ref::gen<C>(t, n, 0, 3);
    char32_t x = ref::sym_cp(0, 0x10FFFF);
    u::basic_string_ref<C> s(t.view());
    u::basic_string_container<C> sc(t.view());
    size_t want = n;
    for(size_t i = n; i-- > 0;) want = vp_ite(t.cp[i] == x, i, want);
    want = vp_concrete(want);
    auto it = s.find(u::codepoint(x));
    vp_assert(it.base() == t.p + t.off[want], "find(codepoint) gives the first match");
    vp_assert(sc.find(u::codepoint(x)).base() == t.p + t.off[want], "container find(codepoint)");
    vp_assert(s.contains(u::codepoint(x)) == (want < n), "contains(codepoint)");
    vp_assert(s.starts_with(u::codepoint(x)) == (n > 0 && t.cp[0] == x), "starts_with(codepoint)");
    vp_assert(s.ends_with(u::codepoint(x)) == (n > 0 && t.cp[n - 1] == x), "ends_with(codepoint)");
    // every sub-text is found at its first occurrence
    for(size_t i = 0; i <= n; ++i)
        for(size_t j = i; j <= n; ++j)
        {
            u::basic_string_ref<C> w(t.sub(i, j));
            size_t m = j - i, first = i;
            for(size_t a = 0; a < i; ++a)
            {
                bool eq = true;
                for(size_t b = 0; b < m; ++b) eq = vp_and(eq, t.cp[a + b] == t.cp[i + b]);
                if(eq) { first = a; break; }
            }
            if(n)
            {
                vp_assert(s.find(w).base() == t.p + t.off[first], "find(text) gives the first match");
                vp_assert(sc.find(t.sub(i, j)).base() == t.p + t.off[first], "container find(text)");
                vp_assert(s.contains(w) || (m == 0), "contains(text)");
            }
            if(first == 0) vp_assert(s.starts_with(w), "starts_with(text)");
            else vp_assert(!s.starts_with(w), "not starts_with(text)");
            if(j == n) vp_assert(s.ends_with(w), "ends_with(text)");
        }
    vp_reach("end");
}
extern "C" void search_char() { search<char>(); }
extern "C" void search_char16() { search<char16_t>(); }
extern "C" void search_char32() { search<char32_t>(); }

// the container's own (mutable) iterators and element assignment
template <class C> static void mut()
{
    size_t n = vp_param(0);
    ref::Text<C> t;
    ref::gen<C>(t, n, 0, 3);
    u::basic_string_container<C> s(independent, t.p, t.n);
    size_t i = 0;
    for(auto it = s.begin(); it != s.end(); ++it, ++i)
    {
        vp_assert(i < n, "mutable iteration ends");
        vp_assert(char32_t(*it) == t.cp[i], "mutable iteration");
        vp_assert(it.to_address() == s.data() + t.off[i], "mutable iterator address");
        u::codepoint_iterator<C> ci = it;
        vp_assert(ci.base() == s.data() + t.off[i], "iterator conversion");
    }
    vp_assert(i == n, "mutable iteration visits all");
    auto it = s.end();
    while(i-- > 0)
    {
        --it;
        vp_assert(char32_t(*it) == t.cp[i], "mutable backward iteration");
    }
    vp_assert(it == s.begin(), "mutable backward iteration reaches begin");
    // replace one character by another of any length
    size_t j = vp_param(1);
    unsigned k = ref::classes<C>() == 1 ? 1 : (unsigned)vp_pick(1, ref::classes<C>(), "newlen");
    char32_t x = ref::sym_cp_class<C>(k);
    if(vp_param(2) == 0) s[j] = u::codepoint(x);
    else s.index(reverse_index, n - 1 - j) = u::codepoint(x);
    std::basic_string<C> e(t.sub(0, j));
    C b[4]; ref::enc<C>(x, k, b); e.append(b, k);
    e.append(t.sub(j + 1, n));
    vp_assert(ref::same<C>(s.to_string_view(), std::basic_string_view<C>(e)), "assigning a character replaces exactly that character");
    vp_reach("end");
}
extern "C" void mut_char() { mut<char>(); }
extern "C" void mut_char16() { mut<char16_t>(); }
extern "C" void mut_char32() { mut<char32_t>(); }
