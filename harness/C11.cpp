#include "fmt.h"
using namespace papilio;
namespace
{
struct Script
{
    std::string f, out;
    unsigned v[8], n, next = 0;
    bool autom;
    bool bad = false;
    unsigned sp = 0, wspos = 99, wsval = 0, tok = 0;
    bool any_ws = false;
    // white space may stand between any two tokens
    void ws()
    {
        if(any_ws && tok == wspos) { f += '\1'; }
        else if(sp == 1) f += ' ';
        else if(sp == 2) f += "\t \n";
        ++tok;
    }
    unsigned a(unsigned i) { if(autom) { if(next >= 8) { bad = true; return 0; } return v[next++]; } return v[i]; }
    bool cond(unsigned k)
    {
        static const char* const M[] = {"{0}", "!{1}", "{0}=={1}", "{n}!=1", "{1}<={0}", "'x'", "!''", "0", "{0}>1", "'b'=='b'"};
        static const char* const A[] = {"{}", "!{}", "{}=={}", "{n}!=1", "{}<={}", "'x'", "!''", "0", "{}>1", "'b'=='b'"};
        const char* s = autom ? A[k] : M[k];
        // spaces around the operator tokens
        for(const char* p = s; *p;)
        {
            if(*p == '!' || *p == '=' || *p == '<' || *p == '>')
            {
                if(p != s) ws();
                f += *p++;
                if(*p == '=') f += *p++;
                ws();
            }
            else f += *p++;
        }
        switch(k)
        {
        case 0: return a(0) != 0;
        case 1: return a(1) == 0;
        case 2: { unsigned x = a(0), y = a(1); return x == y; }
        case 3: return n != 1;
        case 4: { unsigned x = a(1), y = a(0); return x <= y; }
        case 5: return true;
        case 6: return true;
        case 7: return false;
        case 8: return a(0) > 1;
        default: return true;
        }
    }
    void digit(unsigned x, bool on) { if(on) out += char('0' + x); }
    void branch(unsigned k, bool on)
    {
        switch(k)
        {
        case 0: f += "'s'"; if(on) out += 's'; break;
        case 1: f += "''"; break;
        case 2: f += "'}:{?$ '"; if(on) out += "}:{?$ "; break;
        case 3: f += "'it\\'s\\\\'"; if(on) out += "it's\\"; break;
        case 4: f += autom ? "{}" : "{2}"; digit(a(2), on); break;
        case 5: f += "{n:>2}"; if(on) out += ' '; digit(n, on); break;
        case 6: // a dynamic width: 1 or 2
        {
            f += autom ? "{n:{}}" : "{2:{3}}";
            unsigned val = autom ? n : v[2], w = a(3);
            if(vp_concrete(w == 0)) { if(on) bad = true; vp_assume(w != 0); }
            if(on) { if(vp_concrete(w == 2)) out += ' '; digit(val, true); }
            break;
        }
        case 7: f += autom ? "{:_>2d}" : "{1:_>2d}"; if(on) out += '_'; digit(a(1), on); break;
        }
    }
};
}
template <class C> static void script()
{
    unsigned nc = vp_param(0), haselse = vp_param(1);
    Script s;
    s.autom = vp_param(2);
    s.sp = vp_param(3);
    unsigned nk = vp_param(4); // how many kinds of conditions
    s.any_ws = s.sp == 3;
    if(s.any_ws) s.wspos = (unsigned)vp_pick(0, 14, "position of the white space");
    for(auto& x : s.v) x = (unsigned)vp_range(0, 2, "v");
    s.n = (unsigned)vp_range(0, 2, "n");
    s.out = "<";
    s.f = "<{$";
    bool done = false;
    for(unsigned i = 0; i < nc; ++i)
    {
        if(i) { s.ws(); s.f += ':'; s.ws(); s.f += '$'; }
        s.ws();
        bool c = s.cond((unsigned)vp_pick(0, nk, "condition"));
        s.ws();
        s.f += '?';
        s.ws();
        c = vp_concrete(c);
        s.branch((unsigned)vp_pick(0, 7, "branch"), c && !done);
        done = done || c;
    }
    if(haselse)
    {
        s.ws(); s.f += ':'; s.ws();
        s.branch((unsigned)vp_pick(0, 7, "branch"), !done);
    }
    s.ws();
    s.f += "}";
    // whatever was output, the rest is processed identically
    s.f += s.autom ? "|{}>" : "|{0}>";
    s.out += '|'; s.digit(s.a(0), true); s.out += '>';
    if(s.bad) return;
    std::basic_string<C> f;
    for(char c : s.f)
    {
        if(c == '\1')
        {
            C w = vp_any<C>("white space");
            vp_assume(vp_or(w == C(' '), vp_and(w >= C('\t'), w <= C('\r'))));
            f.push_back(w);
        }
        else f.push_back(C(c));
    }
    std::basic_string<C> nn = fm::L<C>("n");
    auto N = papilio::arg(std::basic_string_view<C>(nn), s.n);
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), s.v[0], s.v[1], s.v[2], N, s.v[3], s.v[4], s.v[5], s.v[6], s.v[7]);
    vp_assert(!r.threw, "a well-formed scripted field is accepted");
    vp_assert(ref::same<C>(r.s, fm::L<C>(s.out.c_str())), "a scripted field outputs the branch of its first true condition, then the final alternative, and nothing else");
    vp_reach(done ? "condition" : haselse ? "alternative" : "nothing");
}
#define E(n, C) extern "C" void script_##n() { script<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// two scripted fields side by side, sharing the automatic counter with ordinary fields
extern "C" void two()
{
    unsigned v[6];
    for(auto& x : v) x = (unsigned)vp_range(0, 1, "v");
    std::string_view f = "{}{$ {} ? {} : {}}{}{$ !{} ? 'a'}";
    std::string e;
    auto d = [&](unsigned x) { e += char('0' + x); };
    unsigned w[8];
    for(auto& x : w) x = (unsigned)vp_range(0, 2, "w");
    d(w[0]);
    if(vp_concrete(w[1] != 0)) d(w[2]); else d(w[3]);
    d(w[4]);
    if(vp_concrete(w[5] == 0)) e += 'a';
    auto r = fm::tryrun<char>(f, w[0], w[1], w[2], w[3], w[4], w[5]);
    vp_assert(!r.threw && fm::is(r.s, e), "arguments of branches not taken are consumed");
    // a taken condition after a taken condition
    f = "{$ {0} ? 'x' : $ {1} ? 'y' : $ {2} ? 'z' : 'w'}";
    r = fm::tryrun<char>(f, w[0], w[1], w[2]);
    const char* x = vp_concrete(w[0] != 0) ? "x" : vp_concrete(w[1] != 0) ? "y" : vp_concrete(w[2] != 0) ? "z" : "w";
    vp_assert(!r.threw && fm::is(r.s, x), "only the first branch with a true condition is output");
    vp_reach("end");
}
// malformed scripts are rejected whatever the conditions give
extern "C" void malformed()
{
    static const char* const F[] = {"{$}", "{$ {0}}", "{$ {0} ?}", "{$ {0} 'a'}", "{$ {0} ? 'a' :}", "{$ {0} ? 'a' : 'b' : 'c'}", "{$ {0} ? 'a' : 'b' : $ {1} ? 'c'}", "{$ {0} ? 'a' 'b'}", "{$ ? 'a'}",
                                    "{$ {0} = 1 ? 'a'}", "{$ {0} =! 1 ? 'a'}", "{$ {0} ! 1 ? 'a'}", "{$ !{0} == 1 ? 'a'}", "{$ {0} ? a}", "{$ {0} ? 1}", "{$ {0} == ? 'a'}", "{$ == {0} ? 'a'}", "{$ {0} ? 'a' : $ ? 'b'}",
                                    "{$ {0} ? 'a", "{$ {0} ? 'a'", "{$ {0", "{$ {0} ? {0", "{$ {0} ? {0} : {9}}", "{$ {9} ? 'a'}", "{$ {0} ? 'a' : $ {9} ? 'b'}", "{$ {0} ? 'a' : {0:y}}", "{$ {0} ? {0:y} : 'a'}", "{$ {0} ? 'a'}}", "{$ {0:d} ? 'a'}", "{$ !!{0} ? 'a'}"};
    unsigned a = (unsigned)vp_range(0, 2, "a"), b = (unsigned)vp_range(0, 2, "b");
    auto r = fm::tryrun<char>(std::string_view(F[vp_param(0)]), a, b);
    vp_assert(r.threw, "a malformed scripted field is rejected whichever branch is taken");
    vp_reach("end");
}
