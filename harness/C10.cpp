#include "fmt.h"
using namespace papilio;
// What every kind of field denotes, independently of the implementation
//   indexed arguments v[0..nv), named ones "na" and "B_2"; all values are digits 1..3
struct Model
{
    std::string out;
    unsigned next = 0;
    bool manual = false, bad = false;
    const unsigned* v; unsigned nv;
    unsigned na, nb;
    void put(unsigned x, unsigned w = 1) { for(unsigned i = 1; i < w; ++i) out += ' '; out += char('0' + x); }
    bool autoarg(unsigned& x) { if(manual || next >= nv) { bad = true; return false; } x = v[next++]; return true; }
    bool arg(unsigned i, unsigned& x) { manual = true; if(i >= nv) { bad = true; return false; } x = v[i]; return true; }
    void field(unsigned k)
    {
        unsigned x, w;
        switch(k)
        {
        case 0: if(autoarg(x)) put(x); break;
        case 1: if(arg(0, x)) put(x); break;
        case 2: if(arg(1, x)) put(x); break;
        case 3: if(arg(2, x)) put(x); break;
        case 4: arg(3, x); break;
        case 5: put(na); break;
        case 6: put(nb); break;
        case 7: bad = true; break;
        case 8: if(autoarg(x)) put(x, 2); break;
        case 9: if(arg(1, x)) put(x, 2); break;
        case 10: if(autoarg(x) && autoarg(w)) put(x, (unsigned)vp_concrete(w)); break;
        case 11: if(arg(1, x) && arg(0, w)) put(x, (unsigned)vp_concrete(w)); break;
        case 12: if(autoarg(w)) put(na, (unsigned)vp_concrete(w)); break;
        case 13: if(arg(0, x)) put(x, (unsigned)vp_concrete(nb)); break;
        case 14: if(autoarg(x)) put(x, (unsigned)vp_concrete(na)); break;
        case 15: if(autoarg(x)) out += 'y'; break;
        case 16: if(arg(1, x)) { if(autoarg(w)) {} } break;
        case 17: out += "{a}"; break;
        case 18: if(autoarg(x) && autoarg(w)) out += 'n'; break; // the branch not taken takes its arguments too
        case 19: if(arg(0, w)) { out += vp_concrete(x = w) == 2 ? 'E' : 'N'; } break;
        }
    }
};
static const char* const FIELD[] = {"{}", "{0}", "{1}", "{2}", "{3}", "{na}", "{B_2}", "{b_2}", "{:>2}", "{1:>2}", "{:{}}", "{1:{0}}", "{na:{}}", "{0:{B_2}}", "{:{na}}", "{$ {}?'y'}", "{$ {1}==0?'x':'{}'}", "{{a}}", "{$ !{} ? {} : 'n'}", "{$ {0}==2?'E':'N'}"};
// any sequence of fields
template <class C> static void mixed()
{
    unsigned nf = vp_param(0), nv = vp_param(1), order = vp_param(2);
    unsigned v[3], na, nb;
    for(unsigned i = 0; i < 3; ++i) v[i] = (unsigned)vp_range(1, 3, "v");
    na = (unsigned)vp_range(1, 3, "na");
    nb = (unsigned)vp_range(1, 3, "nb");
    Model m;
    m.v = v; m.nv = nv; m.na = na; m.nb = nb;
    std::basic_string<C> f;
    for(unsigned i = 0; i < nf; ++i)
    {
        unsigned k = (unsigned)vp_pick(0, 19, "field");
        if(k == 16) k = 0; // not a documented form
        if(!m.bad) m.field(k);
        f += fm::L<C>(FIELD[k]);
        if(i + 1 < nf) { f.push_back(C('-')); if(!m.bad) m.out += '-'; }
    }
    std::basic_string<C> n1 = fm::L<C>("na"), n2 = fm::L<C>("B_2");
    auto A = papilio::arg(std::basic_string_view<C>(n1), na);
    auto B = papilio::arg(std::basic_string_view<C>(n2), nb);
    std::basic_string_view<C> fv(f);
    fm::Res<C> r;
    if(nv == 3)
        r = order == 0 ? fm::tryrun<C>(fv, v[0], v[1], v[2], A, B) : order == 1 ? fm::tryrun<C>(fv, B, v[0], A, v[1], v[2]) : fm::tryrun<C>(fv, A, B, v[0], v[1], v[2]);
    else if(nv == 2)
        r = order == 0 ? fm::tryrun<C>(fv, v[0], v[1], A, B) : fm::tryrun<C>(fv, B, v[0], A, v[1]);
    else if(nv == 1) r = fm::tryrun<C>(fv, A, v[0], B);
    else r = fm::tryrun<C>(fv, B, A);
    vp_reach(m.bad ? "rejected" : "formatted");
    vp_assert(r.threw == m.bad, "a field sequence throws exactly when it denotes a missing argument or automatic numbering after an explicit index");
    if(!m.bad) vp_assert(ref::same<C>(r.s, fm::L<C>(m.out.c_str())), "every field inserts the argument it denotes");
}
#define E(n, C) extern "C" void mixed_##n() { mixed<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// the same through dynamic argument lists built in pieces
extern "C" void dynamic()
{
    unsigned nf = vp_param(0);
    unsigned v[3], na = (unsigned)vp_range(1, 3, "na"), nb = (unsigned)vp_range(1, 3, "nb");
    for(unsigned i = 0; i < 3; ++i) v[i] = (unsigned)vp_range(1, 3, "v");
    unsigned nv = 0;
    dynamic_format_args a;
    unsigned steps = (unsigned)vp_pick(0, 3, "steps");
    bool havena = false, havenb = false;
    for(unsigned i = 0; i < 3; ++i)
    {
        unsigned op = (unsigned)vp_pick(0, 3, "op");
        if(op == 0) a.emplace(v[nv++]);
        else if(op == 1 && !havena) { a.emplace(papilio::arg("na", na)); havena = true; }
        else if(op == 2 && !havenb) { unsigned& x = v[nv++]; a.append(papilio::arg("B_2", nb), x); havenb = true; }
        else if(i == steps) { a.clear(); nv = 0; havena = havenb = false; }
    }
    vp_assert(a.indexed_size() == nv && a.named_size() == (unsigned)havena + havenb, "an argument list counts indexed and named arguments");
    if(!havena) a.emplace(papilio::arg("na", na));
    if(!havenb) a.emplace(papilio::arg("B_2", nb));
    vp_assert(a.contains("na") && a.contains("B_2") && !a.contains("n") && !a.contains("naa"), "names are found exactly");
    vp_assert(a.contains(nv) == false && (nv == 0 || a.contains(nv - 1)), "an argument list contains exactly its indices");
    Model m;
    m.v = v; m.nv = nv; m.na = na; m.nb = nb;
    std::string f;
    for(unsigned i = 0; i < nf; ++i)
    {
        unsigned k = (unsigned)vp_pick(0, 8, "field");
        if(!m.bad) m.field(k);
        f += FIELD[k];
    }
    bool threw = false;
    std::string out;
    try { out = papilio::vformat(f, a); } catch(const std::exception&) { threw = true; }
    vp_reach(threw ? "rejected" : "formatted");
    vp_assert(threw == m.bad, "a dynamic argument list rejects exactly the missing arguments");
    if(!threw) vp_assert(fm::is(out, m.out), "every field inserts the argument it denotes");
}
// names: two arguments with arbitrary distinct names, and one arbitrary name used in the format string
template <class C> static size_t name(C* p, size_t n)
{
    // identifier characters; from the second position digits as well, and any non-ASCII unit of a 2-unit character for char
    for(size_t i = 0; i < n; ++i)
    {
        C c = vp_any<C>("name");
        bool letter = vp_or(vp_or(vp_and(c >= C('A'), c <= C('Z')), vp_and(c >= C('a'), c <= C('z'))), c == C('_'));
        if(i > 0) letter = vp_or(letter, vp_and(c >= C('0'), c <= C('9')));
        vp_assume(letter);
        p[i] = c;
    }
    return n;
}
template <class C> static void names()
{
    C a[4], b[4], q[4];
    size_t na = name(a, vp_param(0)), nb = name(b, vp_param(1)), nq = name(q, vp_param(2));
    bool wide = vp_param(3); // end the names with a non-ASCII character
    auto grow = [&](C* p, size_t& n, const char* nm) {
        uint32_t c = vp_any<uint32_t>(nm);
        if constexpr(sizeof(C) == 1) { vp_assume(vp_and(c >= 0x80, c <= 0x7FF)); ref::enc<C>(c, 2, p + n); n += 2; }
        else { vp_assume(vp_and(c >= 0x80, c < 0xD800)); p[n++] = C(c); }
    };
    if(wide) { grow(a, na, "wa"); grow(q, nq, "wq"); }
    std::basic_string_view<C> A(a, na), B(b, nb), Q(q, nq);
    bool ab = A.size() == B.size() && vp_eq_bytes(a, b, na * sizeof(C));
    vp_assume(!ab);
    bool isa = na == nq && vp_eq_bytes(a, q, na * sizeof(C)), isb = nb == nq && vp_eq_bytes(b, q, nb * sizeof(C));
    std::basic_string<C> f;
    f.push_back(C('{'));
    f.append(Q);
    f.push_back(C('}'));
    C x = C('x'), y = C('y');
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), C('0'), papilio::arg(A, x), C('1'), papilio::arg(B, y));
    vp_assert(vp_or(isa, isb) == !r.threw, "a name selects an argument exactly when an argument has that name");
    if(!r.threw) vp_assert(r.s.size() == 1 && r.s[0] == C(vp_ite(isa, 'x', 'y')), "a name selects the argument of that name");
    vp_reach(r.threw ? "absent" : "found");
}
#define E(n, C) extern "C" void names_##n() { names<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// explicit indices and automatic numbering over a long argument list
extern "C" void many()
{
    char v[13];
    for(int i = 0; i < 13; ++i) { v[i] = vp_any<char>("v"); vp_assume(vp_and(v[i] >= 'a', v[i] <= 'z')); }
    auto args = papilio::make_format_args(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]);
    if(vp_param(0) == 0)
    {
        uint32_t i = (uint32_t)vp_range(0, 9999, "index");
        char f[8] = "{    }";
        size_t n = 1;
        if(vp_concrete(i >= 1000)) f[n++] = char('0' + i / 1000 % 10);
        if(vp_concrete(i >= 100)) f[n++] = char('0' + i / 100 % 10);
        if(vp_concrete(i >= 10)) f[n++] = char('0' + i / 10 % 10);
        f[n++] = char('0' + i % 10);
        f[n++] = '}';
        bool threw = false;
        std::string out;
        try { out = papilio::vformat(std::string_view(f, n), args); } catch(const std::exception&) { threw = true; }
        vp_assert(threw == (i > 12), "an explicit index selects an argument exactly when there is one");
        if(!threw)
        {
            bool ok = out.size() == 1;
            for(uint32_t j = 0; j < 13 && ok; ++j) ok = !vp_concrete(j == i) || out[0] == v[j];
            vp_assert(ok, "an explicit index selects the argument at that position");
        }
        vp_reach(threw ? "absent" : "found");
    }
    else
    {
        unsigned nf = (unsigned)vp_pick(0, 14, "fields");
        std::string f, exp;
        for(unsigned i = 0; i < nf; ++i) { f += "{}"; if(i < 13) exp += v[i]; }
        bool threw = false;
        std::string out;
        try { out = papilio::vformat(f, args); } catch(const std::exception&) { threw = true; }
        vp_assert(threw == (nf > 13), "automatic numbering ends with the arguments");
        if(!threw) vp_assert(fm::is(out, exp), "automatic numbering follows the order of the fields");
        vp_reach(threw ? "absent" : "found");
    }
}
