#include "seq.h"
using namespace papilio;
using namespace seq;
namespace
{
template <class V> void history()
{
    const unsigned a = vp_param(0), b = vp_param(1), first = vp_param(2), depth = vp_param(3);
    {
        V v, w;
        Model m, n;
        fill(v, m, a);
        fill(w, n, b);
        if(!apply(first, v, m, w, n)) { vp_reach("end"); return; }
        for(unsigned d = 1; d < depth; ++d)
        {
            bool other = vp_bool("on the other");
            unsigned op = unsigned(vp_pick(0, OPS - 1, "operation"));
            if(!(other ? apply(op, w, n, v, m) : apply(op, v, m, w, n))) vp_assume(false);
        }
        same(v, m);
        same(w, n);
        Model back;
        for(auto it = v.rbegin(); it != v.rend(); ++it) back.insert(back.begin(), it->v);
        bool ok = back.size() == m.size();
        for(size_t i = 0; ok && i < m.size(); ++i) vp_assert(back[i] == m[i], "the elements are those of the model, read backwards");
        vp_assert(ok, "there are as many elements read backwards");
        vp_reach("end");
    }
    vp_assert(live == 0 && memory == 0, "nothing is left");
}
// construction from elements
template <class V> void made()
{
    using T = typename V::value_type;
    const unsigned k = vp_param(0);
    {
        std::vector<T> r;
        Model m;
        for(unsigned i = 0; i < k; ++i) { r.emplace_back(value()); m.push_back(r.back().v); }
        V v(r.begin(), r.end());
        same(v, m);
        if(k == 3)
        {
            V w{r[0], r[1], r[2]};
            same(w, m);
            w.assign({r[2], r[0]});
            same(w, Model{m[2], m[0]});
        }
        const V& c = v;
        vp_assert(c.get_allocator() == v.get_allocator(), "the allocator can be retrieved");
        vp_reach("end");
    }
    vp_assert(live == 0 && memory == 0, "nothing is left");
}
template <unsigned N> using SV = small_vector<elem<false>, N, alloc<elem<false>>>;
}
extern "C" void history_2() { history<SV<2>>(); }
extern "C" void history_1() { history<SV<1>>(); }
extern "C" void history_0() { history<SV<0>>(); }
extern "C" void history_3() { history<SV<3>>(); }
extern "C" void made_2() { made<SV<2>>(); }
extern "C" void made_0() { made<SV<0>>(); }
