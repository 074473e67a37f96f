#include "seq.h"
using namespace papilio;
using namespace seq;
namespace
{
template <class V> void valid(const V& v, Model& m)
{
    vp_assert(v.size() <= v.capacity(), "there is room for the elements");
    m.clear();
    for(size_t i = 0; i < v.size(); ++i) { v[i].ok(); m.push_back(v[i].v); }
}
// an operation that fails at some point, then one that does not
template <class V> void history()
{
    const unsigned a = vp_param(0), b = vp_param(1), first = vp_param(2), depth = vp_param(3);
    {
        V v, w;
        Model m, n;
        fill(v, m, a);
        fill(w, n, b);
        for(unsigned d = 0; d < depth; ++d)
        {
            const unsigned op = d == 0 ? first : unsigned(vp_pick(0, OPS - 1, "operation"));
            fault = int(vp_pick(0, 9, "fails at"));
            if(d > 0 && d + 1 == depth) fault = -1;
            faults = true;
            bool threw = false, applies = true;
            try { applies = apply(op, v, m, w, n); }
            catch(const boom&) { threw = true; }
            faults = false;
            if(!applies) { if(d) vp_assume(false); vp_reach("end"); return; }
            if(threw) vp_reach("failed");
            else { same(v, m); same(w, n); if(fault >= 0 && d == 0) vp_assume(false); } // the fault was not used up: covered by C25
            vp_assert(size_t(live) == v.size() + w.size(), "there are as many elements alive as the containers hold");
            valid(v, m);
            valid(w, n);
            vp_assert(memory == int(v.dynamic_allocated()) + int(w.dynamic_allocated()), "every block belongs to a container");
        }
        vp_reach("end");
    }
    vp_assert(live == 0 && memory == 0, "nothing is left");
}
// construction that fails
template <class V> void made()
{
    using T = typename V::value_type;
    const unsigned k = vp_param(0), how = vp_param(1);
    {
        std::vector<T> r;
        r.reserve(k);
        for(unsigned i = 0; i < k; ++i) r.emplace_back(value());
        V v;
        Model m;
        fill(v, m, k);
        const int outside = live;
        const long blocks = memory;
        fault = int(vp_pick(0, 9, "fails at"));
        faults = true;
        bool threw = false;
        try
        {
            if(how == 0) { V c(r.begin(), r.end()); }
            else if(how == 1) { V c(v); }
            else { V c(std::move(v)); }
        }
        catch(const boom&) { threw = true; }
        faults = false;
        if(threw) vp_reach("failed");
        if(how < 2 || threw) vp_assert(memory == blocks, "no block is left");
        if(how < 2) vp_assert(live == outside, "no element is left");
        valid(v, m);
        vp_assert(size_t(live) == k + v.size(), "there are as many elements alive as the containers hold");
        vp_reach("end");
    }
    vp_assert(live == 0 && memory == 0, "nothing is left");
}
template <class V> void fixed()
{
    const unsigned a = vp_param(0), first = vp_param(1);
    {
        V v;
        Model m;
        fill(v, m, a);
        for(unsigned d = 0; d < 2; ++d)
        {
            const unsigned op = d == 0 ? first : unsigned(vp_pick(0, FIXED_OPS - 1, "operation"));
            fault = d == 0 ? int(vp_pick(0, 9, "fails at")) : -1;
            faults = true;
            bool threw = false, applies = true;
            try { applies = apply_fixed(op, v, m); }
            catch(const boom&) { threw = true; }
            faults = false;
            if(!applies) { if(d) vp_assume(false); vp_reach("end"); return; }
            if(threw) vp_reach("failed");
            else same(v, m);
            vp_assert(size_t(live) == v.size(), "there are as many elements alive as the container holds");
            valid(v, m);
        }
        vp_reach("end");
    }
    vp_assert(live == 0, "nothing is left");
}
using T = elem<true>;
}
extern "C" void history_2() { history<small_vector<T, 2, alloc<T>>>(); }
extern "C" void history_1() { history<small_vector<T, 1, alloc<T>>>(); }
extern "C" void history_0() { history<small_vector<T, 0, alloc<T>>>(); }
extern "C" void made_2() { made<small_vector<T, 2, alloc<T>>>(); }
extern "C" void fixed_3() { fixed<fixed_vector<T, 3>>(); }
extern "C" void fixed_1() { fixed<fixed_vector<T, 1>>(); }
