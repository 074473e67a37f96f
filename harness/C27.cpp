#include "seq.h"
#include <map>
#include <string>
using namespace papilio;
using namespace seq;
namespace
{
template <class V> void vector()
{
    const unsigned a = vp_param(0), first = vp_param(1), depth = vp_param(2);
    {
        V v;
        Model m;
        fill(v, m, a);
        for(unsigned d = 0; d < depth; ++d)
            if(!apply_fixed(d == 0 ? first : unsigned(vp_pick(0, FIXED_OPS - 1, "operation")), v, m)) { if(d) vp_assume(false); break; }
        same(v, m);
        vp_assert(v.capacity() == V::max_size(), "the capacity is fixed");
        vp_reach("end");
    }
    vp_assert(live == 0, "nothing is left");
}
using T = elem<false>;
// a model: keys and values in the order of insertion
template <class K> struct Dict
{
    K keys[8];
    int vals[8];
    unsigned n = 0;
    int index(const K& k) const
    {
        for(unsigned i = 0; i < n; ++i) if(keys[i] == k) return int(i);
        return -1;
    }
};
template <class M, class K> void same_map(const M& f, M& g, const Dict<K>& d)
{
    vp_assert(f.size() == d.n && f.empty() == (d.n == 0), "a map has as many elements as keys were inserted");
    if(f.size() != d.n) return;
    const typename M::key_compare less{};
    for(unsigned i = 0; i + 1 < d.n; ++i) vp_assert(less(f.begin()[i].first, f.begin()[i + 1].first), "the keys are sorted and different");
    for(unsigned i = 0; i < d.n; ++i)
    {
        auto it = f.find(d.keys[i]);
        vp_assert(it != f.end() && it->first == d.keys[i] && it->second.v == d.vals[i], "a key gives its value");
        vp_assert(g.find(d.keys[i]) == it && f.contains(d.keys[i]) && &f.at(d.keys[i]) == &it->second && &g.at(d.keys[i]) == &it->second, "every kind of lookup finds it");
        vp_assert(f.lower_bound(d.keys[i]) == it && g.lower_bound(d.keys[i]) == it, "the lower bound of a key is its element");
    }
}
template <class M, class K> void absent(const M& f, M& g, const Dict<K>& d, const K& k)
{
    vp_assume(d.index(k) < 0);
    vp_assert(f.find(k) == f.end() && g.find(k) == g.end() && !f.contains(k), "an absent key is not found");
    bool threw = false;
    try { (void)f.at(k); }
    catch(const std::out_of_range&) { threw = true; }
    vp_assert(threw, "checked access to an absent key throws");
    threw = false;
    try { (void)g.at(k); }
    catch(const std::out_of_range&) { threw = true; }
    vp_assert(threw, "checked access to an absent key throws");
    auto lb = f.lower_bound(k);
    const typename M::key_compare less{};
    vp_assert((lb == f.begin() || less((lb - 1)->first, k)) && (lb == f.end() || less(k, lb->first)), "the lower bound separates smaller and larger keys");
}
inline void sym_key(int& k) { k = vp_any<int>("key"); }
inline void sym_key(std::string& k)
{
    k.clear();
    unsigned n = unsigned(vp_pick(0, 1, "length"));
    for(unsigned i = 0; i < n; ++i) k.push_back(char(vp_num<unsigned char>("char")));
}
template <class M, class K> void map()
{
    const unsigned n = vp_param(0), ops = vp_param(1);
    {
        M f;
        Dict<K> d;
        for(unsigned i = 0; i < n; ++i) // distinct keys in any order
        {
            K k;
            sym_key(k);
            vp_assume(d.index(k) < 0);
            int x = value();
            auto r = f.insert_or_assign(k, x);
            vp_assert(r.second && r.first != f.end() && r.first->first == k && r.first->second.v == x, "inserting a new key gives its element");
            d.keys[d.n] = k;
            d.vals[d.n++] = x;
        }
        for(unsigned o = 0; o < ops; ++o)
        {
            const unsigned op = unsigned(vp_pick(0, 5, "operation"));
            K k;
            const bool own = d.n && vp_bool("own");
            int at;
            if(own) { at = int(vp_pick(0, d.n - 1, "which")); k = d.keys[at]; }
            else { sym_key(k); at = d.index(k); }
            const bool room = d.n < M::max_size();
            std::pair<typename M::iterator, bool> r;
            bool threw = false;
            int x = value(), y = value(), want = x;
            try
            {
                if(op == 0) { T t(x); r = f.insert_or_assign(k, t); }
                else if(op == 1) r = f.insert_or_assign(k, T(x));
                else if(op == 2) r = f.try_emplace(k, x);
                else if(op == 3) { r = f.try_emplace(k, x, y); want = x ^ y; }
                else if(op == 4) { r = f.try_emplace(k); want = 0; }
                else // a value of its own
                {
                    if(!d.n) vp_assume(false);
                    const unsigned j = unsigned(vp_pick(0, d.n - 1, "value of"));
                    want = d.vals[j];
                    r = f.insert_or_assign(k, f.at(d.keys[j]));
                }
            }
            catch(const std::length_error&) { threw = true; }
            vp_assert(threw == (at < 0 && !room), "only a full map refuses a new key");
            if(threw) { vp_reach("full"); continue; }
            vp_assert(r.second == (at < 0), "it is reported whether the key is new");
            const bool assigns = op < 2 || op == 5;
            if(at < 0) { d.keys[d.n] = k; d.vals[d.n++] = want; }
            else if(assigns) d.vals[at] = want;
            vp_assert(r.first != f.end() && r.first->first == k && r.first->second.v == d.vals[at < 0 ? d.n - 1 : unsigned(at)], "the element is returned");
        }
        same_map(std::as_const(f), f, d);
        M copy(f);
        same_map(std::as_const(copy), copy, d);
        K k;
        sym_key(k);
        absent(std::as_const(f), f, d, k);
        vp_reach("end");
    }
    vp_assert(live == 0, "nothing is left");
}
// keys of another type
void transparent()
{
    const unsigned n = vp_param(0);
    fixed_flat_map<std::string, int, 3> f;
    std::string ks[3];
    for(unsigned i = 0; i < n; ++i) { sym_key(ks[i]); f.insert_or_assign(ks[i], int(i)); }
    std::string q;
    sym_key(q);
    const auto& c = f;
    auto a = f.find(q);
    vp_assert(f.find(std::string_view(q)) == a && c.find(std::string_view(q)) == a && c.contains(std::string_view(q)) == (a != f.end()) && f.lower_bound(std::string_view(q)) == f.lower_bound(q) && c.lower_bound(std::string_view(q)) == c.lower_bound(q), "a key of another type is looked up the same");
    vp_reach("end");
}
template <unsigned N> using IMap = fixed_flat_map<int, T, N>;
}
extern "C" void vector_3() { vector<fixed_vector<T, 3>>(); }
extern "C" void vector_4() { vector<fixed_vector<T, 4>>(); }
extern "C" void vector_1() { vector<fixed_vector<T, 1>>(); }
extern "C" void vector_0() { vector<fixed_vector<T, 0>>(); }
extern "C" void map_int_0() { map<IMap<0>, int>(); }
extern "C" void map_int_1() { map<IMap<1>, int>(); }
extern "C" void map_int_3() { map<IMap<3>, int>(); }
extern "C" void map_int_5() { map<IMap<5>, int>(); }
extern "C" void map_greater_3() { map<fixed_flat_map<int, T, 3, std::greater<int>>, int>(); }
extern "C" void map_string_3() { map<fixed_flat_map<std::string, T, 3>, std::string>(); }
extern "C" void transparent_0() { transparent(); }
