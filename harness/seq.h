// Element histories shared by the container harnesses.
#pragma once
#include "vp.h"
#include <list>
#include <new>
#include <stdexcept>
#include <utility>
#include <vector>
#include <papilio/container.hpp>
namespace seq
{
inline int live;         // elements alive
inline long memory;      // blocks not released
inline int fault = -1;   // throw at this copy, move, assignment or allocation; never if negative
inline bool faults;      // count them at all
struct boom {};
inline void step() { if(!faults) return; if(fault == 0) { fault = -1; throw boom(); } if(fault > 0) --fault; }
// An element that knows where it lives and whether it is alive.
template <bool Throws> struct elem
{
    static constexpr uint32_t ALIVE = 0x600dbeef;
    uint32_t state = ALIVE;
    int v = 0;
    const elem* self = this;
    void ok() const { vp_assert(state == ALIVE && self == this, "an element is used where it was constructed, while it is alive"); }
    elem() { ++live; }
    elem(int x) : v(x) { ++live; }
    elem(int x, int y) : v(x ^ y) { ++live; }
    elem(const elem& o) noexcept(!Throws) : v(o.v) { o.ok(); if constexpr(Throws) step(); ++live; }
    elem(elem&& o) noexcept(!Throws) : v(o.v) { o.ok(); if constexpr(Throws) step(); o.v = -1; ++live; }
    elem& operator=(const elem& o) noexcept(!Throws) { ok(); o.ok(); if constexpr(Throws) step(); v = o.v; return *this; }
    elem& operator=(elem&& o) noexcept(!Throws) { ok(); o.ok(); if constexpr(Throws) step(); int x = o.v; o.v = -1; v = x; return *this; }
    ~elem() { ok(); state = 0; self = nullptr; --live; }
};
// An allocator that counts its blocks and checks their sizes.
template <class T> struct alloc
{
    using value_type = T;
    alloc() = default;
    template <class U> alloc(const alloc<U>&) noexcept {}
    T* allocate(size_t n)
    {
        step();
        ++memory;
        auto* p = static_cast<size_t*>(::operator new(n * sizeof(T) + 16));
        p[0] = n;
        return reinterpret_cast<T*>(p + 2);
    }
    void deallocate(T* t, size_t n) noexcept
    {
        auto* p = reinterpret_cast<size_t*>(t) - 2;
        vp_assert(p[0] == n, "a block is released with the size it was allocated with");
        --memory;
        ::operator delete(p);
    }
    bool operator==(const alloc&) const { return true; }
};
using Model = std::vector<int>;
template <class V> void same(const V& v, const Model& m)
{
    vp_assert(v.size() == m.size() && v.empty() == m.empty(), "the size is that of the model");
    if(v.size() != m.size()) return;
    bool ok = true;
    for(size_t i = 0; i < m.size(); ++i) { v[i].ok(); ok = vp_and(ok, v[i].v == m[i]); }
    vp_assert(ok, "the elements are those of the model");
    vp_assert(v.capacity() >= v.size() && size_t(v.end() - v.begin()) == m.size(), "the capacity is at least the size");
    for(size_t i = 0; i < m.size(); ++i) vp_assert(&v.at(i) == &v.begin()[i], "checked access gives the element");
    if(!m.empty()) vp_assert(&v.front() == &v[0] && &v.back() == &v[m.size() - 1], "front and back are the first and last elements");
    const size_t i = vp_any<size_t>("beyond");
    vp_assume(i >= m.size());
    bool threw = false;
    try { (void)v.at(i); }
    catch(const std::out_of_range&) { threw = true; }
    vp_assert(threw, "checked access beyond the size throws");
}
inline int value() { return vp_any<int>("value"); }
inline constexpr unsigned OPS = 24;
// one operation on v (and w), and on their models; false if it does not apply
template <class V> bool apply(unsigned op, V& v, Model& m, V& w, Model& n)
{
    using T = typename V::value_type;
    const unsigned size = unsigned(m.size());
    auto pos = [&](unsigned most) { return vp_pick(0, most, "position"); };
    switch(op)
    {
    case 0: { T t(value()); v.push_back(t); vp_assert(t.v == v.back().v, "the argument is not changed"); m.push_back(t.v); break; }
    case 1: { int x = value(); v.push_back(T(x)); m.push_back(x); break; }
    case 2: { int x = value(), y = value(); auto& r = v.emplace_back(x, y); vp_assert(&r == &v.back(), "emplace_back returns the new element"); m.push_back(x ^ y); break; }
    case 3: { if(!size) return false; unsigned i = pos(size - 1); int x = m[i]; v.push_back(v[i]); m.push_back(x); break; } // an element of its own
    case 4: { unsigned i = pos(size); T t(value()); auto it = v.insert(v.begin() + i, t); vp_assert(it == v.begin() + i, "insert returns the position of the new element"); m.insert(m.begin() + i, t.v); break; }
    case 5: { unsigned i = pos(size); int x = value(); auto it = v.insert(v.cbegin() + i, T(x)); vp_assert(it == v.begin() + i, "insert returns the position of the new element"); m.insert(m.begin() + i, x); break; }
    case 6: { unsigned i = pos(size); int x = value(), y = value(); auto it = v.emplace(v.begin() + i, x, y); vp_assert(it == v.begin() + i, "emplace returns the position of the new element"); m.insert(m.begin() + i, x ^ y); break; }
    case 7: { if(!size) return false; unsigned i = pos(size), j = pos(size - 1); int x = m[j]; v.insert(v.begin() + i, v[j]); m.insert(m.begin() + i, x); break; }
    case 8: { if(!size) return false; v.pop_back(); m.pop_back(); break; }
    case 9: { unsigned k = pos(3); std::vector<T> r; Model q; for(unsigned i = 0; i < k; ++i) { r.emplace_back(value()); q.push_back(r.back().v); } v.append_range(r); m.insert(m.end(), q.begin(), q.end()); break; }
    case 10: { unsigned k = pos(3); std::list<T> r; for(unsigned i = 0; i < k; ++i) { r.emplace_back(value()); m.push_back(r.back().v); } v.append_range(r); break; }
    case 11: { unsigned k = pos(5); T t(value()); v.resize(k, t); m.resize(k, t.v); break; }
    case 12: { unsigned k = pos(5); v.resize(k); m.resize(k, 0); break; }
    case 13: { if(!size) return false; unsigned k = size + pos(3), j = pos(size - 1); int x = m[j]; v.resize(k, v[j]); m.resize(k, x); break; }
    case 14: { unsigned k = pos(6); v.reserve(k); vp_assert(v.capacity() >= k, "there is room for as many elements as were reserved"); break; }
    case 15: { v.shrink_to_fit(); vp_assert(v.capacity() <= (size > V::static_capacity() ? size : V::static_capacity()) && v.dynamic_allocated() == (size > V::static_capacity()), "shrinking gives up what is not needed"); break; }
    case 16: { unsigned k = pos(3); std::vector<T> r; m.clear(); for(unsigned i = 0; i < k; ++i) { r.emplace_back(value()); m.push_back(r.back().v); } if(vp_bool("range")) v.assign_range(r); else v.assign(r.begin(), r.end()); break; }
    case 17: { v.clear(); m.clear(); break; }
    case 18: { V c(v); same(c, m); T* p = v.data(); for(unsigned i = 0; i < size; ++i) vp_assert(&c[i] != p + i, "a copy has elements of its own"); v.swap(c); break; }
    case 19: { V c(std::move(v)); vp_assert(v.empty(), "a moved small_vector is empty"); same(c, m); v = std::move(c); vp_assert(c.empty(), "a moved small_vector is empty"); break; }
    case 20: { v.swap(w); m.swap(n); break; }
    case 21: { v = w; m = n; break; }
    case 22: { v = std::move(w); m = n; n.clear(); break; }
    case 23: { auto& u = v; if(vp_bool("swap")) { using std::swap; swap(v, u); } else v = u; break; }
    default: return false;
    }
    return true;
}
template <class V> void fill(V& v, Model& m, unsigned n)
{
    for(unsigned i = 0; i < n; ++i) { int x = value(); v.emplace_back(x); m.push_back(x); }
}
// one operation on a fixed_vector; room says whether it has to fit
template <class V> bool apply_fixed(unsigned op, V& v, Model& m)
{
    using T = typename V::value_type;
    const unsigned size = unsigned(m.size());
    const bool full = size == V::max_size();
    auto pos = [&](unsigned most) { return vp_pick(0, most, "position"); };
    auto add = [&](auto&& f)
    {
        try { f(); }
        catch(const std::length_error&)
        {
            vp_assert(full, "only a full fixed_vector refuses an element");
            same(v, m);
            return false;
        }
        vp_assert(!full, "a full fixed_vector refuses an element");
        return true;
    };
    switch(op)
    {
    case 0: { T t(value()); if(add([&] { v.push_back(t); })) m.push_back(t.v); break; }
    case 1: { int x = value(); T t(x); if(add([&] { v.push_back(std::move(t)); })) m.push_back(x); else vp_assert(t.v == x, "a refused element is not changed"); break; }
    case 2: { int x = value(), y = value(); if(add([&] { auto& r = v.emplace_back(x, y); vp_assert(&r == &v.back(), "emplace_back returns the new element"); })) m.push_back(x ^ y); break; }
    case 3: { if(!size) return false; unsigned i = unsigned(pos(size - 1)); int x = m[i]; if(add([&] { v.push_back(v[i]); })) m.push_back(x); break; }
    case 4: { unsigned i = unsigned(pos(size)); T t(value()); if(add([&] { auto it = v.insert(v.begin() + i, t); vp_assert(it == v.begin() + i, "insert returns the position of the new element"); })) m.insert(m.begin() + i, t.v); break; }
    case 5: { unsigned i = unsigned(pos(size)); int x = value(); T t(x); if(add([&] { v.insert(v.cbegin() + i, std::move(t)); })) m.insert(m.begin() + i, x); else vp_assert(t.v == x, "a refused element is not changed"); break; }
    case 6: { unsigned i = unsigned(pos(size)); int x = value(), y = value(); if(add([&] { v.emplace(v.begin() + i, x, y); })) m.insert(m.begin() + i, x ^ y); break; }
    case 7: { if(!size) return false; unsigned i = unsigned(pos(size)), j = unsigned(pos(size - 1)); int x = m[j]; if(add([&] { v.insert(v.begin() + i, v[j]); })) m.insert(m.begin() + i, x); break; }
    case 8: { if(!size) return false; v.pop_back(); m.pop_back(); break; }
    case 9: { v.clear(); m.clear(); break; }
    case 10: { V c(v); same(c, m); same(v, m); break; }
    case 11: { V c(std::move(v)); same(c, m); v.clear(); m.clear(); break; }
    case 12:
    {
        unsigned k = unsigned(pos(unsigned(V::max_size()) + 1));
        T t(value());
        bool threw = false;
        try { V c(k, t); same(c, Model(k, t.v)); }
        catch(const std::length_error&) { threw = true; }
        vp_assert(threw == (k > V::max_size()), "a fixed_vector has no more elements than fit");
        break;
    }
    default: return false;
    }
    return true;
}
inline constexpr unsigned FIXED_OPS = 13;
}
