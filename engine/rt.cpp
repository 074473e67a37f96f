#include <list>
// Bodies for the parts of libstdc++ that live in the shared library and are reached by the
// code under test. Compiled to bitcode and linked with the harness.
#include <bits/c++config.h>
#include <new>
#include <stdexcept>
#include <string>
#include <cstring>
#include <cstdlib>
#include <typeinfo>
#include <variant>
#include <optional>
#include <functional>
#include <bits/stl_tree.h>
#include <unordered_map>
#include <bits/hash_bytes.h>

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

static char* dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if(this != &o) { free((void*)_M_p); _M_p = dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define RT_ERR(cls)                                                              \
    cls::cls(const string& s) : _M_msg(s) {}                                      \
    cls::cls(const char* s) : _M_msg(s, strlen(s)) {}                             \
    cls::cls(const cls& o) noexcept : exception(o), _M_msg(o._M_msg) {}           \
    cls& cls::operator=(const cls& o) noexcept { _M_msg = o._M_msg; return *this; } \
    cls::cls(cls&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}     \
    cls& cls::operator=(cls&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
    cls::~cls() noexcept {}                                                       \
    const char* cls::what() const noexcept { return _M_msg._M_p; }
RT_ERR(logic_error)
RT_ERR(runtime_error)
#define RT_SUB(cls, base)                        \
    cls::cls(const string& s) : base(s) {}        \
    cls::cls(const char* s) : base(s) {}          \
    cls::~cls() noexcept {}
RT_SUB(domain_error, logic_error)
RT_SUB(invalid_argument, logic_error)
RT_SUB(length_error, logic_error)
RT_SUB(out_of_range, logic_error)
RT_SUB(range_error, runtime_error)
RT_SUB(overflow_error, runtime_error)
RT_SUB(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
extern "C" void vp_rt_throw_bad_alloc() { throw bad_alloc(); }

// red-black tree: ordering only, no rebalancing (the shape is not observable)
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; } if(x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if(x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while(y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; // header stays red
    if(left) {
        p->_M_left = x;
        if(p == &h) { h._M_parent = x; h._M_right = x; }
        else if(p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if(p == h._M_right) h._M_right = x;
    }
}
// hash table growth policy
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    size_t h = seed ^ 1469598103934665603ull;
    for(size_t i = 0; i < n; i++) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ull; }
    return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while(b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if(ne + ni > _M_next_resize || nb < ne + ni) return {true, _M_next_bkt(ne + ni)};
    return {false, 0};
}
} // namespace __detail
} // namespace std
