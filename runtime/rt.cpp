// Models of the C and C++ runtime functions the analysed code calls, compiled to bitcode and
// linked with it for the symbolic encoding (the replay build uses the real library).
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <unordered_map>
#include <typeinfo>

// --------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

struct CowAccess { char *p; };
#define COW(x) reinterpret_cast<CowAccess *>(&(x))->p
static char *cowdup(const char *s, size_t n) { char *p = (char *)malloc(n + 1); if (n) memcpy(p, s, n); p[n] = 0; return p; }
#define DEFEXC(E, B)                                                                                \
    E::E(const string &s) : B(s) {}                                                                 \
    E::E(const char *s) : B(s) {}                                                                   \
    E::~E() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return COW(const_cast<__cow_string &>(_M_msg)); }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return COW(const_cast<__cow_string &>(_M_msg)); }
__cow_string::__cow_string() { COW(*this) = cowdup("", 0); }
__cow_string::__cow_string(const string &s) { COW(*this) = cowdup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { COW(*this) = cowdup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { const char *p = COW(const_cast<__cow_string &>(o)); COW(*this) = cowdup(p, strlen(p)); }
__cow_string::~__cow_string() { free(COW(*this)); }
DEFEXC(domain_error, logic_error)
DEFEXC(invalid_argument, logic_error)
DEFEXC(length_error, logic_error)
DEFEXC(out_of_range, logic_error)
DEFEXC(range_error, runtime_error)
DEFEXC(overflow_error, runtime_error)
DEFEXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
} // namespace std
extern "C" void __symrt_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }

// ------------------------------------------------------------------ lists
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    _M_prev->_M_next = f;
    _List_node_base *const t = _M_prev;
    _M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
// hashing policy: any sequence of bucket counts is allowed
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173};
    size_t r = 1;
    for (size_t p : pr) { r = p; if (p >= n) break; }
    _M_next_resize = (size_t)(r * (double)_M_max_load_factor);
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        double m = (double)(ne + ni) / _M_max_load_factor;
        if (m >= nb) {
            size_t w = (size_t)m + 1;
            if (w < nb * 2) w = nb * 2;
            return {true, _M_next_bkt(w)};
        }
        _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
    }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    // additive mixing: cheap to encode; the choice of hash function is not observable
    const unsigned char *c = (const unsigned char *)p;
    size_t h = seed + n;
    for (size_t i = 0; i < n; i++) h = h * 31 + c[i];
    return h;
}
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// -------------------------------------------------------- red-black trees
typedef _Rb_tree_node_base *NP;
static NP rbinc(NP x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else {
        NP y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static NP rbdec(NP x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else {
        NP y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
NP _Rb_tree_increment(NP x) noexcept { return rbinc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return rbinc(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) noexcept { return rbdec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return rbdec(const_cast<NP>(x)); }
static void rotl(NP const x, NP &root) {
    NP const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(NP const x, NP &root) {
    NP const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base &h) noexcept {
    NP &root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        NP const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            NP const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotr(xpp, root);
            }
        } else {
            NP const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base &h) noexcept {
    NP &root = h._M_parent; NP &lm = h._M_left; NP &rm = h._M_right;
    NP y = z, x = 0, xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else { NP m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
        if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else { NP m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                NP w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotl(xp, root);
                    break;
                }
            } else {
                NP w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotr(xp, root);
                    break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
} // namespace std
