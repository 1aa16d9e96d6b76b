// Bodies for the few libstdc++ support functions that are only available pre-compiled, so that the containers
// used by the code under test can be executed symbolically.  Same contracts as libstdc++'s.
#include <cstddef>
#include <cstdint>
#include <map>
#include <unordered_map>
#include <utility>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// Unbalanced insertion: observable order is the same, only the tree shape differs.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) h = h * 31 + c[i];
    return h;
}
namespace __detail {
// odd bucket counts are enough for correctness, and so is a cap (tables reserved for millions of entries stay affordable)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = n < 13 ? 13 : n > 2053 ? 2053 : (n | 1); _M_next_resize = (size_t)((float)r * _M_max_load_factor); return r; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > nb && nb < 2053) { size_t g = nb * 2; if (g < ne + ni) g = ne + ni; return {true, _M_next_bkt(g)}; }
    return {false, 0};
}
}
}
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1234567)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1234567)); }
} } }
// C library functions the code uses (or might reasonably use after an edit)
extern "C" {
div_t div(int a, int b) noexcept { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) noexcept { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
static int space_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long long num_(const char* s, char** e, int base, unsigned long long lim, int* neg, int* over) {
    const char* p = s; while (space_(*p)) p++;
    *neg = 0; *over = 0; if (*p == '-' || *p == '+') *neg = *p++ == '-';
    unsigned long long v = 0; int any = 0;
    for (;; p++) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= (base ? base : 10)) break;
        any = 1; if (v > (lim + *neg - d) / (base ? base : 10)) *over = 1; else v = v * (base ? base : 10) + d;
    }
    if (e) *e = (char*)(any ? p : s);
    return v;
}
static int errno_;
int* __errno_location() noexcept { return &errno_; }
long strtol(const char* s, char** e, int base) noexcept { int n, o; unsigned long long v = num_(s, e, base, 0x7fffffffffffffffull, &n, &o); if (o) { errno_ = 34; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char* s, char** e, int base) noexcept { return strtol(s, e, base); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
}
