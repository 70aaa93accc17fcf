// Bitcode models of the few out-of-line libstdc++ functions the code under test reaches.
#include <cstddef>
#include <cstdint>
#include <new>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ios>
#include <istream>
#include <string>
#include <istream>
#include <ostream>
#include <bits/ostream_insert.h>
#include <string>
#include <stdexcept>
namespace std {
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_out_of_range_fmt(const char*, ...) { throw out_of_range(""); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_alloc() { throw bad_alloc(); }

// red-black tree as a plain (unbalanced) binary search tree: same iteration order
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base {
    _Rb_tree_color c;
    _Rb_tree_node_base *p, *l, *r;
};
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x)
{
    if (x->r) {
        x = x->r;
        while (x->l)
            x = x->l;
    } else {
        _Rb_tree_node_base* y = x->p;
        while (x == y->r) {
            x = y;
            y = y->p;
        }
        if (x->r != y)
            x = y;
    }
    return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x)
{
    if (x->c == _S_red && x->p->p == x)
        x = x->r;
    else if (x->l) {
        _Rb_tree_node_base* y = x->l;
        while (y->r)
            y = y->r;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->p;
        while (x == y->l) {
            x = y;
            y = y->p;
        }
        x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h)
{
    x->p = p;
    x->l = nullptr;
    x->r = nullptr;
    x->c = _S_black;
    if (left) {
        p->l = x;
        if (p == &h) {
            h.p = x;
            h.r = x;
        } else if (p == h.l)
            h.l = x;
    } else {
        p->r = x;
        if (p == h.r)
            h.r = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h)
{
    // neighbours first: the leftmost / rightmost pointers must stay right
    if (h.l == z)
        h.l = (h.r == z) ? &h : inc(z);
    if (h.r == z)
        h.r = (h.l == &h) ? &h : dec(z);
    _Rb_tree_node_base* rep;
    if (!z->l)
        rep = z->r;
    else if (!z->r)
        rep = z->l;
    else {
        _Rb_tree_node_base* y = z->r;
        while (y->l)
            y = y->l;
        if (y->p != z) {
            y->p->l = y->r;
            if (y->r)
                y->r->p = y->p;
            y->r = z->r;
            z->r->p = y;
        }
        y->l = z->l;
        z->l->p = y;
        rep = y;
    }
    if (rep)
        rep->p = z->p;
    if (h.p == z)
        h.p = rep;
    else if (z->p->l == z)
        z->p->l = rep;
    else
        z->p->r = rep;
    return z;
}
namespace __detail {
struct _Prime_rehash_policy {
    float _M_max_load_factor;
    mutable size_t _M_next_resize;
    size_t _M_next_bkt(size_t n) const;
    pair<bool, size_t> _M_need_rehash(size_t bkt, size_t elt, size_t ins) const;
};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 8123, 16411, 65537, 262147, 1048583};
    for (size_t p : pr)
        if (p >= n) {
            _M_next_resize = p;
            return p;
        }
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > bkt || bkt < 2)
        return {true, _M_next_bkt((elt + ins) * 2)};
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    size_t h = seed;
    for (size_t i = 0; i < n; i++)
        h = h * 31 + c[i];
    return h;
}
} // namespace std

// streams without locales
namespace std {
static const void* no_facet[64];
static const void* no_facets[16] = {nullptr, no_facet};
locale::locale() throw() : _M_impl((_Impl*)no_facets) {}
locale::locale(const locale&) throw() : _M_impl((_Impl*)no_facets) {}
size_t locale::id::_M_id() const throw() { return 0; }
locale::~locale() throw() {}
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(0), _M_word(nullptr), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {}
bool uncaught_exception() throw() { return false; }
locale::facet::~facet() {}
template <>
basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim)
{
    size_t n = 0;
    bool stop = false;
    istream::sentry ok(in, true);
    if (ok) {
        str.erase();
        for (;;) {
            const int c = in.rdbuf()->sbumpc();
            if (c == -1) {
                in.setstate(ios_base::eofbit);
                break;
            }
            stop = true;
            if ((char)c == delim)
                break;
            str.push_back(c);
            n++;
        }
    }
    if (!n && !stop)
        in.setstate(ios_base::failbit);
    return in;
}
} // namespace std

extern "C" {
static int sx_errno;
int* __errno_location() noexcept { return &sx_errno; }
unsigned long strtoul(const char* s, char** end, int) noexcept
{
    const char* p = s;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r'))
        p++;
    bool neg = false, any = false, over = false;
    if (*p == '-' || *p == '+')
        neg = *p++ == '-';
    unsigned long v = 0;
    for (; *p >= '0' && *p <= '9'; p++) {
        const unsigned d = *p - '0';
        if (v > (~0ul - d) / 10)
            over = true;
        v = v * 10 + d;
        any = true;
    }
    if (end)
        *end = const_cast<char*>(any ? p : s);
    if (over) {
        sx_errno = 34;
        return ~0ul;
    }
    return neg ? -v : v;
}
}

// time stands still: only statistics depend on it
extern "C" {
struct sx_pair {
    uint64_t a, b;
};
sx_pair sx_rdtsc() { return {0, 0}; }
struct sx_timeval {
    long s, u;
};
int gettimeofday(sx_timeval* t, void*)
{
    t->s = 0;
    t->u = 0;
    return 0;
}
}
template class std::basic_string<char>;
template std::ostream& std::ostream::_M_insert<unsigned long>(unsigned long);
template class std::basic_ostream<char>;
template std::ostream& std::__ostream_insert<char, std::char_traits<char>>(std::ostream&, const char*, long);
extern "C" {
__attribute__((no_builtin)) void* memchr(const void* s, int c, size_t n)
{
    const unsigned char* p = static_cast<const unsigned char*>(s);
    for (size_t i = 0; i < n; i++)
        if (p[i] == (unsigned char)c)
            return const_cast<unsigned char*>(p + i);
    return nullptr;
}
__attribute__((no_builtin)) size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
}
