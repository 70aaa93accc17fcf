// Streams over byte arrays, without the locales of the library.
#pragma once
#include <cstdlib>
#include <cstring>
#include <istream>
#include <ostream>
#include <streambuf>
#include <vector>
typedef std::vector<uint8_t> Bytes;
class Mem : public std::streambuf {
  public:
    Bytes b;
    size_t at = 0;
    Mem() {}
    explicit Mem(const Bytes& x) : b(x) {}

  protected:
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        size_t c = std::min<size_t>(n, b.size() - at);
        if (c)
            std::memcpy(s, b.data() + at, c);
        at += c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        const size_t o = b.size();
        b.resize(o + n);
        if (n)
            std::memcpy(b.data() + o, s, n);
        return n;
    }
    int_type underflow() override
    {
        return at < b.size() ? b[at] : traits_type::eof();
    }
    int_type uflow() override
    {
        return at < b.size() ? b[at++] : traits_type::eof();
    }
    int_type overflow(int_type c) override
    {
        b.push_back(c);
        return c;
    }
};
#ifdef __clang__
// the decimal conversion of the library, spelled out
struct Decimal : public std::num_put<char> {
    Decimal() : std::num_put<char>(1) {}
    iter_type put_u(iter_type o, unsigned long long v) const
    {
        char d[24];
        unsigned n = 0;
        do {
            d[n++] = '0' + v % 10;
            v /= 10;
        } while (v);
        while (n) {
            *o = d[--n];
            ++o;
        }
        return o;
    }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long v) const override { return put_u(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long long v) const override { return put_u(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, long v) const override
    {
        if (v < 0) {
            *o = '-';
            ++o;
            return put_u(o, -(unsigned long long)v);
        }
        return put_u(o, v);
    }
    iter_type do_put(iter_type o, std::ios_base&, char, long long v) const override
    {
        if (v < 0) {
            *o = '-';
            ++o;
            return put_u(o, -(unsigned long long)v);
        }
        return put_u(o, v);
    }
};
template <class Tag, typename Tag::type M> struct Open {
    friend typename Tag::type get(Tag) { return M; }
};
struct WidenOk {
    typedef char std::ctype<char>::*type;
    friend type get(WidenOk);
};
struct Widen {
    typedef char (std::ctype<char>::*type)[256];
    friend type get(Widen);
};
template struct Open<WidenOk, &std::ctype<char>::_M_widen_ok>;
template struct Open<Widen, &std::ctype<char>::_M_widen>;
static inline const std::ctype<char>* plain_ctype()
{
    auto* c = (std::ctype<char>*)calloc(1, sizeof(std::ctype<char>));
    for (unsigned i = 0; i < 256; i++)
        (c->*get(Widen()))[i] = i;
    c->*get(WidenOk()) = 1;
    return c;
}
#endif
template <class S> struct Plain : public S {
    explicit Plain(std::streambuf* b) : S(b)
    {
#ifdef __clang__
        this->_M_num_put = new Decimal;
        this->_M_ctype = plain_ctype();
#endif
    }
};
typedef Plain<std::istream> In;
typedef Plain<std::ostream> Out;
