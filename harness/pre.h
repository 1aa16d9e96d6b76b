// Forced first include for the symbolic build only: makes std::string & co. instantiate from headers, and replaces the
// string streams (which live pre-compiled inside libstdc++) by small ones with the same contract.  Counterexamples are
// replayed against a native build that uses the real library.
#ifndef VP_PRE_H
#define VP_PRE_H
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cctype>
#include <chrono>
#include <climits>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace std {
struct vp_ios {
    bool fail_ = false, eof_ = false;
    explicit operator bool() const { return !fail_; }
    bool operator!() const { return fail_; }
    bool fail() const { return fail_; }
    bool bad() const { return false; }
    bool eof() const { return eof_; }
    bool good() const { return !fail_ && !eof_; }
    void clear() { fail_ = eof_ = false; }
};
struct vp_ostream : virtual vp_ios {
    std::string out_; int w_ = 0; char fill_ = ' '; bool sink_ = false;
    void put_(const char* p, size_t n) {
        if (sink_) return;
        for (int i = (int)n; i < w_; i++) out_.push_back(fill_);
        w_ = 0;
        for (size_t i = 0; i < n; i++) out_.push_back(p[i]);
    }
    void num_(bool neg, unsigned long long v) {
        char b[24]; int n = 24;
        do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v);
        if (neg) b[--n] = '-';
        put_(b + n, 24 - n);
    }
    vp_ostream& operator<<(const char* s) { size_t n = 0; while (s[n]) n++; put_(s, n); return *this; }
    vp_ostream& operator<<(const std::string& s) { put_(s.data(), s.size()); return *this; }
    vp_ostream& operator<<(char c) { put_(&c, 1); return *this; }
    vp_ostream& operator<<(unsigned char c) { put_((char*)&c, 1); return *this; }
    vp_ostream& operator<<(signed char c) { put_((char*)&c, 1); return *this; }
    vp_ostream& operator<<(bool v) { num_(false, v); return *this; }
    vp_ostream& operator<<(short v) { return *this << (long long)v; }
    vp_ostream& operator<<(int v) { return *this << (long long)v; }
    vp_ostream& operator<<(long v) { return *this << (long long)v; }
    vp_ostream& operator<<(long long v) { num_(v < 0, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v); return *this; }
    vp_ostream& operator<<(unsigned short v) { num_(false, v); return *this; }
    vp_ostream& operator<<(unsigned v) { num_(false, v); return *this; }
    vp_ostream& operator<<(unsigned long v) { num_(false, v); return *this; }
    vp_ostream& operator<<(unsigned long long v) { num_(false, v); return *this; }
    vp_ostream& operator<<(double) { __builtin_trap(); return *this; }
    vp_ostream& operator<<(std::_Setw w) { w_ = w._M_n; return *this; }
    vp_ostream& operator<<(std::_Setfill<char> f) { fill_ = f._M_c; return *this; }
    vp_ostream& operator<<(std::basic_ostream<char>& (*)(std::basic_ostream<char>&)) { put_("\n", 1); return *this; }
    vp_ostream& put(char c) { if (!sink_) out_.push_back(c); return *this; }
    vp_ostream& write(const char* p, long n) { w_ = 0; put_(p, (size_t)n); return *this; }
    vp_ostream& flush() { return *this; }
};
struct vp_istream : virtual vp_ios {
    std::string in_; size_t at_ = 0;
    virtual std::string& src_() { return in_; }
    static bool ws_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
    bool sentry_(bool skip) {
        if (fail_ || eof_) { fail_ = true; return false; }
        std::string& s = src_();
        if (skip) { while (at_ < s.size() && ws_(s[at_])) at_++; if (at_ >= s.size()) { eof_ = fail_ = true; return false; } }
        return true;
    }
    vp_istream& get(char& c) { if (!sentry_(false)) return *this; if (at_ >= src_().size()) { eof_ = fail_ = true; return *this; } c = src_()[at_++]; return *this; }
    int get() { char c; get(c); return fail_ ? -1 : (unsigned char)c; }
    int peek() { if (!good()) return -1; if (at_ >= src_().size()) { eof_ = true; return -1; } return (unsigned char)src_()[at_]; }
    vp_istream& unget() { eof_ = false; if (!fail_ && at_) at_--; else fail_ = true; return *this; }
    vp_istream& ignore(long n = 1, int d = -1) { if (!sentry_(false)) return *this; while (n-- > 0) { if (at_ >= src_().size()) { eof_ = true; break; } if ((unsigned char)src_()[at_++] == d) break; } return *this; }
    vp_istream& operator>>(char& c) { if (sentry_(true)) c = src_()[at_++]; return *this; }
    vp_istream& operator>>(std::string& r) {
        if (!sentry_(true)) return *this;
        std::string& s = src_(); r.clear();
        while (at_ < s.size() && !ws_(s[at_])) r.push_back(s[at_++]);
        if (at_ >= s.size()) eof_ = true;
        return *this;
    }
    template <class T> vp_istream& int_(T& v) {
        if (!sentry_(true)) return *this;
        std::string& s = src_(); bool neg = false, any = false, over = false;
        if (at_ < s.size() && (s[at_] == '-' || s[at_] == '+')) neg = s[at_++] == '-';
        unsigned long long a = 0, lim = (unsigned long long)std::numeric_limits<T>::max() + (neg && std::is_signed<T>::value);
        while (at_ < s.size() && s[at_] >= '0' && s[at_] <= '9') { any = true; unsigned d = s[at_++] - '0'; if (a > (lim - d) / 10) over = true; else a = a * 10 + d; }
        if (at_ >= s.size()) eof_ = true;
        if (!any) { v = 0; fail_ = true; }
        else if (over) { v = neg && std::is_signed<T>::value ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); fail_ = true; }
        else v = neg ? (T)(0 - a) : (T)a;
        return *this;
    }
    vp_istream& operator>>(short& v) { return int_(v); }
    vp_istream& operator>>(int& v) { return int_(v); }
    vp_istream& operator>>(long& v) { return int_(v); }
    vp_istream& operator>>(long long& v) { return int_(v); }
    vp_istream& operator>>(unsigned short& v) { return int_(v); }
    vp_istream& operator>>(unsigned& v) { return int_(v); }
    vp_istream& operator>>(unsigned long& v) { return int_(v); }
    vp_istream& operator>>(unsigned long long& v) { return int_(v); }
    vp_istream& operator>>(std::basic_istream<char>& (*)(std::basic_istream<char>&)) { std::string& s = src_(); while (at_ < s.size() && ws_(s[at_])) at_++; if (at_ >= s.size()) eof_ = true; return *this; }
    virtual ~vp_istream() {}
};
inline vp_istream& getline(vp_istream& i, std::string& r, char d = '\n') {
    if (!i.sentry_(false)) return i;
    std::string& s = i.src_(); r.clear(); bool any = false;
    while (i.at_ < s.size()) { char c = s[i.at_++]; any = true; if (c == d) return i; r.push_back(c); }
    i.eof_ = true; if (!any) i.fail_ = true;
    return i;
}
struct vp_istringstream : vp_istream {
    vp_istringstream() {}
    explicit vp_istringstream(const std::string& s) { in_ = s; }
    std::string str() const { return in_; }
    void str(const std::string& s) { in_ = s; at_ = 0; }
};
struct vp_ostringstream : vp_ostream {
    vp_ostringstream() {}
    std::string str() const { return out_; }
    void str(const std::string& s) { out_ = s; }
};
struct vp_stringstream : vp_istream, vp_ostream {
    vp_stringstream() {}
    explicit vp_stringstream(const std::string& s) { out_ = s; }
    std::string& src_() override { return out_; }
    std::string str() const { return out_; }
    void str(const std::string& s) { out_ = s; at_ = 0; }
};
struct vp_ifstream : vp_istream { // files are outside the symbolic world
    vp_ifstream() { fail_ = true; }
    explicit vp_ifstream(const std::string&) { fail_ = true; }
    explicit vp_ifstream(const char*) { fail_ = true; }
};
struct vp_null : vp_ostream { vp_null() { sink_ = true; } };
inline vp_null vp_cout, vp_cerr;
}
#define ostream vp_ostream
#define istream vp_istream
#define ifstream vp_ifstream
#define istringstream vp_istringstream
#define ostringstream vp_ostringstream
#define stringstream vp_stringstream
#define cout vp_cout
#define cerr vp_cerr
#endif
