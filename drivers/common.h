// shared by the replay drivers: line protocol on stdin/stdout, octets in hex ("-" is the empty string)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

inline std::vector<uint8_t> unhex(const std::string& s) {
    std::vector<uint8_t> out;
    if (s == "-") return out;
    auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    out.reserve(s.size() / 2);
    for (size_t i = 0; i + 1 < s.size(); i += 2) out.push_back(static_cast<uint8_t>(d(s[i]) * 16 + d(s[i + 1])));
    out.shrink_to_fit();
    return out;
}
template <class C>
inline std::string hex(const C& c) {
    static const char* k = "0123456789abcdef";
    std::string o;
    for (auto x : c) {
        auto b = static_cast<unsigned char>(x);
        o += k[b >> 4];
        o += k[b & 15];
    }
    return o.empty() ? "-" : o;
}
inline std::string str(const std::string& h) {
    auto v = unhex(h);
    return {v.begin(), v.end()};
}
// octets in an allocation of exactly their size, so that the sanitizer sees any access outside them
struct Exact {
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Exact(const std::vector<uint8_t>& v) : p(new uint8_t[v.size()]), n(v.size()) {
        if (n) std::memcpy(p.get(), v.data(), n);
    }
};
