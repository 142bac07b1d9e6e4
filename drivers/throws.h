// exceptions of many classes: "throw" (std::runtime_error), "throwint", "throw:KIND"
#pragma once
#include <cxxabi.h>

#include <any>
#include <filesystem>
#include <functional>
#include <future>
#include <ios>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>

struct OwnException : std::exception {
    const char* what() const noexcept override { return "own"; }
};
struct OwnThing {
    int x;
};

inline void throws(const std::string& b) {
    if (b == "throw") throw std::runtime_error("x");
    if (b == "throwint") throw 7;
    if (b == "throw:logic") throw std::logic_error("x");
    if (b == "throw:invalid") throw std::invalid_argument("x");
    if (b == "throw:range") throw std::out_of_range("x");
    if (b == "throw:length") throw std::length_error("x");
    if (b == "throw:domain") throw std::domain_error("x");
    if (b == "throw:overflow") throw std::overflow_error("x");
    if (b == "throw:system") throw std::system_error(std::make_error_code(std::errc::permission_denied), "x");
    if (b == "throw:fs") throw std::filesystem::filesystem_error("x", std::make_error_code(std::errc::no_such_file_or_directory));
    if (b == "throw:ios") throw std::ios_base::failure("x");
    if (b == "throw:alloc") throw std::bad_alloc();
    if (b == "throw:array") throw std::bad_array_new_length();
    if (b == "throw:cast") throw std::bad_any_cast();
    if (b == "throw:call") throw std::bad_function_call();
    if (b == "throw:optional") throw std::bad_optional_access();
    if (b == "throw:future") throw std::future_error(std::future_errc::broken_promise);
    if (b == "throw:exception") throw std::exception();
    if (b == "throw:own") throw OwnException();
    if (b == "throw:thing") throw OwnThing{1};
    if (b == "throw:string") throw std::string("x");
    if (b == "throw:chars") throw "x";
    if (b == "throw:code") throw std::make_error_code(std::errc::io_error);
}

// is the exception in flight the one that throws(b) throws?
inline bool same_thrown(const std::string& b) {
    const std::type_info* t = abi::__cxa_current_exception_type();
    try {
        throws(b);
    } catch (...) {
        return t && *t == *abi::__cxa_current_exception_type();
    }
    return false;
}

inline std::string thrown(long k) {
    static const char* const all[] = {"throw", "throwint", "throw:logic", "throw:range", "throw:system", "throw:alloc", "throw:exception", "throw:own", "throw:thing", "throw:string"};
    return all[k % 10];
}
