// Minimal stand-in for the opentelemetry-cpp API used by /repo (the library is not installed in this sandbox).
// It has the signatures the sources need; spans are recorded for the real-code layer of the tracing property.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace opentelemetry {
namespace verif {
// recording: one line per event; off unless a driver asks for it
inline bool recording = false;
inline std::vector<std::string> events;
inline int next_span = 0;
inline void event(const std::string& e) {
    if (recording) events.push_back(e);
}
inline std::string hex(std::string_view s) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o.empty() ? "-" : o;
}
}  // namespace verif
namespace nostd {
template <class T>
class shared_ptr {
   public:
    shared_ptr() = default;
    explicit shared_ptr(T* p) : p_(p) {}
    template <class U>
    shared_ptr(std::shared_ptr<U> p) : p_(std::move(p)) {}
    T* operator->() const { return p_.get(); }
    T& operator*() const { return *p_; }
    T* get() const { return p_.get(); }
    explicit operator bool() const { return static_cast<bool>(p_); }

   private:
    std::shared_ptr<T> p_;
};
using string_view = std::string_view;
template <class T, std::size_t N = std::dynamic_extent>
using span = std::span<T, N>;
}  // namespace nostd
namespace trace {
class TraceId {
   public:
    static constexpr int kSize = 16;
    explicit TraceId(int n = 0) : n_(n) {}
    bool IsValid() const noexcept { return n_ > 0; }
    bool operator==(const TraceId& o) const noexcept { return n_ == o.n_; }
    bool operator!=(const TraceId& o) const noexcept { return n_ != o.n_; }
    void ToLowerBase16(nostd::span<char, 32> s) const noexcept {
        for (int i = 0; i < 32; ++i) s[i] = "0123456789abcdef"[(n_ + i) % 16];
    }

   private:
    int n_;
};
class SpanContext {
   public:
    explicit SpanContext(int n = 0) : n_(n) {}
    bool IsValid() const noexcept { return n_ > 0; }
    TraceId trace_id() const noexcept { return TraceId(n_); }

   private:
    int n_;
};
class Span {
   public:
    explicit Span(int id = 0) : id_(id) {}
    virtual ~Span() { End(); }
    // the next span lives where the last one was
    static void* operator new(std::size_t n) {
        if (!spare()) return ::operator new(n);
        return std::exchange(spare(), nullptr);
    }
    static void operator delete(void* p) noexcept { ::operator delete(std::exchange(spare(), p)); }
    template <class V>
    void SetAttribute(nostd::string_view k, const V& v) noexcept {
        std::string s;
        if constexpr (std::is_arithmetic_v<V>) s = std::to_string(v);
        else s = std::string(std::string_view(v));
        if (!ended_) verif::event("attr " + std::to_string(id_) + " " + std::string(k) + " " + verif::hex(s));
    }
    void End() noexcept {
        if (id_ && !ended_) verif::event("end " + std::to_string(id_));
        ended_ = true;
    }
    SpanContext GetContext() const noexcept { return SpanContext(id_); }
    int id() const { return id_; }

   private:
    static void*& spare() {
        static void* p = nullptr;
        return p;
    }
    int id_;
    bool ended_ = false;
};
}  // namespace trace
namespace verif {
inline std::vector<nostd::shared_ptr<trace::Span>> current;
}
namespace trace {
class Scope {
   public:
    explicit Scope(const nostd::shared_ptr<Span>& s) : s_(s), mine_(true) { verif::current.push_back(s); }
    Scope(Scope&& o) noexcept : s_(o.s_), mine_(o.mine_) { o.mine_ = false; }
    Scope(const Scope&) = delete;
    ~Scope() {
        if (!mine_) return;
        for (std::size_t i = verif::current.size(); i-- > 0;)
            if (verif::current[i].get() == s_.get()) {
                verif::current.erase(verif::current.begin() + static_cast<std::ptrdiff_t>(i));
                break;
            }
    }

   private:
    nostd::shared_ptr<Span> s_;
    bool mine_;
};
class Tracer {
   public:
    virtual ~Tracer() = default;
    nostd::shared_ptr<Span> StartSpan(nostd::string_view n) noexcept {
        int id = verif::recording ? ++verif::next_span : 0;
        verif::event("start " + std::to_string(id) + " " + std::string(n));
        return nostd::shared_ptr<Span>(new Span(id));
    }
    static Scope WithActiveSpan(nostd::shared_ptr<Span>& s) noexcept { return Scope(s); }
    static nostd::shared_ptr<Span> GetCurrentSpan() noexcept {
        return verif::current.empty() ? nostd::shared_ptr<Span>(new Span) : verif::current.back();
    }
};
}  // namespace trace
}  // namespace opentelemetry
