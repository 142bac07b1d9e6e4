// the repository's trace id flag in a formatter
#include <spdlog/pattern_formatter.h>
#include <spdlog/spdlog.h>

#include "trace_id_flag.h"

std::string flagged(const spdlog::details::log_msg& m) {
    static auto f = [] {
        auto f = std::make_unique<spdlog::pattern_formatter>("", spdlog::pattern_time_type::local, "");
        f->add_flag<ion::app::TraceIdFlag>('*');
        f->set_pattern("%*%v");
        return f;
    }();
    spdlog::memory_buf_t b;
    f->clone()->format(m, b);
    return std::string(b.data(), b.size());
}
