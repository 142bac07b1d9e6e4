#include "common.h"

#include <map>
#include <span>

#include <spdlog/spdlog.h>

#include "hpack/byte_reader.h"
#include "hpack/dynamic_table.h"
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
#include "hpack/int_decoder.h"
#include "hpack/int_encoder.h"

using namespace ion;

struct Dec {
    DynamicTable t;
    HeaderBlockDecoder d;
    explicit Dec(size_t m) : t(m), d(t) {}
};
struct Enc {
    DynamicTable t;
    HeaderBlockEncoder e;
    explicit Enc(size_t m) : t(m), e(t) {}
};
static std::map<int, std::unique_ptr<Dec>> decs;
static std::map<int, std::unique_ptr<Enc>> encs;
static std::map<int, std::unique_ptr<DynamicTable>> tabs;

static void dump(DynamicTable& t) {
    std::cout << " T " << t.size() << " " << t.max_size() << " " << t.count();
    for (size_t i = 0; i < t.count(); ++i) {
        auto h = t.get(i);
        std::cout << " " << hex(h.name) << ":" << hex(h.value);
    }
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        try {
            if (op == "di") {
                int prefix;
                std::string h;
                in >> prefix >> h;
                Exact x(unhex(h));
                ByteReader r(std::span<const uint8_t>(x.p.get(), x.n));
                auto v = IntegerDecoder::decode(r, static_cast<uint8_t>(prefix));
                if (v) {
                    size_t left = 0;
                    while (r.has_bytes(left + 1)) ++left;
                    std::cout << "ok " << *v << " " << x.n - left;
                } else {
                    std::cout << "err";
                }
            } else if (op == "ei") {
                uint32_t v;
                int prefix;
                in >> v >> prefix;
                try {
                    std::cout << hex(IntegerEncoder::encode(v, static_cast<uint8_t>(prefix)));
                } catch (const std::exception&) {
                    std::cout << "throw";
                }
            } else if (op == "nd") {
                int id;
                size_t m;
                in >> id >> m;
                decs[id] = std::make_unique<Dec>(m);
                std::cout << "ok";
            } else if (op == "ne") {
                int id;
                size_t m;
                in >> id >> m;
                encs[id] = std::make_unique<Enc>(m);
                std::cout << "ok";
            } else if (op == "nt") {
                int id;
                size_t m;
                in >> id >> m;
                tabs[id] = std::make_unique<DynamicTable>(m);
                std::cout << "ok";
            } else if (op == "d" || op == "dq") {
                int id;
                std::string h;
                in >> id >> h;
                Exact x(unhex(h));
                auto& d = *decs.at(id);
                auto r = d.d.decode(std::span<const uint8_t>(x.p.get(), x.n));
                if (r) {
                    std::cout << "ok";
                    for (auto& f : *r) std::cout << " " << hex(f.name) << ":" << hex(f.value);
                } else {
                    std::cout << "err";
                }
                if (op == "d") dump(d.t);
            } else if (op == "e") {
                int id;
                in >> id;
                std::vector<HttpHeader> hs;
                std::string n, v;
                while (in >> n >> v) hs.push_back(HttpHeader{str(n), str(v)});
                auto& e = *encs.at(id);
                auto b = e.e.encode(hs);
                std::cout << "ok " << hex(b);
                dump(e.t);
            } else if (op == "em") {
                int id;
                size_t m;
                in >> id >> m;
                encs.at(id)->e.set_max_table_size(m);
                std::cout << "ok";
            } else if (op == "ti") {
                int id;
                std::string n, v;
                in >> id >> n >> v;
                tabs.at(id)->insert(HttpHeader{str(n), str(v)});
                std::cout << "ok";
                dump(*tabs.at(id));
            } else if (op == "tm") {
                int id;
                size_t m;
                in >> id >> m;
                tabs.at(id)->set_max_table_size(m);
                std::cout << "ok";
                dump(*tabs.at(id));
            } else if (op == "tf") {
                int id;
                std::string n, v;
                in >> id >> n >> v;
                auto a = tabs.at(id)->find(HttpHeader{str(n), str(v)});
                auto b = tabs.at(id)->find_name(str(n));
                std::cout << "ok " << (a ? static_cast<long>(*a) : -1) << " " << (b ? static_cast<long>(*b) : -1);
            } else {
                std::cout << "badop";
            }
        } catch (const std::exception& e) {
            std::cout << "exception " << hex(std::string(e.what()));
        }
        std::cout << "\n" << std::flush;
    }
}
