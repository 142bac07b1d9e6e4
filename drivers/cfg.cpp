// Configuration: command line (CLI11), certificates (OpenSSL) and server construction, all real.
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <sys/socket.h>
#include <unistd.h>
#include <CLI/App.hpp>
#include <CLI/Config.hpp>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#define private public
#include "http2_server.h"
#undef private
#include "args.h"
#include "transports/tcp_transport.h"
#include "transports/tls_transport.h"
#include "common.h"

static void pem_pair(const std::string& crt, const std::string& key) {
    EVP_PKEY* k = EVP_EC_gen("P-256");
    X509* x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -3600);
    X509_gmtime_adj(X509_getm_notAfter(x), 36000);
    X509_set_pubkey(x, k);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)"t", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, k, EVP_sha256());
    FILE* f = fopen(crt.c_str(), "w");
    PEM_write_X509(f, x);
    fclose(f);
    f = fopen(key.c_str(), "w");
    PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr);
    fclose(f);
    X509_free(x);
    EVP_PKEY_free(k);
}

static int listening() {
    int n = 0;
    for (int fd = 3; fd < 256; fd++) {
        int v = 0;
        socklen_t l = sizeof v;
        if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) == 0 && v) n++;
    }
    return n;
}

static std::string h(const std::string& s) { return s.empty() ? "-" : hex(std::vector<uint8_t>(s.begin(), s.end())); }

static std::string unhexs(const std::string& s) {
    if (s == "-") return "";
    auto v = unhex(s);
    return std::string(v.begin(), v.end());
}

static std::string config(const ion::ServerConfiguration& c) {
    return std::string(c.cleartext ? "1" : "0") + " " + (c.cert_path ? "set:" + h(c.cert_path->string()) : "unset") + " " + (c.key_path ? "set:" + h(c.key_path->string()) : "unset");
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op, out;
        in >> op;
        if (op == "pair") {
            std::string a, b;
            in >> a >> b;
            pem_pair(unhexs(a), unhexs(b));
            out = "ok";
        } else if (op == "args") {
            // args <env cert> <env key> argv...
            std::string c, k, w;
            in >> c >> k;
            if (c == "-") unsetenv("ION_TLS_CERT_PATH"); else setenv("ION_TLS_CERT_PATH", unhexs(c).c_str(), 1);
            if (k == "-") unsetenv("ION_TLS_KEY_PATH"); else setenv("ION_TLS_KEY_PATH", unhexs(k).c_str(), 1);
            std::vector<std::string> v{"ion"};
            while (in >> w) v.push_back(unhexs(w));
            std::vector<char*> p;
            for (auto& s : v) p.push_back(s.data());
            CLI::App app{"ion"};
            auto args = Args::register_opts(app);
            try {
                app.parse((int)p.size(), p.data());
                out = "ok " + config(args.to_server_config()) + " port " + std::to_string(args.port) + " static";
                for (auto& s : args.static_map) out += " " + h(s);
                out += " log " + h(args.access_log_path) + " 404 " + h(args.status_404_file_path) + " test " + std::to_string(args.under_test) + " page " + std::to_string(args.status_page) +
                       " level " + args.log_level;
            } catch (const CLI::ParseError& e) {
                out = "refused";
            }
        } else if (op == "server") {
            // server cleartext cert key ("unset", or hex)
            int clear;
            std::string c, k;
            in >> clear >> c >> k;
            ion::ServerConfiguration cfg{};
            cfg.cleartext = clear;
            if (c != "unset") cfg.cert_path = unhexs(c);
            if (k != "unset") cfg.key_path = unhexs(k);
            try {
                ion::Http2Server s(cfg);
                out = "made";
                out += " listening " + std::to_string(listening());
                for (int n = 0; n < 2; n++) {
                    int fd[2];
                    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) abort();
                    auto t = s.create_transport(ion::SocketFd(fd[0]));
                    out += dynamic_cast<ion::TlsTransport*>(t.get()) ? " tls" : dynamic_cast<ion::TcpTransport*>(t.get()) ? " tcp" : " none";
                    close(fd[1]);
                }
            } catch (const std::exception& e) {
                out = "threw listening " + std::to_string(listening());
            }
        } else {
            out = "?";
        }
        std::cout << out << std::endl;
    }
}
