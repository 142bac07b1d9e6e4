// the application's signal handler, for the driver that links it
#include <memory>

#include "http2_server.h"
#include "signal_handler.h"

static std::unique_ptr<SignalHandler> handler;
void attach_signals(ion::Http2Server& s) { handler.reset(new SignalHandler(SignalHandler::setup(s))); }
bool attach_again(ion::Http2Server& s) {
    try {
        auto h = SignalHandler::setup(s);
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
void detach_signals() { handler.reset(); }
