// Lets the simulated program log the way the module's own C++ code does: without the interpreter lock.
#include <Python.h>
#include "logging/logging.h"
#include "sim.h"
using namespace riptide::logging;

extern "C"
{
    // one message; what: 0 plain, 1 null string argument, 2 bad format, 3 long
    void lg_log(const char * name, int level, int thread, int n, int what)
    {
        auto logger = get_logger(name);
        auto l = static_cast<loglevel>(level);
        switch (what)
        {
        case 1: { const char * p = nullptr; logger->log(l, "m {} {} {}", thread, n, p); break; }
        case 2: { std::string f = "m " + std::to_string(thread) + " " + std::to_string(n) + " {} {}"; logger->log(l, log_format(std::string_view(f)), 7); break; }
        case 3: { std::string p(5000, 'x'); logger->log(l, "m {} {} {}", thread, n, p); break; }
        default: logger->log(l, "m {} {} end", thread, n);
        }
    }
    int lg_enabled() { return get_service()->enabled(); }
    int lg_active() { return get_service()->active(); }
    // the end of the process: the interpreter goes first, then the service is destroyed with the module's statics
    void lg_exit()
    {
        Py_FinalizeEx();
        get_service()->disable();
        sim_finish("ok", "exit");
    }
}
