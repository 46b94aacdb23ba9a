// Converts streams with the real reader and converters, as the client program does. Job file lines: format<TAB>input<TAB>output<TAB>maps
#include "hv.hpp"
#include <fstream>
#include <memory>
#include <callgrind_converter.hpp>
#include <chrome_trace_converter.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/make_unique.hpp>
using namespace HawkTracer;
int main(int argc, char** argv) {
    hv::Args a(argc, argv); std::ifstream in(a.str("jobs")); std::string line; unsigned n = 0;
    while (std::getline(in, line)) {
        std::vector<std::string> f; size_t s = 0; for (;;) { size_t e = line.find('\t', s); f.push_back(line.substr(s, e == std::string::npos ? e : e - s)); if (e == std::string::npos) break; s = e + 1; }
        std::unique_ptr<client::Converter> c; if (f[0] == "callgrind") c.reset(new client::CallgrindConverter); else c.reset(new client::ChromeTraceConverter);
        printf("JOB %u %s\n", n, f[1].c_str()); fflush(stdout);
        parser::KlassRegister reg; parser::ProtocolReader rd(&reg, parser::make_unique<parser::FileStream>(f[1]), true);
        if (!c->init(f[2])) { hv::violation("init-failed", "%s", f[2].c_str()); continue; }
        if (f.size() > 3 && !f[3].empty()) c->set_tracepoint_map(f[3]);
        rd.register_events_listener([&](const parser::Event& e) { c->process_event(e); });
        if (!rd.start()) { hv::violation("start-failed", "%s", f[1].c_str()); continue; }
        rd.wait_for_complete(); rd.stop(); c->stop(); n++; hv::stat("converted");
    }
    hv::done(); return 0;
}
