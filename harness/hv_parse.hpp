// Runs the real parser over bytes in memory and renders what it reports canonically.
#pragma once
#include "hv_decode.hpp"
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/stream.hpp>

namespace hv {
namespace hp = HawkTracer::parser;
struct MemStream : hp::Stream {
    const std::vector<uint8_t>* d; size_t pos = 0; bool over = false; std::atomic<uint64_t>* reads;
    MemStream(const std::vector<uint8_t>* v, std::atomic<uint64_t>* r = nullptr) : d(v), reads(r) {}
    int read_byte() override { if (reads) reads->fetch_add(1, std::memory_order_relaxed); return pos < d->size() ? (*d)[pos++] : -1; }
    bool read_data(char* b, size_t n) override {
        if (reads) reads->fetch_add(1, std::memory_order_relaxed);
        if (d->size() - pos < n) { size_t k = d->size() - pos; if (k) memcpy(b, d->data() + pos, k); pos = d->size(); return false; }
        if (n) memcpy(b, d->data() + pos, n);
        pos += n; return true;
    }
    bool is_continuous() override { return false; }
};
inline std::string pval(const hp::Event::Value& v) {
    char b[64];
    switch (v.field->get_type_id()) {
    case hp::FieldTypeId::UINT8: snprintf(b, sizeof b, "u8:%u", v.value.f_UINT8); return b;
    case hp::FieldTypeId::INT8: snprintf(b, sizeof b, "i8:%d", v.value.f_INT8); return b;
    case hp::FieldTypeId::UINT16: snprintf(b, sizeof b, "u16:%u", v.value.f_UINT16); return b;
    case hp::FieldTypeId::INT16: snprintf(b, sizeof b, "i16:%d", v.value.f_INT16); return b;
    case hp::FieldTypeId::UINT32: snprintf(b, sizeof b, "u32:%u", v.value.f_UINT32); return b;
    case hp::FieldTypeId::INT32: snprintf(b, sizeof b, "i32:%d", v.value.f_INT32); return b;
    case hp::FieldTypeId::UINT64: snprintf(b, sizeof b, "u64:%" PRIu64, v.value.f_UINT64); return b;
    case hp::FieldTypeId::INT64: snprintf(b, sizeof b, "i64:%" PRId64, v.value.f_INT64); return b;
    case hp::FieldTypeId::STRING: return "s:" + esc(v.value.f_STRING ? v.value.f_STRING : "(null)");
    case hp::FieldTypeId::POINTER: return "p";
    default: return "?";
    }
}
inline std::string pevent(const hp::Event& e, const std::string& as = "") {
    std::map<std::string, std::string> m;
    for (auto& v : e.get_values()) {
        if (!v.second.field) { m[v.first] = "(no field)"; continue; }
        if (v.second.field->get_type_id() == hp::FieldTypeId::STRUCT) m[v.first] = v.second.value.f_EVENT ? pevent(*v.second.value.f_EVENT, v.second.field->get_type_name()) : "(null event)";
        else m[v.first] = pval(v.second);
    }
    std::string nm = e.get_klass() ? e.get_klass()->get_name() : "(no class)";
    if (!as.empty() && as != nm) nm += "!=" + as;
    return nm + "{" + join(m) + "}";
}
struct Parsed { std::vector<std::string> events; std::vector<uint64_t> ts; };
// Parses to completion; the events as reported, in order.
inline Parsed parse_bytes(const std::vector<uint8_t>& d, bool flat, std::function<void(const hp::Event&)> extra = nullptr, hp::KlassRegister* reg = nullptr) {
    Parsed out; hp::KlassRegister own; hp::KlassRegister& kr = reg ? *reg : own;
    {
        hp::ProtocolReader r(&kr, std::unique_ptr<hp::Stream>(new MemStream(&d)), flat);
        r.register_events_listener([&](const hp::Event& e) { out.events.push_back(flat ? pevent(e) : strip_known_base(pevent(e))); out.ts.push_back(e.get_timestamp()); if (extra) extra(e); });
        if (!r.start()) violation("start-failed", "reader on a memory stream did not start");
        r.wait_for_complete();
    }
    return out;
}
} // namespace hv
