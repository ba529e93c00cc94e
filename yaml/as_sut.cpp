// Value conversions of the YAML library, instantiated with instrumentation and patterned stack memory.
#include "as_sut.hpp"
namespace sut {
std::string as(const Yaml::Node& n, char type, const std::string* dflt) {
    char b[64];
    switch (type) {
    case 'i': { int v = dflt ? n.As<int>((int)strtol(dflt->c_str(), nullptr, 10)) : n.As<int>(); snprintf(b, sizeof b, "%d", v); return b; }
    case 'l': { long v = dflt ? n.As<long>(strtol(dflt->c_str(), nullptr, 10)) : n.As<long>(); snprintf(b, sizeof b, "%ld", v); return b; }
    case 'u': { size_t v = dflt ? n.As<size_t>(strtoul(dflt->c_str(), nullptr, 10)) : n.As<size_t>(); snprintf(b, sizeof b, "%zu", v); return b; }
    case 'd': { double v = dflt ? n.As<double>(strtod(dflt->c_str(), nullptr)) : n.As<double>(); snprintf(b, sizeof b, "%.17g", v); return b; }
    case 'f': { float v = dflt ? n.As<float>(strtof(dflt->c_str(), nullptr)) : n.As<float>(); snprintf(b, sizeof b, "%.9g", (double)v); return b; }
    case 'b': { bool v = dflt ? n.As<bool>(*dflt == "1") : n.As<bool>(); return v ? "1" : "0"; }
    default: return dflt ? n.As<std::string>(*dflt) : n.As<std::string>();
    }
}
}
