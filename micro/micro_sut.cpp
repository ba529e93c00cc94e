#include "micro_sut.hpp"
#include "XdmfUniformGridWriter.h"
#include "command_line_args.h"
namespace sut {
void parse(int argc, char** argv, Args& a) {
    CommandLineArgs c;
    c.parse_command_line(argc, argv);
    a.f = c.input_filename; a.m = c.micro_filetype; a.e = c.EulerAnglesFullPath; a.g = c.FeatureIdsFullPath; a.p = c.PhaseIdsFullPath; a.u = c.EulerAnglesUnit;
}
struct Writer { XdmfUniformGridWriter w; Writer(int a, int b, int c) : w(a, b, c) {} };
Writer* make(int a, int b, int c) { return new Writer(a, b, c); }
void open(Writer* w, const char* f) { w->w.open_file(f); }
void header(Writer* w, const char* n) { w->w.write_header(n); }
void attribute(Writer* w, const char* name, const char* type, char number, const char* loc) {
    std::string nt, pr;
    if (number == 'i') w->w.deduce_attribute_number_type((int*)nullptr, nt, pr);
    else if (number == 'f') w->w.deduce_attribute_number_type((float*)nullptr, nt, pr);
    else w->w.deduce_attribute_number_type((double*)nullptr, nt, pr);
    w->w.write_attribute(name, type, nt.c_str(), pr.c_str(), loc);
}
void footer(Writer* w) { w->w.write_footer(); }
void close(Writer* w) { w->w.close_file(); }
void destroy(Writer* w) { delete w; }
}
