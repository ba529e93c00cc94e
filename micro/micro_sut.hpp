// The stand-alone parts of one micromechanics application (chosen by the include path).
#pragma once
#include <string>
#include <vector>
namespace sut {
struct Args { std::string f, e, g, p; int m = 0, u = 0; };
void parse(int argc, char** argv, Args& a);
struct Writer;
Writer* make(int n1, int n2, int n3);
void open(Writer*, const char*);
void header(Writer*, const char*);
// type: i d f, or 'x' to give number type and precision by hand
void attribute(Writer*, const char* name, const char* type, char number, const char* loc);
void footer(Writer*);
void close(Writer*);
void destroy(Writer*);
}
