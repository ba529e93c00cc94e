#include "dst.hpp"
int main(int c, char** v) { return dst::main_(c, v); }
