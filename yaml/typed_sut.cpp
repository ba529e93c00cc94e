// Instantiates the typed layer of the YAML library for the types of typed_types.hpp.
#include "typed_types.hpp"

namespace sut {
template <typename T> std::string to_text(const T& v) { return Yaml::to_string(v); }
template <typename T> void to_node(const T& v, Yaml::Node& n) { Yaml::serialize(v, n); }
template <typename T> T get(const std::string& s, int mode) {
    switch (mode) {
    case 0: return Yaml::from_string<T>(s);
    case 1: return Yaml::from_string_strict<T>(s);
    case 2: return Yaml::from_file<T>(s);
    default: return Yaml::from_file_strict<T>(s);
    }
}
template <typename T> void into(const std::string& s, T& v, int mode) {
    switch (mode) {
    case 0: Yaml::from_string(s, v); break;
    case 1: Yaml::from_string_strict(s, v); break;
    case 2: Yaml::from_file(s, v); break;
    default: Yaml::from_file_strict(s, v); break;
    }
}
#define INST(T) template std::string to_text<T>(const T&); template void to_node<T>(const T&, Yaml::Node&); \
    template T get<T>(const std::string&, int); template void into<T>(const std::string&, T&, int);
INST(Leaf) INST(Mid) INST(Top) INST(Owner) INST(Grand) INST(std::shared_ptr<Shape>) INST(std::vector<std::shared_ptr<Event>>)
INST(std::vector<Leaf>) INST(PartA) INST(PartB)

void into2(const std::string& s, PartA& a, PartB& b, int mode) {
    switch (mode) {
    case 0: Yaml::from_string(s, a, b); break;
    case 1: Yaml::from_string_strict(s, a, b); break;
    case 2: Yaml::from_file(s, a, b); break;
    default: Yaml::from_file_strict(s, a, b); break;
    }
}
std::string to_text2(const PartA& a, const PartB& b) { return Yaml::to_string(a, b); }

std::string apply(Shape& s, int combo, bool try_only, bool& handled) {
    std::string ran;
    auto box = [&](Box& x) { ran += "box " + x.name; };
    auto boxp = [&](Box* x) { ran += "boxp " + x->name; };
    auto ball = [&](Ball& x) { ran += "ball " + x.name; };
    auto ballp = [&](Ball* x) { ran += "ballp " + x->name; };
    auto tube = [&](Tube& x) { ran += "tube " + x.name; };
    auto shape = [&](Shape& x) { ran += "shape " + x.name; };
    auto shapep = [&](Shape* x) { ran += "shapep " + x->name; };
    auto any = [&]() { ran += "any"; };
    handled = true;
    try {
        if (try_only) {
            switch (combo) {
            case 0: handled = s.try_apply(box, ball, tube); break;
            case 1: handled = s.try_apply(tube, shape); break;
            case 2: handled = s.try_apply(ballp, boxp); break;
            case 3: handled = s.try_apply(ball, any); break;
            case 4: handled = s.try_apply(shapep, box); break;
            case 5: handled = s.try_apply(box); break;
            case 6: handled = s.try_apply(tube, ball, boxp, shape, any); break;
            default: handled = s.try_apply(any, box); break;
            }
        } else {
            switch (combo) {
            case 0: s.apply(box, ball, tube); break;
            case 1: s.apply(tube, shape); break;
            case 2: s.apply(ballp, boxp); break;
            case 3: s.apply(ball, any); break;
            case 4: s.apply(shapep, box); break;
            case 5: s.apply(box); break;
            case 6: s.apply(tube, ball, boxp, shape, any); break;
            default: s.apply(any, box); break;
            }
        }
    } catch (const std::runtime_error&) { handled = false; }
    return ran;
}
}  // namespace sut
