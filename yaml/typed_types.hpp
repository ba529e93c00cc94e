// Configuration types declared with the library's macros, and the entry points of the typed layer.
// The entry points are instantiated in typed_sut.cpp (instrumented); the checks only declare them.
#pragma once
#include <algorithm>
#include <iomanip>
#include <limits>
#include <string_view>
#include "yaml-serializable.h"
#include <memory>
#include <string>
#include <vector>

// The history of hooks run while loading, one list per thread.
std::vector<std::string>*& hook_log();
struct HookOff { bool old; HookOff(); ~HookOff(); };
void hook(const std::string& s);

SERIALIZABLE_ENUM(Metal, steel, copper, gas_2)
SERIALIZABLE_ENUM(ShapeKind, box, ball, tube)

struct Leaf {
    int i = 7;
    double d = 0.5;
    bool b = false;
    std::string s = "preset";
    Metal k = Metal::copper;
    std::optional<double> od;
    std::optional<std::string> os;
    unsigned long u = 3;
    float f = 1.5f;
    long l = -2;
};
IMPL_YAML_SERIALIZABLE_FOR(Leaf, i, d, b, s, k, od, os, u, f, l)

struct Mid {
    Leaf leaf;
    std::vector<double> vd{1.0};
    std::vector<Leaf> vl;
    std::set<int> si;
    std::set<std::string> ss;
    std::set<Metal> sk;
    std::array<double, 3> ad{{1, 2, 3}};
    int ai[3] = {4, 5, 6};
    std::optional<Leaf> ol;
    std::vector<std::vector<int>> vvi;
    std::vector<std::string> vs;
    std::shared_ptr<Leaf> sp;
    std::vector<Metal> vk;
    std::vector<bool> vb;
    std::optional<std::vector<int>> ov;
};
IMPL_YAML_SERIALIZABLE_FOR(Mid, leaf, vd, vl, si, ss, sk, ad, ai, ol, vvi, vs, sp, vk, vb, ov)

// type discriminated family, with required fields and hooks
struct Shape : Yaml::TypeDiscriminated<Shape, ShapeKind>, Yaml::DerivedFields, Yaml::ValidatedYaml {
    virtual ~Shape() = default;
    std::string name = "anon";
    std::optional<double> weight;
    double twice = 0;
    void derive() { hook("Shape.derive " + name); twice = weight.value_or(1.0) * 2; }
    void validate() { hook("Shape.validate " + name); if (weight.has_value() && weight.value() < 0) throw Yaml::ConfigurationException("negative weight", "weight"); }
};
YAML_ADD_REQUIRED_FIELDS_FOR(Shape, type)
IMPL_YAML_SERIALIZABLE_FOR(Shape, type, name, weight)
struct Box : Shape::Register<Box, ShapeKind::box> {
    std::array<double, 3> size{{1, 1, 1}};
    void derive() { hook("Box.derive " + name); twice += 100; }
};
YAML_ADD_REQUIRED_FIELDS_FOR(Box, size)
IMPL_YAML_SERIALIZABLE_WITH_BASE(Box, Shape, size)
struct Ball : Shape::Register<Ball, ShapeKind::ball> {
    double radius = 1;
    Leaf inside;
    void validate() { hook("Ball.validate " + name); if (radius <= 0) throw Yaml::ConfigurationException("radius must be positive", "radius"); }
};
YAML_ADD_REQUIRED_FIELDS_FOR(Ball, radius)
IMPL_YAML_SERIALIZABLE_WITH_BASE(Ball, Shape, radius, inside)
struct Tube : Shape::Register<Tube, ShapeKind::tube> {
    std::vector<double> radii;
    std::vector<std::shared_ptr<Shape>> parts;
};
IMPL_YAML_SERIALIZABLE_WITH_BASE(Tube, Shape, radii, parts)

struct Event : Yaml::TypeDiscriminated<Event, int> {
    virtual ~Event() = default;
    double at = 0;
};
IMPL_YAML_SERIALIZABLE_FOR(Event, type, at)
struct Start : Event::Register<Start, 1> { std::string who = "x"; };
IMPL_YAML_SERIALIZABLE_WITH_BASE(Start, Event, who)
struct Stop : Event::Register<Stop, -4> { int code = 0; };
IMPL_YAML_SERIALIZABLE_WITH_BASE(Stop, Event, code)

// plain inheritance with virtual hooks at different levels
struct Parent : Yaml::DerivedFields, Yaml::ValidatedYaml {
    int pa = 1;
    int sum = 0;
    virtual ~Parent() = default;
    virtual void derive() { hook("Parent.derive"); sum += pa; }
    virtual void validate() { hook("Parent.validate"); if (pa > 1000000) throw Yaml::ConfigurationException("pa too big", "pa"); }
};
IMPL_YAML_SERIALIZABLE_FOR(Parent, pa)
struct Child : Parent {
    double cb = 2;
    void derive() { hook("Child.derive"); sum += 10; }
};
YAML_ADD_REQUIRED_FIELDS_FOR(Child, cb)
IMPL_YAML_SERIALIZABLE_WITH_BASE(Child, Parent, cb)
struct Grand : Child {
    std::string gc = "none";
    void validate() { hook("Grand.validate"); if (gc == "bad") throw Yaml::ConfigurationException("gc is bad", "gc"); }
};
IMPL_YAML_SERIALIZABLE_WITH_BASE(Grand, Child, gc)

struct Top {
    std::string title = "untitled";
    std::vector<std::shared_ptr<Shape>> shapes;
    Mid mid;
    std::shared_ptr<Shape> main;
    std::vector<Grand> people;
    std::optional<Child> kid;
    std::shared_ptr<Event> ev;
    std::vector<std::shared_ptr<Event>> evs;
};
YAML_ADD_REQUIRED_FIELDS_FOR(Top, title)
IMPL_YAML_SERIALIZABLE_FOR(Top, title, shapes, mid, main, people, kid, ev, evs)

struct Owner {  // unique ownership
    std::unique_ptr<Shape> shape;
    std::unique_ptr<Leaf> leaf;
    int n = 0;
};
IMPL_YAML_SERIALIZABLE_FOR(Owner, shape, leaf, n)

struct PartA { int n = 1; std::string name = "pa"; std::vector<int> list; Leaf sub; };
IMPL_YAML_SERIALIZABLE_FOR(PartA, n, name, list, sub)
struct PartB { double x = 2; std::string name = "pb"; std::optional<Metal> m; };
IMPL_YAML_SERIALIZABLE_FOR(PartB, x, name, m)

namespace sut {
template <typename T> std::string to_text(const T& v);
template <typename T> void to_node(const T& v, Yaml::Node& n);
// mode: 0 from_string, 1 from_string_strict, 2 from_file, 3 from_file_strict
template <typename T> T get(const std::string& s, int mode);
template <typename T> void into(const std::string& s, T& v, int mode);
void into2(const std::string& s, PartA& a, PartB& b, int mode);
std::string to_text2(const PartA& a, const PartB& b);
std::string apply(Shape& s, int combo, bool try_only, bool& handled);  // name of the handler that ran
std::string node_as(const std::string& text, const std::string& type, bool none, const std::string* dflt, bool seq);
}
