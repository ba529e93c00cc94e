#pragma once
#include "Yaml.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
namespace sut { std::string as(const Yaml::Node& n, char type, const std::string* dflt); }
