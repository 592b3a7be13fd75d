#pragma once
#include "tlx/string/split.hpp"
#include <string>
namespace tlx {
static inline bool starts_with(const std::string& s, const std::string& m) {
    return s.size() >= m.size() && s.compare(0, m.size(), m) == 0;
}
static inline bool ends_with(const std::string& s, const std::string& m) {
    return s.size() >= m.size() && s.compare(s.size() - m.size(), m.size(), m) == 0;
}
}
