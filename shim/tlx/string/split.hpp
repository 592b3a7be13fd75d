#pragma once
#include <string>
#include <vector>
namespace tlx {
static inline std::vector<std::string> split(const std::string& sep, const std::string& str) {
    std::vector<std::string> out;
    size_t pos = 0;
    if (sep.empty()) { out.push_back(str); return out; }
    while (true) {
        size_t nx = str.find(sep, pos);
        if (nx == std::string::npos) { out.push_back(str.substr(pos)); return out; }
        out.push_back(str.substr(pos, nx - pos));
        pos = nx + sep.size();
    }
}
static inline std::vector<std::string> split(char sep, const std::string& str) {
    return split(std::string(1, sep), str);
}
}
