// Minimal stand-in for tlx/logger.hpp (the tlx submodule is not available
// offline). LOG1/LOGC/sLOG1 print to stdout when VP_LOG_PRINT is defined (the
// CLI builds), otherwise every statement is swallowed. Expressions streamed to
// an enabled log are evaluated in both modes, as with tlx; LOG obeys `debug`.
#pragma once
#include <deque>
#include <iostream>
#include <map>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vpshim {
template <class T, class = void> struct streamable : std::false_type { };
template <class T> struct streamable<T, std::void_t<decltype(
    std::declval<std::ostream&>() << std::declval<const T&>())> > : std::true_type { };

class Sink {
 public:
    explicit Sink(bool spaces = false) : spaces_(spaces) { }
    ~Sink() {
#ifdef VP_LOG_PRINT
        ss_ << "\n";
        std::string s = ss_.str();
        std::cout << s << std::flush;
#endif
    }
    template <class T> Sink& operator << (const T& v) {
#ifdef VP_LOG_PRINT
        if (spaces_ && !first_) ss_ << ' ';
        first_ = false;
        if constexpr (streamable<T>::value) ss_ << v; else ss_ << "<obj>";
#else
        (void)v;
#endif
        return *this;
    }
 private:
    bool spaces_, first_ = true;
#ifdef VP_LOG_PRINT
    std::ostringstream ss_;
#endif
};
}  // namespace vpshim

#define LOGC(cond) !(cond) ? (void)0 : vpshim_void() & ::vpshim::Sink(false)
#define sLOGC(cond) !(cond) ? (void)0 : vpshim_void() & ::vpshim::Sink(true)
struct vpshim_void { void operator & (::vpshim::Sink&) { } void operator & (::vpshim::Sink&&) { } };
#define LOG LOGC(debug)
#define LOG0 LOGC(false)
#define LOG1 LOGC(true)
#define sLOG sLOGC(debug)
#define sLOG0 sLOGC(false)
#define sLOG1 sLOGC(true)
