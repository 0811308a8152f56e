#pragma once
// Text formatting and output are replaced by stand-ins that evaluate their arguments and produce nothing.
#include <format>
#include <iostream>
#include <sstream>
#include <string>
#define TINYOPT_LOG(...) do { vf_log::print(__VA_ARGS__); } while (0);
namespace vf_log {
template <class... A> inline void print(const char *, A &&...) {}
template <class... A> inline std::string format(const char *, A &&...) { return std::string(); }
}
#define TINYOPT_FORMAT_NS vf_log
#define TINYOPT_NO_FORMATTERS 1
namespace std {
struct vf_stream {
  template <class T> vf_stream &operator<<(const T &) { return *this; }
  std::string str() const { return std::string(); }
};
}  // namespace std
#define ostringstream vf_stream
