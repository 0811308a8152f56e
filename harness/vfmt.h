#pragma once
#include <string>
#define TINYOPT_LOG(...) do { } while (0);
namespace vf_fmt { template <class... A> inline std::string format(const char*, A&&...) { return std::string(); } }
#define TINYOPT_FORMAT_NS vf_fmt
#define TINYOPT_NO_FORMATTERS 1
