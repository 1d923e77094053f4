// Analysis-only stand-in for spdlog: keeps the one entry point the runtime's
// error path uses as an external call, so that third-party formatting code is
// not part of the analysed program.
#pragma once
#include <array>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
namespace spdlog {
void error(std::string const &);
void warn(std::string const &);
void info(std::string const &);
void debug(std::string const &);
void critical(std::string const &);
template <typename... A> void error(char const *, A &&...);
template <typename... A> void warn(char const *, A &&...);
template <typename... A> void info(char const *, A &&...);
template <typename... A> void debug(char const *, A &&...);
} // namespace spdlog
