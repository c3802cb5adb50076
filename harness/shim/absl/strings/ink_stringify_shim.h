// Offline stand-in for the parts of abseil >= 20230125 that
// google/ink-stroke-modeler uses but the installed abseil (20220623) lacks:
// AbslStringify() support in StrFormat("%v"), Substitute() and StrCat().
// Only error texts and debug strings go through this code.
#ifndef INK_VERIF_ABSL_STRINGIFY_SHIM_H_
#define INK_VERIF_ABSL_STRINGIFY_SHIM_H_

#include <cstddef>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace ink_verif_shim {

struct Sink {
  std::string out;
  void Append(std::string_view s) { out.append(s.data(), s.size()); }
  void Append(size_t n, char c) { out.append(n, c); }
};

template <typename T>
concept HasStringify = requires(Sink& s, const T& t) { AbslStringify(s, t); };

template <typename T>
std::string ToV(const T& value) {
  if constexpr (HasStringify<T>) {
    Sink sink;
    AbslStringify(sink, value);
    return sink.out;
  } else if constexpr (std::is_same_v<T, bool>) {
    return value ? "true" : "false";
  } else if constexpr (std::is_same_v<T, char>) {
    return std::string(1, value);
  } else if constexpr (std::is_floating_point_v<T>) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "%g", static_cast<double>(value));
    return buf;
  } else if constexpr (std::is_unsigned_v<T>) {
    return std::to_string(static_cast<unsigned long long>(value));
  } else if constexpr (std::is_integral_v<T>) {
    return std::to_string(static_cast<long long>(value));
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<long long>(value));
  } else {
    return std::string(std::string_view(value));
  }
}

template <typename T>
std::string One(const std::string& spec, char conv, const T& value) {
  if (conv == 'v') return ToV(value);
  if constexpr (std::is_floating_point_v<T>) {
    if (std::string_view("fFeEgGaA").find(conv) != std::string_view::npos) {
      char buf[512];
      std::snprintf(buf, sizeof buf, (spec + conv).c_str(),
                    static_cast<double>(value));
      return buf;
    }
    return ToV(value);
  } else if constexpr (std::is_integral_v<T>) {
    if (std::string_view("diuxXo").find(conv) != std::string_view::npos) {
      char buf[128];
      std::snprintf(buf, sizeof buf, (spec + "ll" + conv).c_str(),
                    static_cast<long long>(value));
      return buf;
    }
    return ToV(value);
  } else {
    return ToV(value);
  }
}

inline void FormatRest(std::string& out, std::string_view fmt) {
  for (size_t i = 0; i < fmt.size(); ++i) {
    out.push_back(fmt[i]);
    if (fmt[i] == '%' && i + 1 < fmt.size() && fmt[i + 1] == '%') ++i;
  }
}

template <typename T, typename... Rest>
void FormatRest(std::string& out, std::string_view fmt, const T& v,
                const Rest&... rest) {
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%') {
      out.push_back(fmt[i]);
      continue;
    }
    if (i + 1 < fmt.size() && fmt[i + 1] == '%') {
      out.push_back('%');
      ++i;
      continue;
    }
    std::string spec = "%";
    ++i;
    while (i < fmt.size() &&
           std::string_view("0123456789.-+ #").find(fmt[i]) !=
               std::string_view::npos) {
      spec.push_back(fmt[i++]);
    }
    while (i < fmt.size() && std::string_view("lhzjtqL").find(fmt[i]) !=
                                 std::string_view::npos) {
      ++i;
    }
    if (i >= fmt.size()) return;
    out += One(spec, fmt[i], v);
    FormatRest(out, fmt.substr(i + 1), rest...);
    return;
  }
}

inline std::string SubstituteStrings(std::string_view fmt,
                                     const std::string* args, size_t n) {
  std::string out;
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] == '$' && i + 1 < fmt.size()) {
      char c = fmt[++i];
      if (c >= '0' && c <= '9' && static_cast<size_t>(c - '0') < n) {
        out += args[c - '0'];
      } else if (c == '$') {
        out.push_back('$');
      }
      continue;
    }
    out.push_back(fmt[i]);
  }
  return out;
}

}  // namespace ink_verif_shim
#endif
