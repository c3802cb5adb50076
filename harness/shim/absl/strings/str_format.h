#ifndef INK_VERIF_SHIM_STR_FORMAT_H_
#define INK_VERIF_SHIM_STR_FORMAT_H_
#include_next "absl/strings/str_format.h"
#include "absl/strings/ink_stringify_shim.h"
namespace absl {
template <typename... Args>
std::string InkVerifStrFormat(std::string_view format, const Args&... args) {
  std::string out;
  ink_verif_shim::FormatRest(out, format, args...);
  return out;
}
}  // namespace absl
// The installed overload checks the format at compile time and rejects %v, so
// it cannot merely be overloaded.
#define StrFormat InkVerifStrFormat
#endif
