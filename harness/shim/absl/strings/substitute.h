#ifndef INK_VERIF_SHIM_SUBSTITUTE_H_
#define INK_VERIF_SHIM_SUBSTITUTE_H_
#include_next "absl/strings/substitute.h"
#include "absl/strings/ink_stringify_shim.h"
namespace absl {
template <typename... Args>
  requires(ink_verif_shim::HasStringify<Args> || ...)
std::string Substitute(const char* format, const Args&... args) {
  const std::string strings[] = {ink_verif_shim::ToV(args)...};
  return ink_verif_shim::SubstituteStrings(format, strings, sizeof...(Args));
}
}  // namespace absl
#endif
