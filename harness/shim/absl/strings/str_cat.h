#ifndef INK_VERIF_SHIM_STR_CAT_H_
#define INK_VERIF_SHIM_STR_CAT_H_
#include_next "absl/strings/str_cat.h"
#include "absl/strings/ink_stringify_shim.h"
namespace absl {
template <typename... Args>
  requires(ink_verif_shim::HasStringify<Args> || ...)
std::string StrCat(const Args&... args) {
  std::string out;
  ((out += ink_verif_shim::ToV(args)), ...);
  return out;
}
}  // namespace absl
#endif
