// The generated tracing schemas call flatbuffers::GenText, which the packaged
// flatbuffers only has under the name GenerateText.
#ifndef VERIF_SHIM_FLATBUFFERS_IDL_H_
#define VERIF_SHIM_FLATBUFFERS_IDL_H_
#include_next "flatbuffers/idl.h"
namespace flatbuffers {
inline const char* GenText(const Parser& parser, const void* flatbuffer,
                           std::string* text) {
  return GenerateText(parser, flatbuffer, text) ? nullptr : "GenText failed";
}
}  // namespace flatbuffers
#endif
