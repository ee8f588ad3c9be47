// What single parts of the library need from the rest of it.
#include "core/base.h"
bool has_deprecated_argmatcher(const char*) { return false; }
