// Forced first in the concrete build: assertions throw instead of aborting.
#pragma once
namespace vp
{
[[noreturn]] void eigenAssertFailed(const char * expr, const char * file, long line);
}
#define eigen_assert(x)                                                   \
  do                                                                      \
  {                                                                       \
    if(!(x)) ::vp::eigenAssertFailed(#x, __FILE__, __LINE__);              \
  } while(false)
