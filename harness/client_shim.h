// Forced into every client source: the client ends the process on errors; in
// the harness that becomes an exception, so an error can be told from a crash.
#include <stdlib.h>
#include <cstdlib>
[[noreturn]] void gp_client_abort();
#define abort() gp_client_abort()
