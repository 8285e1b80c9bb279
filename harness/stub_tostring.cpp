// Stack_Cell::to_string() only feeds the trace (tracing is off in the harnesses that use this stub; C17 and C30
// check it with its real body).
#include <string>
extern "C" void stub_to_string(std::string *ret, const void *) __asm__("_ZNK10Stack_Cell9to_stringB5cxx11Ev");
extern "C" void stub_to_string(std::string *ret, const void *) { new (ret) std::string(); }
