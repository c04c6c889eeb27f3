// assert() inside the extension module becomes an exception
#include <stdexcept>
#include <string>
namespace verif {
[[noreturn]] void assert_fail(const char* e, const char* f, int l);
void assert_fail(const char* e, const char* f, int l) { throw std::logic_error(std::string("assertion `") + e + "' failed at " + f + ":" + std::to_string(l)); }
}
