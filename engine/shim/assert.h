/* assert() is an obligation: a failure is reported, never ignored. */
#ifndef VERIF_SHIM_ASSERT
#define VERIF_SHIM_ASSERT
namespace verif { [[noreturn]] void assert_fail(const char*, const char*, int); }
#endif
#undef assert
#define assert(e) ((e) ? (void)0 : ::verif::assert_fail(#e, __FILE__, __LINE__))
#ifndef static_assert
#endif
