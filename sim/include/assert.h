/* assert() for simulated builds: the outcome is decided by the simulator */
#undef assert
#ifdef __cplusplus
extern "C"
#endif
void __sim_assert_fail(const char* expr, const char* file, unsigned line);
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((e) ? (void)0 : __sim_assert_fail(#e, __FILE__, __LINE__))
#endif
