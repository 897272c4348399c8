#ifdef NDEBUG
#define assert(x) ((void)0)
#else
void __assert_fail_w(void);
#define assert(x) ((x) ? (void)0 : __assert_fail_w())
#endif
