#undef USE_GLIBC
