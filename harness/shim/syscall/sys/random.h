/* Configuration shim: a libc without getrandom(), so the raw system call is used. */
#undef USE_GLIBC
