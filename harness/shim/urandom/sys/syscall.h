/* Configuration shim: kernel headers without SYS_getrandom, so the device file is used. */
#include_next <sys/syscall.h>
#undef SYS_getrandom
