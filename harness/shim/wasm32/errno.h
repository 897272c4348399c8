#pragma once
extern int errno;
#define EINVAL 22
#define ENOSYS 38
#define EINTR 4
#define EIO 5
#define ENOMEM 12
#define EAGAIN 11
