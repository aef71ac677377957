#pragma once
#include <sys/types.h>
enum { CCP_POSIX_TO_WIN_A = 0, CCP_POSIX_TO_WIN_W = 1, CCP_ABSOLUTE = 0, CCP_RELATIVE = 0x100 };
enum { CW_SYNC_WINENV = 1 };
extern "C" ssize_t cygwin_conv_path(unsigned what, const void *from, void *to, size_t size);
extern "C" unsigned long cygwin_internal(int op, ...);
