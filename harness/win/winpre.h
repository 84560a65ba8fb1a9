/* Forced to the front of a translation unit: the generated code is compiled as
 * on Windows.  All system headers are read first, as the host's. */
#ifdef __cplusplus
# include <algorithm>
# include <cstdlib>
# include <cstring>
# include <cstdio>
# include <iostream>
# include <map>
# include <sstream>
# include <stdexcept>
# include <string>
# include <type_traits>
# include <vector>
# include <functional>
# include <memory>
#endif
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <wchar.h>
#include <dlfcn.h>
#include <link.h>
#undef __GLIBC__
#undef __GLIBC_MINOR__
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __unix__
#undef __unix
#undef unix
#define FK_PLATFORM
#ifdef FK_OTHER      /* another POSIX system: dladdr() only */
#elif defined(FK_BSD) /* dlinfo() and dladdr(), no namespaces */
# define __FreeBSD__ 14
#elif defined(FK_SUN) /* dlinfo() and dladdr(), namespaces */
# define __sun 1
#elif defined(FK_MACOS)
# undef __APPLE__
# define __APPLE__ 1
#elif defined(FK_ANDROID)
# undef __ANDROID__
# define __ANDROID__ 1
# define __linux__ 1
#elif defined(FK_AIX)
# define _AIX 1
# ifdef FK_AIX32
#  undef __LP64__
# elif defined(FK_AIXXL)
#  undef __LP64__
#  define __64BIT__ 1
# endif
# ifndef RTLD_MEMBER
#  define RTLD_MEMBER 0x40000
# endif
#else
# define _WIN32 1
# ifdef FK_MINGW
#  define __MINGW32__ 1
# endif
#endif
