#ifndef FK_TCHAR_H
#define FK_TCHAR_H
#include <windows.h>
#include <string.h>
#include <wchar.h>
#ifdef _UNICODE
typedef wchar_t TCHAR;
# define _T(x) L##x
# define _TEXT(x) L##x
# define _tcschr wcschr
# define _tcsrchr wcsrchr
# define _tcsdup wcsdup
# define _tcsstr wcsstr
# define _tcslen wcslen
# define _tcscmp wcscmp
# define _sntprintf_s fw_snwprintf_s
# define _ftprintf_s fw_fwprintf_s
# define _ftprintf fw_fwprintf_s
#else
typedef char TCHAR;
# define _T(x) x
# define _TEXT(x) x
# define _tcschr strchr
# define _tcsrchr strrchr
# define _tcsdup strdup
# define _tcsstr strstr
# define _tcslen strlen
# define _tcscmp strcmp
# define _sntprintf_s fw_snprintf_s
# define _ftprintf_s fw_fprintf_s
# define _ftprintf fw_fprintf_s
#endif
#endif
