/* The part of the Windows API that generated code uses, on the scripted loader */
#ifndef FK_WINDOWS_H
#define FK_WINDOWS_H
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
typedef unsigned int DWORD;
typedef int BOOL;
typedef void *HMODULE;
typedef void *HANDLE;
typedef void *HLOCAL;
typedef void *HWND;
typedef char *LPSTR;
typedef const char *LPCSTR;
typedef wchar_t *LPWSTR;
typedef const wchar_t *LPCWSTR;
typedef unsigned int UINT;
typedef int (*FARPROC)(void);
#define WINAPI
#define TRUE 1
#define FALSE 0
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xff
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((DWORD)(((s) << 10) | (p)))
#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_INVALID_NAME 123
#define ERROR_MOD_NOT_FOUND 126
#define ERROR_PROC_NOT_FOUND 127
#define ERROR_NOT_FOUND 1168
#define ERROR_ALREADY_EXISTS 183
#define MB_OK 0
#define MB_ICONERROR 0x10
#define LOAD_WITH_ALTERED_SEARCH_PATH 8
#define _TRUNCATE ((size_t)-1)
#define _countof(a) (sizeof(a) / sizeof((a)[0]))
#ifdef __cplusplus
extern "C" {
#endif
HMODULE fw_LoadLibraryExA(const char *, HANDLE, DWORD);
HMODULE fw_LoadLibraryExW(const wchar_t *, HANDLE, DWORD);
FARPROC fw_GetProcAddress(HMODULE, const char *);
BOOL fw_FreeLibrary(HMODULE);
DWORD fw_GetLastError(void);
void fw_SetLastError(DWORD);
DWORD fw_FormatMessageA(DWORD, const void *, DWORD, DWORD, char *, DWORD, va_list *);
DWORD fw_FormatMessageW(DWORD, const void *, DWORD, DWORD, wchar_t *, DWORD, va_list *);
HLOCAL fw_LocalFree(HLOCAL);
DWORD fw_GetModuleFileNameA(HMODULE, char *, DWORD);
DWORD fw_GetModuleFileNameW(HMODULE, wchar_t *, DWORD);
int fw_MessageBoxA(HWND, const char *, const char *, UINT);
int fw_MessageBoxW(HWND, const wchar_t *, const wchar_t *, UINT);
int fw_mbstowcs_s(size_t *, wchar_t *, size_t, const char *, size_t);
int fw_wcstombs_s(size_t *, char *, size_t, const wchar_t *, size_t);
int fw_snprintf_s(char *, size_t, size_t, const char *, ...);
int fw_snwprintf_s(wchar_t *, size_t, size_t, const wchar_t *, ...);
int fw_fprintf_s(FILE *, const char *, ...);
int fw_fwprintf_s(FILE *, const wchar_t *, ...);
#ifdef __cplusplus
}
#endif
#define LoadLibraryExA fw_LoadLibraryExA
#define LoadLibraryExW fw_LoadLibraryExW
#define LoadLibraryA(n) fw_LoadLibraryExA(n, NULL, 0)
#define LoadLibraryW(n) fw_LoadLibraryExW(n, NULL, 0)
#define GetProcAddress fw_GetProcAddress
#define FreeLibrary fw_FreeLibrary
#define GetLastError fw_GetLastError
#define SetLastError fw_SetLastError
#define FormatMessageA fw_FormatMessageA
#define FormatMessageW fw_FormatMessageW
#define LocalFree fw_LocalFree
#define GetModuleFileNameA fw_GetModuleFileNameA
#define GetModuleFileNameW fw_GetModuleFileNameW
#define MessageBoxA fw_MessageBoxA
#define MessageBoxW fw_MessageBoxW
#define mbstowcs_s fw_mbstowcs_s
#define wcstombs_s fw_wcstombs_s
#define _snprintf_s fw_snprintf_s
#define _snwprintf_s fw_snwprintf_s
#define fprintf_s fw_fprintf_s
#define fwprintf_s fw_fwprintf_s
#ifdef UNICODE
# define LoadLibraryEx LoadLibraryExW
# define LoadLibrary LoadLibraryW
# define FormatMessage FormatMessageW
# define GetModuleFileName GetModuleFileNameW
# define MessageBox MessageBoxW
#else
# define LoadLibraryEx LoadLibraryExA
# define LoadLibrary LoadLibraryA
# define FormatMessage FormatMessageA
# define GetModuleFileName GetModuleFileNameA
# define MessageBox MessageBoxA
#endif
#endif
