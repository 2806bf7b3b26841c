// The string and memory functions the code under test calls. They only tell the scheduler which memory is
// about to be touched (so that a preemption can fall between two of them) and then do the real thing.
#include "rt.h"
#include <cstdio>
#include <cstring>
#include <strings.h>
#include <cstdlib>
#include <cwchar>
using namespace sim;
#define RD(p, n) mem_range(p, n, false)
#define WR(p, n) mem_range(p, n, true)
extern "C" {
void* __asan_memcpy(void*, const void*, size_t); void* __asan_memmove(void*, const void*, size_t); void* __asan_memset(void*, int, size_t);
void* sim___asan_memcpy(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return __asan_memcpy(d, s, n); }
void* sim___asan_memmove(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return __asan_memmove(d, s, n); }
void* sim___asan_memset(void* d, int c, size_t n) { WR(d, n); return __asan_memset(d, c, n); }
void* sim_memcpy(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return memcpy(d, s, n); }
void* sim_mempcpy(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return mempcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
void sim_bzero(void* d, size_t n) { WR(d, n); memset(d, 0, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { RD(a, n); return (void*)memchr(a, c, n); }
void* sim_memrchr(const void* a, int c, size_t n) { RD(a, n); return (void*)memrchr(a, c, n); }
void* sim_memmem(const void* a, size_t n, const void* b, size_t m) { RD(a, n); RD(b, m); return (void*)memmem(a, n, b, m); }
size_t sim_strlen(const char* s) { RD(s, 1); return strlen(s); }
size_t sim_strnlen(const char* s, size_t n) { RD(s, 1); return strnlen(s, n); }
char* sim_strcpy(char* d, const char* s) { RD(s, 1); WR(d, 1); return strcpy(d, s); }
char* sim_stpcpy(char* d, const char* s) { RD(s, 1); WR(d, 1); size_t n = strlen(s); strcpy(d, s); return d + n; }
char* sim_strncpy(char* d, const char* s, size_t n) { RD(s, 1); WR(d, n); return strncpy(d, s, n); }
char* sim_strcat(char* d, const char* s) { RD(s, 1); WR(d, 1); return strcat(d, s); }
char* sim_strncat(char* d, const char* s, size_t n) { RD(s, 1); WR(d, 1); return strncat(d, s, n); }
int sim_strcmp(const char* a, const char* b) { RD(a, 1); RD(b, 1); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { RD(a, 1); RD(b, 1); return strncmp(a, b, n); }
int sim_strcasecmp(const char* a, const char* b) { RD(a, 1); RD(b, 1); return strcasecmp(a, b); }
int sim_strncasecmp(const char* a, const char* b, size_t n) { RD(a, 1); RD(b, 1); return strncasecmp(a, b, n); }
char* sim_strchr(const char* s, int c) { RD(s, 1); return (char*)strchr(s, c); }
char* sim_strchrnul(const char* s, int c) { RD(s, 1); return (char*)strchrnul(s, c); }
char* sim_strrchr(const char* s, int c) { RD(s, 1); return (char*)strrchr(s, c); }
char* sim_strstr(const char* a, const char* b) { RD(a, 1); return (char*)strstr(a, b); }
char* sim_strcasestr(const char* a, const char* b) { RD(a, 1); return (char*)strcasestr(a, b); }
char* sim_strpbrk(const char* a, const char* b) { RD(a, 1); return (char*)strpbrk(a, b); }
size_t sim_strspn(const char* a, const char* b) { RD(a, 1); return strspn(a, b); }
size_t sim_strcspn(const char* a, const char* b) { RD(a, 1); return strcspn(a, b); }
char* sim_strsep(char** s, const char* d) { RD(s, 8); if (*s) WR(*s, 1); return strsep(s, d); }
static char* tok_save;                       // strtok keeps its place in one variable for the whole process
char* sim_strtok(char* s, const char* d) { WR(&tok_save, 8); return strtok_r(s, d, &tok_save); }
char* sim_strtok_r(char* s, const char* d, char** sv) { WR(sv, 8); return strtok_r(s, d, sv); }
char* sim___strtok_r(char* s, const char* d, char** sv) { return sim_strtok_r(s, d, sv); }
long sim_strtol(const char* s, char** e, int b) { RD(s, 1); return strtol(s, e, b); }
long sim___isoc23_strtol(const char* s, char** e, int b) { RD(s, 1); return strtol(s, e, b); }
unsigned long sim_strtoul(const char* s, char** e, int b) { RD(s, 1); return strtoul(s, e, b); }
unsigned long sim___isoc23_strtoul(const char* s, char** e, int b) { RD(s, 1); return strtoul(s, e, b); }
long long sim_strtoll(const char* s, char** e, int b) { RD(s, 1); return strtoll(s, e, b); }
long long sim___isoc23_strtoll(const char* s, char** e, int b) { RD(s, 1); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char* s, char** e, int b) { RD(s, 1); return strtoull(s, e, b); }
unsigned long long sim___isoc23_strtoull(const char* s, char** e, int b) { RD(s, 1); return strtoull(s, e, b); }
int sim_atoi(const char* s) { RD(s, 1); return atoi(s); }
long sim_atol(const char* s) { RD(s, 1); return atol(s); }
int sim_vsnprintf(char* d, size_t n, const char* f, va_list a) { if (n) WR(d, 1); return vsnprintf(d, n, f, a); }
int sim_snprintf(char* d, size_t n, const char* f, ...) { if (n) WR(d, 1); va_list a; va_start(a, f); int r = vsnprintf(d, n, f, a); va_end(a); return r; }
int sim_vsprintf(char* d, const char* f, va_list a) { WR(d, 1); return vsprintf(d, f, a); }
int sim_sprintf(char* d, const char* f, ...) { WR(d, 1); va_list a; va_start(a, f); int r = vsprintf(d, f, a); va_end(a); return r; }
size_t sim_strftime(char* d, size_t n, const char* f, const struct tm* t) { RD(t, 36); WR(d, 1); return strftime(d, n, f, t); }
}
