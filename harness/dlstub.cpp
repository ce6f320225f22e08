// dlopen and its companions for libraries that only exist in the harness (linked with --wrap); others are left alone.
#include <dlfcn.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "dlstub.h"

extern "C" {
void* __real_dlopen(const char*, int); void* __real_dlsym(void*, const char*); int __real_dlclose(void*); char* __real_dlerror(void);
static DlStub libs[DL_MAX]; int dl_count; static int failed;
DlStub* dl_add() { return &libs[dl_count++]; }
static DlStub* ours(void* h) { return (DlStub*)h >= libs && (DlStub*)h < libs + dl_count ? (DlStub*)h : 0; }
void* __wrap_dlopen(const char* p, int flags)
{
  char real[4096]; const char* given = p; if(p && realpath(p, real)) p = real;
  if(p) for(int i = 0; i < dl_count; ++i)
    if(!strcmp(libs[i].path, p)) { if(!libs[i].loadable) { failed = 1; return 0; } if(libs[i].open++ == 0) dl_opened(&libs[i]); return &libs[i]; }
  if(p && strstr(p, "hostfiles")) { failed = 1; return 0; }
  return __real_dlopen(given, flags);
}
void* __wrap_dlsym(void* h, const char* n)
{
  DlStub* l = ours(h); if(!l) return __real_dlsym(h, n);
  if(!strcmp(n, "CreateInfo")) return l->info;
  if(!strcmp(n, "CreateInstance")) return l->create;
  failed = 1; return 0;
}
int __wrap_dlclose(void* h)
{
  DlStub* l = ours(h); if(!l) return __real_dlclose(h);
  if(l->open <= 0) { dl_closed(l, 1); failed = 1; return -1; }
  if(--l->open == 0) dl_closed(l, 0);
  return 0;
}
char* __wrap_dlerror(void) { static char t[] = "stub"; if(failed) { failed = 0; return t; } return __real_dlerror(); }
}
