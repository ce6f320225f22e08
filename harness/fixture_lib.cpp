// A plugin library for the real program.  What it does is written in a file next to it.
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <stdlib.h>
#include <unistd.h>
#include "fixture.h"

static int fd = -1;
static FxSpec spec;
void fx_event(const std::string& j) { std::string s = "{" + j + "}\n"; if(write(fd, s.data(), s.size()) < 0) _exit(77); }
void fx_stop() { fx_event("\"e\":\"sig\""); kill(getpid(), spec.n("int") ? SIGINT : SIGTERM); }
std::string fx_bus(void* p) { char b[40]; snprintf(b, sizeof b, "%p", p); return b; }
void fx_quiet(bool) {}
static void opened()
{
  fd = open(getenv("HOST_EVENTS"), O_WRONLY | O_APPEND | O_CLOEXEC);
  Dl_info i; dladdr((void*)&opened, &i);
  std::ifstream f(std::string(i.dli_fname) + ".spec"); std::string l; std::getline(f, l); spec = FxSpec::parse(l);
  fx_event("\"e\":\"open\"" + fxq("f", spec.file));
}
static void closed() { fx_event("\"e\":\"close\"" + fxq("f", spec.file)); close(fd); }
static struct Library { Library() { opened(); } ~Library() { closed(); } } library;
extern "C"
{
#ifndef NOINFO
  lp::PluginTemplateInfo* CreateInfo() { return fx_info(spec); }
#endif
#ifndef NOCREATE
  lp::PluginInstance* CreateInstance(lp::PluginConfiguration c) { return fx_create(spec, c); }
#endif
}
