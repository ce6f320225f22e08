// The logger as a plugin library has it: with statics of its own.
#include <lamppost/log/Log.h>
extern "C" void* log_copy_make(const char* p, size_t n) { return new lp::log::Log(std::string(p, n)); }
extern "C" void log_copy_write(void* l, int k, const char* p, size_t n, int level)
{
  lp::log::Log* g = (lp::log::Log*)l; std::string s(p, n);
  if(k == 'i') g->Info(s, level); else if(k == 'w') g->Warning(s, level); else g->Error(s, level);
}
