// Executes programs on the host or on a plugin manager under lpsched (see checks/hostcheck.py).
// Usage: host_driver PROGRAMS OUT SEED SCHEDULES MODE
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <lamppost/LampPost.h>
#include <lamppost/exceptions/KeyNotFoundException.h>
#include "lpsched/lpsched.h"
#include "dlstub.h"
#include "fixture.h"

using namespace lp;
struct Op { std::string name; std::vector<std::string> a; int n(size_t i) const { return i < a.size() ? atoi(a[i].c_str()) : -1; } };
struct Prog { std::string tag, cwd; std::list<std::string> paths, confs; std::vector<std::pair<std::string, std::string>> libs; std::vector<std::vector<Op>> threads; };
static const Prog* prog;
static FxSpec specs[DL_MAX];
static LampPost* host; static std::shared_ptr<LampPost> hostp;
static std::shared_ptr<PluginManager> pm; static std::shared_ptr<bus::Bus> roots[4]; static std::thread runs[4]; static std::shared_ptr<bus::Subscriber> obs[4];
static std::vector<std::shared_ptr<PluginInstance>> insts;
static void* buses[256]; static int nbuses;
static const int F_HOST = 1;

void fx_event(const std::string& j) { lps_event("{\"t\":%d,%s}", lps_self(), j.c_str()); }
void fx_stop() { fx_event("\"e\":\"sig\""); if(host) host->Stop(); }
std::string fx_bus(void* p) { if(!p) return "none"; for(int i = 0; i < nbuses; ++i) if(buses[i] == p) return std::to_string(i); buses[nbuses] = p; return std::to_string(nbuses++); }
void fx_quiet(bool on) { if(on) lps_quiet_begin(); else lps_quiet_end(); }
extern "C" void dl_opened(DlStub* l) { lps_event("{\"t\":%d,\"e\":\"open\",\"f\":%d}", lps_self(), specs[l->index].file); }
extern "C" void dl_closed(DlStub* l, int twice) { lps_event("{\"t\":%d,\"e\":\"%s\",\"f\":%d}", lps_self(), twice ? "closedtwice" : "close", specs[l->index].file); }
template<int N> struct Lib
{
  static PluginTemplateInfo* info() { return fx_info(specs[N]); }
  static PluginInstance* create(PluginConfiguration c) { return fx_create(specs[N], c); }
};
template<int N> struct Libs { static void fill(void** i, void** c) { i[N - 1] = (void*)&Lib<N - 1>::info; c[N - 1] = (void*)&Lib<N - 1>::create; Libs<N - 1>::fill(i, c); } };
template<> struct Libs<0> { static void fill(void**, void**) {} };

static void call(const char* op, const std::string& a) { lps_event("{\"t\":%d,\"e\":\"c\",\"op\":\"%s\"%s}", lps_self(), op, a.c_str()); }
static void ret(const std::string& x) { lps_event("{\"t\":%d,\"e\":\"r\",\"x\":\"%s\"}", lps_self(), x.c_str()); }
static std::string guarded(const std::function<std::string()>& f) { try { return f(); } catch(std::exception& e) { return "exception"; } }
static void run(const Op& o)
{
  if(o.name == "new")
  {
    lps_quiet_begin(); LampPostConfiguration c; c.mPluginManagerConfiguration.mTemplateSearchPaths = prog->paths; c.mConfigurationFiles = prog->confs; lps_quiet_end();
    hostp = std::make_shared<LampPost>(c); host = hostp.get(); lps_flag_set(F_HOST);
  }
  else if(o.name == "waithost") lps_flag_wait(F_HOST);
  else if(o.name == "start") { call("start", ""); ret(guarded([] { host->Start(); return ""; })); }
  else if(o.name == "stop") { call("stop", ""); ret(guarded([] { host->Stop(); return ""; })); }
  else if(o.name == "isst") { call("isst", ""); ret(guarded([] { return host->IsStopped() ? "true" : "false"; })); }
  else if(o.name == "sleep") std::this_thread::sleep_for(std::chrono::microseconds(o.n(0)));
  else if(o.name == "settle") { std::this_thread::sleep_for(std::chrono::microseconds(o.n(0))); lps_event("{\"t\":%d,\"e\":\"settled\"}", lps_self()); }
  else if(o.name == "pm")       // pm: a manager with its own root bus, and another tree
  {
    PluginManagerConfiguration c; c.mTemplateSearchPaths = prog->paths;
    pm = std::make_shared<PluginManager>(c);
    for(int i = 0; i < 2; ++i)
    {
      std::shared_ptr<bus::Bus> r = roots[i] = std::make_shared<bus::Bus>(i ? "other" : "root");
      obs[i] = r->CreateSubscriber("/hello");
      obs[i]->SetMessageCallback([i](messages::Message m) { lps_quiet_begin(); std::string e = std::string("\"e\":\"heard\"") + fxq("by", i ? "#1" : "#0") + fxq("snd", m.GetSender()) + fxq("v", m.GetDatagram().Get<std::string>()); lps_quiet_end(); fx_event(e); });
      r->Enable(); runs[i] = std::thread([r] { r->Run(); });
    }
    pm->SetBus(roots[0]);
  }
  else if(o.name == "load") { call("load", ""); ret(guarded([] { pm->LoadTemplates(); return ""; })); }
  else if(o.name == "inst")     // inst id parent conf: parent -1: not given
  {
    PluginConfiguration c; lps_quiet_begin(); if(o.n(1) >= 0) c.mBus = roots[o.n(1)]; if(o.n(2) >= 0) c.mCustomConfiguration = payload(o.n(2)); std::string cf = canon(c.mCustomConfiguration), id = o.a[0] == "~" ? "" : o.a[0]; lps_quiet_end();
    call("inst", fxq("id", id) + fxq("par", o.n(1) > 0 ? "#1" : "#0") + fxq("conf", cf));
    std::shared_ptr<PluginInstance> p;
    std::string x = guarded([&] { p = pm->InstantiateTemplate(id, c); return p ? p->GetIdentifier() : std::string(""); });
    ret(x); insts.push_back(p);
    if(p) { if(fx_bus(p->GetBus().get()) == "none") lps_event("{\"e\":\"nobus\"}"); p->Initialize(); if(o.n(3)) p->Start(); }
  }
  else if(o.name == "child")    // child parent name: the bus of that name
  {
    call("child", fxq("par", o.n(0) > 0 ? "#1" : "#0") + fxq("name", o.a[1]));
    ret(guarded([&] { try { return fx_bus(roots[o.n(0)]->GetChildBus(o.a[1]).get()); } catch(exceptions::KeyNotFoundException&) { return std::string("none"); } }));
  }
  else if(o.name == "unload") { insts.clear(); call("unload", ""); ret(guarded([] { pm->UnloadTemplates(); return ""; })); }
  else if(o.name == "unloadheld") { call("unloadheld", ""); ret(guarded([] { pm->UnloadTemplates(); return ""; })); }   // the instances stay referred to
  else if(o.name == "release") { call("release", ""); insts.clear(); ret(""); }
  else if(o.name == "drop") { call("unload", ""); insts.clear(); pm = nullptr; ret(""); }
  else if(o.name == "endpm") { pm = nullptr; for(int i = 0; i < 2; ++i) roots[i]->Stop(); for(int i = 0; i < 2; ++i) { runs[i].join(); obs[i] = nullptr; roots[i] = nullptr; } }
  else { fprintf(stderr, "unknown op %s\n", o.name.c_str()); _exit(3); }
}
static void exec(int t) { for(const Op& o : prog->threads[(size_t)t]) run(o); }
static void scenario(void*)
{
  std::vector<std::thread> ts; for(size_t i = 1; i < prog->threads.size(); ++i) ts.emplace_back([i] { exec((int)i); });
  exec(0);
  for(std::thread& t : ts) t.join();
  hostp = nullptr; host = nullptr;
  lps_event("{\"t\":0,\"e\":\"done\"}");
}
static std::vector<Op> parseops(const std::string& s)
{
  std::vector<Op> r; std::stringstream ss(s); std::string part;
  while(std::getline(ss, part, ';')) { std::stringstream ps(part); std::string w; Op o; if(!(ps >> w)) continue; o.name = w; while(ps >> w) o.a.push_back(w); r.push_back(o); }
  return r;
}
int main(int argc, char** argv)
{
  if(argc < 6) return 2;
  std::ifstream in(argv[1]); std::vector<Prog> progs; std::string line;
  while(std::getline(in, line))
  {
    std::stringstream ls(line); std::string w; ls >> w; std::string rest; std::getline(ls, rest); if(!rest.empty()) rest = rest.substr(1);
    if(w == "prog") { progs.emplace_back(); progs.back().tag = rest; }
    else if(w == "cwd") progs.back().cwd = rest;
    else if(w == "path") progs.back().paths.push_back(rest);
    else if(w == "conf") progs.back().confs.push_back(rest);
    else if(w == "lib") { size_t i = rest.find('|'); progs.back().libs.push_back({rest.substr(0, i), rest.substr(i + 1)}); }
    else if(w == "thr") progs.back().threads.push_back(parseops(rest));
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  FILE* report = fdopen(dup(1), "w"); int nul = open("/dev/null", O_WRONLY); if(!getenv("HOST_VERBOSE")) dup2(nul, 1);
  void *fi[DL_MAX], *fc[DL_MAX]; Libs<DL_MAX>::fill(fi, fc);
  lps_stats st = {};
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i]; dl_count = 0;
    for(size_t k = 0; k < prog->libs.size() && k < DL_MAX; ++k)
    {
      specs[k] = FxSpec::parse(prog->libs[k].second); const std::string& kind = specs[k].kind; DlStub* l = dl_add();
      snprintf(l->path, sizeof l->path, "%s", prog->libs[k].first.c_str()); l->loadable = kind != "text"; l->open = 0; l->index = (int)k;
      l->info = kind == "noinfo" ? nullptr : fi[k]; l->create = kind == "nocreate" ? nullptr : fc[k];
    }
    if(chdir(prog->cwd.c_str()) != 0) { perror("cwd"); return 4; }
    lps_explore(fd, prog->tag.c_str(), scenario, nullptr, (unsigned)atoi(argv[3]) + 7919u * (unsigned)i, atoi(argv[4]), atoi(argv[5]), &st);
  }
  fprintf(report, "{\"programs\":%zu,\"schedules\":%lld,\"distinct\":%lld,\"steps\":%lld,\"switches\":%lld,\"racy\":%lld}\n", progs.size(), st.schedules, st.distinct, st.steps, st.switches, st.races);
  close(fd); fclose(report);
  return 0;
}
