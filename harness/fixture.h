// The plugin that the checks of the host use: it behaves as told and reports what happens to it.
#ifndef FIXTURE_H
#define FIXTURE_H
#include <chrono>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>
#define PAYLOAD_RAW
#include "payload.h"

void fx_event(const std::string& json);      // json without the braces and without the thread
void fx_stop();                              // requests the host to stop
std::string fx_bus(void* p);                 // a name for a bus
void fx_quiet(bool on);

struct FxSpec
{
  int file = 0; std::string kind, id; std::map<std::string, int> b; int created = 0;
  int n(const char* k, int d = 0) const { auto i = b.find(k); return i == b.end() ? d : i->second; }
  // "FILE KIND ID key=value ..."
  static FxSpec parse(const std::string& s)
  {
    FxSpec f; std::stringstream ss(s); ss >> f.file >> f.kind >> f.id; if(f.id == "~") f.id = "";
    std::string kv; while(ss >> kv) { size_t e = kv.find('='); if(e != std::string::npos) f.b[kv.substr(0, e)] = atoi(kv.c_str() + e + 1); }
    return f;
  }
};
static inline std::string fxq(const char* k, const std::string& v) { return std::string(",\"") + k + "\":\"" + v + "\""; }
static inline std::string fxq(const char* k, int v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static inline void fx_sleep(int us) { if(us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); }

class Fixture : public lp::PluginInstance
{
  FxSpec s; int heard = 0;
  std::shared_ptr<lp::bus::Subscriber> sub; std::shared_ptr<lp::bus::Publisher> pub;
  std::string me(const char* e) { return std::string("\"e\":\"") + e + "\"" + fxq("name", GetIdentifier()); }
  int saids = 0;
public:
  Fixture(lp::PluginConfiguration c, const FxSpec& sp) : lp::PluginInstance(c), s(sp) {}
  ~Fixture() override { fx_quiet(true); std::string m = me("gone"); fx_quiet(false); fx_event(m); if(s.n("gstop")) fx_stop(); }
  std::string config() { return canon(GetCustomConfiguration()); }
  void say()
  {
    fx_quiet(true); std::string v = GetIdentifier() + "." + std::to_string(++saids), m = me("said") + fxq("v", v); fx_quiet(false);
    fx_event(m); lp::messages::Datagram d(v); pub->Publish(d);
  }
  void Initialize() override
  {
    fx_quiet(true); std::string m = me("init"), d = me("inited"); fx_quiet(false);
    fx_event(m);
    pub = GetPublisher("/hello"); sub = GetSubscriber("/hello");
    sub->SetMessageCallback([this](lp::messages::Message m)
    {
      fx_quiet(true); std::string e = std::string("\"e\":\"heard\"") + fxq("by", GetIdentifier()) + fxq("snd", m.GetSender()) + fxq("v", m.GetDatagram().Get<std::string>()); fx_quiet(false);
      fx_event(e);
      if(++heard == s.n("cbstop")) fx_stop();
    });
    fx_event(d);
    if(s.n("istop")) fx_stop();
    fx_sleep(s.n("isl"));
    for(int i = 0; i < s.n("ipub"); ++i) say();
  }
  void Run() override
  {
    fx_quiet(true); std::string r = me("run"), e = me("end"); fx_quiet(false);
    fx_event(r);
    for(int i = 0; i < s.n("rpub"); ++i) { say(); fx_sleep(s.n("rpsl")); }
    if(s.n("rstop")) fx_stop();
    if(s.n("rown", -1) >= 0) { fx_sleep(s.n("rown")); if(s.n("roff")) mShouldRun = false; fx_event(e + ",\"own\":true"); return; }
    while(mShouldRun) Sleep(std::chrono::milliseconds(1));
    fx_sleep(s.n("rslow"));
    if(s.n("lpub")) say();
    fx_event(e + ",\"own\":false");
  }
  void Deinitialize() override
  {
    fx_quiet(true); std::string m = me("deinit"), e = me("deinited"); fx_quiet(false);
    fx_event(m);
    if(s.n("dstop")) fx_stop();
    fx_sleep(s.n("dsl"));
    if(s.n("ddel", 1)) { DeleteSubscriber(sub); DeletePublisher(pub); }
    sub = nullptr; pub = nullptr;
    fx_event(e);
  }
};
static inline lp::PluginTemplateInfo* fx_info(FxSpec& s)
{
  fx_event("\"e\":\"info\"" + fxq("f", s.file));
  if(s.n("fstop")) fx_stop();
  if(s.kind == "nullinfo") return nullptr;
  lp::PluginTemplateInfo* i = new lp::PluginTemplateInfo(); i->mIdentifier = s.id; i->mVersion = lp::Version(1, 2, 3, 4);
  return i;
}
static inline lp::PluginInstance* fx_create(FxSpec& s, lp::PluginConfiguration c)
{
  int k = ++s.created; bool null = s.n("nullat") && k % s.n("nullat") == 0;
  fx_quiet(true);
  std::string m = "\"e\":\"create\"" + fxq("f", s.file) + fxq("name", c.mIdentifier) + fxq("bus", fx_bus(c.mBus.get())) + fxq("conf", canon(c.mCustomConfiguration)) + ",\"null\":" + (null ? "true" : "false");
  fx_quiet(false);
  fx_event(m);
  if(s.n("cstop")) fx_stop();
  fx_sleep(s.n("csl"));
  return null ? nullptr : new Fixture(c, s);
}
#endif
