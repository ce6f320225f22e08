// Executes programs on linked hosts (see checks/linkcheck.py): under lpsched with a stand-in for libzmq, or (REAL) with libzmq
// itself and the machine's own scheduling and time.  Usage: link_driver PROGRAMS OUT SEED SCHEDULES MODE
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#ifdef REAL
#include <stddef.h>
#include <sys/un.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <stdarg.h>
#endif

#include <lamppost/bus/Bus.h>
#include <lamppost/plugin/PluginTemplate.h>
#include <lamppost/data/RawBytes.h>
#include <zmq.h>
#include <iostream>

#include "lpsched/lpsched.h"
#include "payload.h"

using namespace lp;
extern "C" lp::PluginInstance* CreateInstance(lp::PluginConfiguration);

#ifdef REAL
static std::mutex evm; static std::string evs; static thread_local int self = 0; static int selves = 0; static std::atomic<int> seen{0};
int lps_self() { return self; }
void lps_event(const char* f, ...) { va_list ap; va_start(ap, f); char b[16384]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); std::lock_guard<std::mutex> l(evm); evs += ","; evs.append(b, (size_t)n); }
void lps_quiet_begin() {} void lps_quiet_end() {}
#define BECOME() { std::lock_guard<std::mutex> l(evm); self = ++selves; }
#else
#define BECOME()
#endif

struct Op { std::string name; std::vector<std::string> a; int n(size_t i) const { return i < a.size() ? atoi(a[i].c_str()) : -1; } };
struct LinkDef { int h; std::string conf; };
struct Prog { std::string tag; int hosts; std::vector<LinkDef> links; std::vector<std::vector<Op>> threads; std::map<int, std::string> outs; };
struct Host { std::shared_ptr<bus::Bus> root, app; std::shared_ptr<bus::Subscriber> obs; std::shared_ptr<PluginTemplate> links; std::thread run; std::map<std::string, std::shared_ptr<bus::Publisher>> pubs; bool probed; };
static const Prog* prog;
static Host hosts[8];
static void* outctx; static std::map<int, void*> outs;
static std::map<int, int> ports;      // REAL: the ports that stand for those of the program
static int probes[8];

static std::string port(const std::string& p)
{
#ifdef REAL
  int n = atoi(p.c_str());
  if(!ports.count(n))
  {
    // below the range that outgoing connections use, and kept from the other drivers for as long as this one lives
    static unsigned next = (unsigned)getpid() * 7919u;
    for(int tries = 0;; ++tries)
    {
      if(tries > 15000) _exit(9);
      int c = 12000 + (int)(next++ % 18000u);
      int lock = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0); struct sockaddr_un u = {}; u.sun_family = AF_UNIX;
      int len = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "lp-link-port-%d", c);
      if(bind(lock, (struct sockaddr*)&u, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + (size_t)len)) != 0) { close(lock); continue; }
      int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons((unsigned short)c);
      bool free = bind(s, (struct sockaddr*)&a, sizeof a) == 0; close(s);
      if(free) { ports[n] = c; break; }
      close(lock);
    }
  }
  return std::to_string(ports[n]);
#else
  return p;
#endif
}
static std::string unhex(const std::string& s) { std::string r; for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; }
static std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for(unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static std::string plain(const std::string& s) { for(unsigned char c : s) if(c < 32 || c > 126 || c == '"' || c == '\\') return "%" + hex(s); return s; }
// The names of a trail one by one, so that one that cannot be shown does not hide the others.
static std::string trail(const std::string& s) { std::string r; size_t i = 0, j; while((j = s.find('/', i)) != std::string::npos) { r += plain(s.substr(i, j - i)) + "/"; i = j + 1; } return r + plain(s.substr(i)); }
static std::string tilde(const std::string& s) { return s == "~" ? "" : s; }
static std::string J(const char* k, const std::string& v) { return std::string(",\"") + k + "\":\"" + v + "\""; }
static std::string J(const char* k, int v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static void call(const char* op, const std::string& a) { lps_event("{\"t\":%d,\"e\":\"c\",\"op\":\"%s\"%s}", lps_self(), op, a.c_str()); }
static void ret(const std::string& x) { lps_event("{\"t\":%d,\"e\":\"r\",\"x\":\"%s\"}", lps_self(), x.c_str()); }
static std::string guarded(const std::function<void()>& f) { try { f(); } catch(std::exception& e) { return "exception"; } return ""; }

static void observed(int h, messages::Message m)
{
  lps_quiet_begin(); std::string snd = trail(m.GetSender()), top = plain(m.GetTopic()), v; try { v = plain(canon(m.GetDatagram())); } catch(std::exception&) { v = "?"; } lps_quiet_end();
  if(top == "/probe")
  {
#ifdef REAL
    std::lock_guard<std::mutex> l(evm); if(snd.find('/') != std::string::npos) probes[h] |= 1 << atoi(canon(m.GetDatagram()).substr(2).c_str()); ++seen;
#endif
    return;
  }
  lps_event("{\"t\":%d,\"e\":\"in\",\"h\":%d,\"snd\":\"%s\",\"top\":\"%s\",\"v\":\"%s\"}", lps_self(), h, snd.c_str(), top.c_str(), v.c_str());
#ifdef REAL
  if(++seen > 3000) _exit(7);
#endif
}
static messages::Datagram confof(const std::string& s)
{
  // key=value,... with key a path and value s:text, i:number, b:0/1
  messages::Datagram d; std::stringstream ss(s); std::string kv;
  while(std::getline(ss, kv, ','))
  {
    size_t e = kv.find('='); if(e == std::string::npos) continue;
    std::string k = kv.substr(0, e), v = kv.substr(e + 1); size_t sl = k.find('/'); std::string role = k.substr(0, sl), what = k.substr(sl + 1);
    if(v[0] == 'b') d[role][what] = (v[2] == '1'); else if(v[0] == 'i') d[role][what] = atoi((what.compare(0, 4, "port") == 0 ? port(v.substr(2)) : v.substr(2)).c_str()); else d[role][what] = v.substr(2);
  }
  return d;
}
static std::string frame(const std::string& f)
{
  if(f[0] == 'x') return unhex(f.substr(2));
  std::stringstream fs(f); std::vector<std::string> p; std::string w; while(std::getline(fs, w, ':')) p.push_back(w);
  messages::Message m(tilde(p[2]), tilde(p[3]), payload(atoi(p[4].c_str())));
  std::shared_ptr<data::RawBytes> b = m.SerializeToBytes(); std::string s((const char*)b->GetContent(), b->GetSize());
  size_t n = (size_t)atoi(p[1].c_str());
  if(f[0] == 't') return s.substr(0, n % s.size());
  if(f[0] == 'f') { s[n % s.size()] = (char)(s[n % s.size()] ^ (1 << (n / 7 % 8))); return s; }
  if(f[0] == '1') return s.substr(0, s.size() / 2);
  if(f[0] == '2') return s.substr(s.size() / 2);
  return s;
}
static void settle(int us, int expect)
{
#ifdef REAL
  for(int i = 0; i < 2000 && expect >= 0 && seen < expect; ++i) usleep(10000);
  for(int last = -1; last != seen;) { last = seen; usleep(60000); }
#else
  (void)expect;
  std::this_thread::sleep_for(std::chrono::microseconds(us));
#endif
}
static void exec(int t);
static void run(const Op& o)
{
  auto Q = [](const std::function<std::string()>& f) { lps_quiet_begin(); std::string s = f(); lps_quiet_end(); return s; };
  if(o.name == "pub")        // pub h topic v
  {
    Host& h = hosts[o.n(0)]; messages::Datagram d = payload(o.n(2));
    call("pub", Q([&] { return J("h", o.n(0)) + J("snd", "app" + o.a[0]) + J("top", o.a[1]) + J("v", plain(canon(d))); }));
    ret(guarded([&] { h.pubs[o.a[1]]->Publish(d); }));
  }
  else if(o.name == "bpub")  // bpub h trail topic v
  {
    Host& h = hosts[o.n(0)]; messages::Message m(tilde(o.a[1]), tilde(o.a[2]), payload(o.n(3)));
    call("pub", Q([&] { return J("h", o.n(0)) + J("snd", tilde(o.a[1])) + J("top", tilde(o.a[2])) + J("v", plain(canon(m.GetDatagram()))); }));
    ret(guarded([&] { h.app->Publish(m); }));
  }
  else if(o.name == "raw")   // raw c kind snd top v frame...
  {
    std::vector<std::string> fs; for(size_t i = 5; i < o.a.size(); ++i) fs.push_back(frame(o.a[i]));
    call("raw", Q([&] { return J("c", o.n(0)) + J("kind", o.a[1]) + J("snd", tilde(o.a[2])) + J("top", tilde(o.a[3])) + J("v", plain(canon(payload(o.n(4))))); }));
    for(size_t i = 0; i < fs.size(); ++i) zmq_send(outs[o.n(0)], fs[i].data(), fs[i].size(), i + 1 < fs.size() ? ZMQ_SNDMORE : 0);
    ret("");
  }
  else if(o.name == "down")  // down h
  {
    Host& h = hosts[o.n(0)]; call("down", J("h", o.n(0)));
    ret(guarded([&] { h.links->Unload(); }));
  }
  else if(o.name == "settle") { settle(o.n(0), o.n(1)); lps_event("{\"t\":%d,\"e\":\"settled\"}", lps_self()); }
  else if(o.name == "sleep") std::this_thread::sleep_for(std::chrono::microseconds(o.n(0)));
  else { fprintf(stderr, "unknown op %s\n", o.name.c_str()); _exit(3); }
}
static void connectall()
{
#ifdef REAL
  // Connections take a while to work: publish probes until every host and outsider is heard where it has to be.
  // `outs` and links of a host are heard by whom the program says (prog->tag does not matter): wait for the neighbours.
  std::vector<int> want(8, 0);
  for(size_t i = 0; i < prog->links.size(); ++i)
    for(size_t j = 0; j < prog->links.size(); ++j)
    {
      messages::Datagram a = confof(prog->links[i].conf), b = confof(prog->links[j].conf);
      if(!a.Get<bool>("server-role/enabled", false) || !b.Get<bool>("client-role/enabled", false)) continue;
      if(a.Get<int>("server-role/port-pub", 6967) == b.Get<int>("client-role/port-sub", 6967)) want[prog->links[j].h] |= 1 << prog->links[i].h;
      if(a.Get<int>("server-role/port-sub", 6968) == b.Get<int>("client-role/port-pub", 6968)) want[prog->links[i].h] |= 1 << prog->links[j].h;
    }
  std::map<int, int> owant;
  for(auto& o : prog->outs) { std::stringstream ss(o.second); std::string how, p, h; ss >> how >> p >> h; owant[o.first] = atoi(h.c_str()); want[atoi(h.c_str())] |= 1 << (10 + o.first); }
  for(int i = 0; i < 1500; ++i)
  {
    bool all = true; for(int h = 0; h < prog->hosts; ++h) { std::lock_guard<std::mutex> l(evm); all = all && (probes[h] & want[h]) == want[h]; }
    if(all) break;
    if(i == 1499) lps_event("{\"t\":0,\"e\":\"unconnected\"}");
    for(int h = 0; h < prog->hosts; ++h) hosts[h].app->Publish(messages::Message("probe", "/probe", messages::Datagram(h)));
    for(auto& o : outs) { messages::Message m("probe", "/probe", messages::Datagram(10 + o.first)); std::shared_ptr<data::RawBytes> b = m.SerializeToBytes(); zmq_send(o.second, "A", 1, ZMQ_SNDMORE); zmq_send(o.second, b->GetContent(), b->GetSize(), 0); }
    usleep(20000);
  }
  for(int last = -1; last != seen;) { last = seen; usleep(100000); }
  seen = 0;
#else
  std::this_thread::sleep_for(std::chrono::milliseconds(20));
#endif
}
static void exec(int t) { for(const Op& o : prog->threads[(size_t)t]) run(o); }
static void scenario(void*)
{
  for(int i = 0; i < prog->hosts; ++i)
  {
    Host& h = hosts[i]; lps_quiet_begin(); std::string an = "app" + std::to_string(i); lps_quiet_end();
    h.root = std::make_shared<bus::Bus>("root"); h.app = h.root->CreateChildBus(an);
    h.obs = h.root->CreateSubscriber("/**/*"); h.obs->SetMessageCallback([i](messages::Message m) { observed(i, m); });
    h.root->Enable();
    for(const auto& th : prog->threads) for(const Op& o : th) if(o.name == "pub" && o.n(0) == i && !h.pubs.count(o.a[1])) h.pubs[o.a[1]] = h.app->CreatePublisher(o.a[1]);
    h.links = std::make_shared<PluginTemplate>(PluginTemplateConfiguration("Link", Version(0, 1, 0, 0), [](PluginConfiguration c) { return std::shared_ptr<PluginInstance>(CreateInstance(c)); }));
  }
  for(const auto& o : prog->outs)
  {
    if(!outctx) outctx = zmq_ctx_new();
    std::stringstream ss(o.second); std::string how, p; ss >> how >> p;
    void* s = zmq_socket(outctx, ZMQ_PUB); int linger = 0; zmq_setsockopt(s, ZMQ_LINGER, &linger, sizeof linger); outs[o.first] = s;
    if(how == "bind") zmq_bind(s, ("tcp://*:" + port(p)).c_str()); else zmq_connect(s, ("tcp://127.0.0.1:" + port(p)).c_str());
  }
  for(const LinkDef& l : prog->links)
  {
    PluginConfiguration c; lps_quiet_begin(); c.mCustomConfiguration = confof(l.conf); lps_quiet_end();
    std::shared_ptr<PluginInstance> p = hosts[l.h].links->Instantiate(c, hosts[l.h].root);
    p->Initialize(); p->Start();
  }
  for(int i = 0; i < prog->hosts; ++i) { std::shared_ptr<bus::Bus> b = hosts[i].root; hosts[i].run = std::thread([b] { BECOME(); b->Run(); }); }
  connectall();
  std::vector<std::thread> ts; for(size_t i = 1; i + 1 < prog->threads.size(); ++i) ts.emplace_back([i] { BECOME(); exec((int)i); });
  exec(0);
  for(std::thread& t : ts) t.join();
  exec((int)prog->threads.size() - 1);
  for(int i = 0; i < prog->hosts; ++i) hosts[i].root->Stop();
  for(int i = 0; i < prog->hosts; ++i) hosts[i].run.join();
  for(int i = 0; i < prog->hosts; ++i)
  {
    Host& h = hosts[i]; call("down", J("h", i)); h.root->Detach(); h.links->Unload(); ret("");
    h.links = nullptr; h.pubs.clear(); h.obs = nullptr; h.app = nullptr; h.root = nullptr;
  }
  for(auto& o : outs) zmq_close(o.second);
  outs.clear();
#ifdef REAL
  if(outctx) zmq_ctx_term(outctx);
#endif
  outctx = nullptr;
}
static std::vector<Op> parseops(const std::string& s)
{
  std::vector<Op> r; std::stringstream ss(s); std::string part;
  while(std::getline(ss, part, ';')) { std::stringstream ps(part); std::string w; Op o; if(!(ps >> w)) continue; o.name = w; while(ps >> w) o.a.push_back(w); r.push_back(o); }
  return r;
}
int main(int argc, char** argv)
{
  if(argc < 6) return 2;
  std::ifstream in(argv[1]); std::vector<Prog> progs; std::string line;
  while(std::getline(in, line))
  {
    std::stringstream ls(line); std::string w; ls >> w; std::string rest; std::getline(ls, rest); if(!rest.empty()) rest = rest.substr(1);
    if(w == "prog") { progs.emplace_back(); progs.back().tag = rest; }
    else if(w == "hosts") progs.back().hosts = atoi(rest.c_str());
    else if(w == "link") { size_t i = rest.find(' '); progs.back().links.push_back({atoi(rest.c_str()), i == std::string::npos ? "" : rest.substr(i + 1)}); }
    else if(w == "out") { size_t i = rest.find(' '); progs.back().outs[atoi(rest.c_str())] = rest.substr(i + 1); }
    else if(w == "thr") progs.back().threads.push_back(parseops(rest));
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  FILE* report = fdopen(dup(1), "w"); int nul = open("/dev/null", O_WRONLY); if(!getenv("LINK_VERBOSE")) dup2(nul, 1);
#ifdef REAL
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i];
    pid_t p = fork();
    if(p == 0)
    {
      alarm(100);
      evs = "[{\"tag\":\"" + prog->tag + "\",\"mode\":0}";
      scenario(nullptr);
      evs += "]\n"; size_t o = 0; while(o < evs.size()) { ssize_t n = write(fd, evs.data() + o, evs.size() - o); if(n <= 0) _exit(9); o += (size_t)n; }
      _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { std::string s = "[{\"tag\":\"" + prog->tag + "\",\"mode\":0},{\"t\":0,\"e\":\"crash\",\"status\":" + std::to_string(st) + "}]\n"; if(write(fd, s.data(), s.size()) < 0) return 2; }
  }
  fprintf(report, "{\"real_programs\":%zu}\n", progs.size());
#else
  lps_stats st = {};
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i];
    lps_explore(fd, prog->tag.c_str(), scenario, nullptr, (unsigned)atoi(argv[3]) + 7919u * (unsigned)i, atoi(argv[4]), atoi(argv[5]), &st);
  }
  fprintf(report, "{\"programs\":%zu,\"schedules\":%lld,\"distinct\":%lld,\"steps\":%lld,\"switches\":%lld,\"racy\":%lld}\n", progs.size(), st.schedules, st.distinct, st.steps, st.switches, st.races);
#endif
  close(fd); fclose(report);
  return 0;
}
