// Executes operations on paths, files below a scratch directory, byte buffers and configurations.
#include <algorithm>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <ftw.h>

#include <lamppost/Filesystem.h>
#include <lamppost/LampPostConfiguration.h>
#include <lamppost/data/RawBytes.h>
#include <lamppost/bus/Bus.h>
#include <lamppost/exceptions/ArgumentNullException.h>
#include <lamppost/exceptions/DuplicateKeyException.h>
#include <lamppost/exceptions/IndexOutOfBoundsException.h>
#include <lamppost/exceptions/KeyNotFoundException.h>
#include <lamppost/settings/SettingsManager.h>
#include "case.h"

using namespace lp;
using namespace cases;

static std::string root;
static std::map<std::string, std::unique_ptr<data::RawBytes>> bufs;
static std::map<std::string, std::unique_ptr<LampPostConfiguration>> cfgs;
static std::vector<std::shared_ptr<bus::Bus>> buses;

static std::map<std::string, std::unique_ptr<settings::SettingsManager>> sets;

// Makes an operation fail: c says which, arg is the key or the index it is given.
static void provoke(const std::string& c, const std::string& key, long index)
{
  if(c == "child-duplicate") { bus::Bus b("root"); b.CreateChildBus(key); b.CreateChildBus("other"); b.CreateChildBus(key); }
  else if(c == "child-missing") { bus::Bus b("root"); b.CreateChildBus(key + "x"); b.GetChildBus(key); }
  else if(c == "key-missing") { messages::Datagram d; d[key + "x"] = 1; d.Remove(key); }
  else if(c == "nested-key-missing") { messages::Datagram d; d[key][key + "x"] = 1; d[key].Remove(key); }
  else if(c == "index") { messages::Datagram d; for(int i = 0; i < 3 && i < index; ++i) d.Add(messages::RawDatagramType::Empty == d.GetType() ? std::make_shared<messages::RawDatagram>(1) : std::make_shared<messages::RawDatagram>("s")); if(index == 0) { d.Add(std::make_shared<messages::RawDatagram>(1)); d.Remove(0u); } d[(unsigned)index] = 1; }
  else if(c == "remove-index") { messages::Datagram d; for(int i = 0; i < 3 && i < index; ++i) d.Add(std::make_shared<messages::RawDatagram>(1)); if(index == 0) { d.Add(std::make_shared<messages::RawDatagram>(1)); d.Remove(0u); } d.Remove((unsigned)index); }
  else if(c == "no-list") { messages::Datagram d; d["a"] = 1; d[(unsigned)index] = 1; }
  else if(c == "bus-noname") { bus::Bus b(""); }
  else if(c == "named-bus-noname") { bus::Bus b("", [](messages::Message) {}); }
  else if(c == "bus-nofunction") { bus::Bus b("b", nullptr); }
  else if(c == "child-noname") { bus::Bus b("root"); b.CreateChildBus(""); }
  else if(c == "bytes-null") { data::RawBytes b(nullptr, (size_t)index); }
  else if(c == "publisher-null") { bus::Publisher p("/t", nullptr); }
  else if(c == "request-null") { bus::Bus b("root"); b.CreateActionConsumer("t")->RequestAsync(messages::Datagram(1), nullptr); }
  else { fprintf(stderr, "unknown failure %s\n", c.c_str()); _exit(7); }
}
// What is known of a failure to someone who catches it as one of the general exceptions, and keeps a copy of it.
static json_object* told(exceptions::Exception& e)
{
  json_object* r = json_object_new_object(); std::string kind = "another", arg; bool described = e.what() != nullptr && e.what()[0] != 0;
  if(auto* p = dynamic_cast<exceptions::DuplicateKeyException*>(&e)) { exceptions::DuplicateKeyException c = *p; kind = "DuplicateKey"; arg = hex(c.GetKey()); described = described && std::string(c.what()) == e.what() && c.GetKey() == p->GetKey(); }
  else if(auto* p = dynamic_cast<exceptions::KeyNotFoundException*>(&e)) { exceptions::KeyNotFoundException c = *p; kind = "KeyNotFound"; arg = hex(c.GetKey()); described = described && std::string(c.what()) == e.what() && c.GetKey() == p->GetKey(); }
  else if(auto* p = dynamic_cast<exceptions::IndexOutOfBoundsException*>(&e)) { exceptions::IndexOutOfBoundsException c = *p; kind = "IndexOutOfBounds"; arg = std::to_string(c.GetIndex()); described = described && std::string(c.what()) == e.what() && c.GetIndex() == p->GetIndex(); }
  else if(auto* p = dynamic_cast<exceptions::ArgumentNullException*>(&e)) { exceptions::ArgumentNullException c = *p; kind = "ArgumentNull"; arg = c.GetParameterName(); described = described && std::string(c.what()) == e.what() && c.GetParameterName() == p->GetParameterName(); }
  put(r, "kind", jstr(kind)); put(r, "arg", jstr(arg)); put(r, "described", json_object_new_boolean(described));
  return r;
}

static int rm1(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void removetree(const std::string& p) { if(p.compare(0, root.size(), root) == 0 && !root.empty()) nftw(p.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); }
static std::vector<std::string> list(json_object* a) { std::vector<std::string> r; for(size_t i = 0; i < json_object_array_length(a); ++i) r.push_back(unhex(json_object_get_string(json_object_array_get_idx(a, i)))); return r; }
static std::string below(json_object* a) { std::string p = root; for(const std::string& s : list(a)) p += "/" + s; return p; }
static json_object* truth(bool b) { return jstr(b ? "TRUE" : "FALSE"); }
// The same path, written relatively to the working directory if that is above it.
static std::string relative(const std::string& p)
{
  char b[4096]; if(!getcwd(b, sizeof b)) return p;
  std::string w = b; w += "/";
  return p.compare(0, w.size(), w) == 0 ? p.substr(w.size()) : p;
}
static bool perform(json_object* e, json_object*& r)
{
  std::string op = str(e, "op"), b = str(e, "b");
  std::string p = has(e, "path") ? below(get(e, "path")) : "";
  if(num(e, "rel")) p = relative(p);
  if(op == "split")
  {
    std::string q = unhex(str(e, "p")); r = json_object_new_object();
    put(r, "base", jstr(hex(Filesystem::GetBaseDirectory(q)))); put(r, "file", jstr(hex(Filesystem::GetFilename(q)))); put(r, "ext", jstr(hex(Filesystem::GetFileExtension(q))));
  }
  else if(op == "combine") r = jstr(hex(Filesystem::CombinePaths(unhex(str(e, "p")), unhex(str(e, "q")))));
  else if(op == "make")
  {
    std::string k = str(e, "k");
    struct stat st; if(lstat(p.c_str(), &st) == 0) return false;
    std::string up = p.substr(0, p.find_last_of('/')); struct stat us; if(stat(up.c_str(), &us) != 0 || !S_ISDIR(us.st_mode)) return false;
    int rc = k == "d" ? mkdir(p.c_str(), 0755) : k == "p" ? mkfifo(p.c_str(), 0644) : k == "l" ? symlink(below(get(e, "to")).c_str(), p.c_str()) : close(open(p.c_str(), O_CREAT | O_WRONLY, 0644));
    if(rc != 0) { fprintf(stderr, "cannot make %s\n", p.c_str()); _exit(7); }
  }
  else if(op == "delete") { struct stat st; if(lstat(p.c_str(), &st) != 0) return false;
    char c[4096], t[4096]; if(!getcwd(c, sizeof c)) return false;
    if(S_ISDIR(st.st_mode) && realpath(p.c_str(), t) && (std::string(c) + "/").compare(0, strlen(t) + 1, std::string(t) + "/") == 0) return false;      // not from below us
    removetree(p);
  }
  else if(op == "cd") { struct stat st; if(stat(p.c_str(), &st) != 0 || !S_ISDIR(st.st_mode) || chdir(p.c_str()) != 0) return false; }
  else if(op == "exists") r = truth(Filesystem::PathExists(p));
  else if(op == "isfile") r = truth(Filesystem::IsFile(p));
  else if(op == "isdir") r = truth(Filesystem::IsDirectory(p));
  else if(op == "list")
  {
    std::vector<std::string> v; for(const std::string& s : Filesystem::GetDirectoryContents(p, (FilesystemObjectType)num(e, "filter"))) v.push_back(s);
    std::sort(v.begin(), v.end()); r = json_object_new_array(); for(const std::string& s : v) json_object_array_add(r, jstr(hex(s)));
  }
  else if(op == "cwd")
  {
    std::string w = Filesystem::GetWorkingDirectory(); r = json_object_new_array();
    if(w.compare(0, root.size(), root) != 0) json_object_array_add(r, jstr("elsewhere " + w));
    else { size_t i = root.size(); while(i < w.size()) { size_t j = w.find('/', i + 1); if(j == std::string::npos) j = w.size(); json_object_array_add(r, jstr(hex(w.substr(i + 1, j - i - 1)))); i = j; } }
  }
  else if(op == "exe") { char t[4096]; ssize_t n = readlink("/proc/self/exe", t, sizeof t - 1); r = truth(n > 0 && Filesystem::GetPathOfRunningExecutable() == std::string(t, (size_t)n)); }
  else if(op == "bnew") bufs[b].reset(new data::RawBytes());
  else if(op == "bmake") { std::string d = unhex(str(e, "data")); char* c = new char[d.size()]; memcpy(c, d.data(), d.size()); bufs[b].reset(new data::RawBytes(c, d.size())); memset(c, 0x5a, d.size()); delete[] c; }
  else if(op == "bnull") { std::unique_ptr<data::RawBytes> n(new data::RawBytes(nullptr, (size_t)num(e, "n"))); }
  else if(op == "append") { if(!bufs.count(b)) return false; std::string d = unhex(str(e, "data")); char* c = new char[d.size()]; memcpy(c, d.data(), d.size()); bufs[b]->Append(c, d.size()); memset(c, 0x5a, d.size()); delete[] c; }
  else if(op == "self") { if(!bufs.count(b) || bufs[b]->GetContent() == nullptr || bufs[b]->GetSize() > 5000) return false; bufs[b]->Append(bufs[b]->GetContent(), bufs[b]->GetSize()); }
  else if(op == "drop") { if(!bufs.count(b)) return false; bufs.erase(b); }
  else if(op == "cnew")
  {
    std::vector<std::string> ps = list(get(e, "paths")), fs = list(get(e, "files")); long n = num(e, "bus"); std::shared_ptr<bus::Bus> bp = n < 0 ? nullptr : buses[(size_t)n];
    std::list<std::string> pl(ps.begin(), ps.end()), fl(fs.begin(), fs.end());
    std::unique_ptr<LampPostConfiguration> c;
    if(num(e, "form") == 0) c.reset(new LampPostConfiguration(PluginManagerConfiguration(pl, bp), fl));
    else { c.reset(new LampPostConfiguration()); for(auto& s : fl) c->mConfigurationFiles.push_back(s); for(auto& s : pl) c->mPluginManagerConfiguration.mTemplateSearchPaths.push_back(s); if(bp) c->mPluginManagerConfiguration.mBus = bp; }
    cfgs[str(e, "c")] = std::move(c);
  }
  else if(op == "ccopy") { if(!cfgs.count(str(e, "o"))) return false; cfgs[str(e, "c")].reset(new LampPostConfiguration(*cfgs[str(e, "o")])); }
  else if(op == "csame")
  {
    if(!cfgs.count(str(e, "c")) || !cfgs.count(str(e, "o"))) return false;
    LampPostConfiguration& c = *cfgs[str(e, "c")]; LampPostConfiguration& o = *cfgs[str(e, "o")]; r = json_object_new_object();
    bool w = json_object_get_boolean(get(e, "whole"));
    put(r, "eq", json_object_new_boolean(w ? c == o : c.mPluginManagerConfiguration == o.mPluginManagerConfiguration));
    put(r, "ne", json_object_new_boolean(w ? c != o : c.mPluginManagerConfiguration != o.mPluginManagerConfiguration));
  }
  else if(op == "fail")
  {
    std::string c = str(e, "c"), a = str(e, "arg");
    try { provoke(c, has(e, "key") ? unhex(a) : "", has(e, "key") ? 0 : atol(a.c_str())); r = json_object_new_object(); put(r, "kind", jstr("none")); put(r, "arg", jstr("")); put(r, "described", json_object_new_boolean(false)); }
    catch(exceptions::Exception& ex) { r = told(ex); }
    catch(std::exception&) { r = json_object_new_object(); put(r, "kind", jstr("foreign")); put(r, "arg", jstr("")); put(r, "described", json_object_new_boolean(false)); }
  }
  else if(op == "snew") sets[str(e, "c")].reset(new settings::SettingsManager());
  else if(op == "sadd") { if(!sets.count(str(e, "c"))) return false; sets[str(e, "c")]->AddPluginTemplateSearchPath(unhex(str(e, "p"))); }
  else if(op == "sget") { if(!sets.count(str(e, "c"))) return false; r = json_object_new_array(); for(const std::string& s : sets[str(e, "c")]->GetPluginTemplateSearchPaths()) json_object_array_add(r, jstr(hex(s))); }
  else { fprintf(stderr, "unknown operation %s\n", op.c_str()); _exit(7); }
  return true;
}
static void one(json_object* prog)
{
  json_object* head = json_object_array_get_idx(prog, 0);
  bool files = num(head, "files") != 0;
  if(files) { char t[] = "/tmp/lputilXXXXXX"; if(!mkdtemp(t)) _exit(7); root = t; if(chdir(t) != 0) _exit(7); }
  bufs.clear(); cfgs.clear(); sets.clear(); if(buses.empty()) for(int i = 0; i < 3; ++i) buses.push_back(std::make_shared<bus::Bus>("root"));
  for(size_t i = 1; i < json_object_array_length(prog); ++i)
  {
    json_object* e = json_object_array_get_idx(prog, i); json_object* r = nullptr; std::string x;
    try { if(!perform(e, r)) continue; }
    catch(exceptions::ArgumentNullException&) { x = "ArgumentNull"; }
    catch(std::exception& ex) { x = std::string("another exception: ") + ex.what(); }
    put(e, "x", jstr(x)); put(e, "r", r && x.empty() ? r : jstr(""));
    if(!bufs.empty() || num(head, "buffers"))
    {
      json_object* o = json_object_new_object();
      for(auto& p : bufs) put(o, p.first.c_str(), jstr(p.second->GetSize() == 0 ? "" : hex(std::string((const char*)p.second->GetContent(), p.second->GetSize()))));
      put(e, "bufs", o);
    }
    emit(e);
  }
  if(files) { if(chdir("/") != 0) _exit(7); removetree(root); root.clear(); }
}
int main(int argc, char** argv) { return run(argc, argv, one, 20); }
