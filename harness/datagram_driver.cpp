// Executes operations on datagrams and messages (see checks/dgprogs.py) and records their results and what is observable
// after each of them.
#include <cstdint>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

#include <lamppost/messages/Message.h>
#include <lamppost/exceptions/IndexOutOfBoundsException.h>
#include <lamppost/exceptions/KeyNotFoundException.h>
#include "case.h"

using namespace lp;
using namespace cases;
typedef messages::Datagram D;
typedef messages::RawDatagram R;

static std::vector<std::string> keys;
static std::map<std::string, std::unique_ptr<D>> hs;
static std::map<std::string, std::unique_ptr<messages::Message>> ms;

static double todouble(const std::string& s) { uint64_t u = strtoull(s.c_str(), nullptr, 16); double d; memcpy(&d, &u, 8); return d; }
static std::string fromdouble(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }
static std::shared_ptr<R> rawvalue(const std::string& t, const std::string& v)
{
  if(t == "i") return std::make_shared<R>((int)strtol(v.c_str(), nullptr, 10));
  if(t == "d") return std::make_shared<R>(todouble(v));
  if(t == "b") return std::make_shared<R>(v == "1");
  return std::make_shared<R>(unhex(v));
}
static std::shared_ptr<R> build(json_object* t)
{
  std::string k = str(t, "k");
  if(k == "e") return std::make_shared<R>();
  if(k == "v") return rawvalue(str(t, "t"), str(t, "v"));
  if(k == "n")                                      // one inside the other: lists ("l") and dictionaries ("d" and the key) of one element
  {
    std::shared_ptr<R> r = build(get(t, "t")); json_object* p = get(t, "p");
    for(size_t i = json_object_array_length(p); i-- > 0;)
    {
      std::string w = json_object_get_string(json_object_array_get_idx(p, i)); std::shared_ptr<R> o = std::make_shared<R>(w == "l" ? messages::RawDatagramType::List : messages::RawDatagramType::Dictionary);
      if(w == "l") o->Add(r); else (*o)[unhex(w.substr(1))] = r;
      r = o;
    }
    return r;
  }
  if(k == "l")
  {
    std::shared_ptr<R> r = std::make_shared<R>(messages::RawDatagramType::List); json_object* l = get(t, "l");
    for(size_t i = 0; i < json_object_array_length(l); ++i) r->Add(build(json_object_array_get_idx(l, i)));
    return r;
  }
  std::shared_ptr<R> r = std::make_shared<R>(messages::RawDatagramType::Dictionary);
  json_object_object_foreach(get(t, "d"), key, val) { (*r)[unhex(key)] = build(val); }
  return r;
}
static json_object* truth(bool b) { return jstr(b ? "TRUE" : "FALSE"); }
static bool deep;
static json_object* tree(D& d, bool inner = false);
// Nesting of lists and dictionaries of one element each is written as {k: "n", p: what is inside of what, t: the innermost one}.
static json_object* nested(D& d)
{
  std::vector<std::string> p; std::unique_ptr<D> c;
  for(;;)
  {
    std::unique_ptr<D> next; D& at = c ? *c : d; messages::RawDatagramType ty = at.GetType();
    if(ty == messages::RawDatagramType::List && at.GetCount() == 1) { p.push_back("l"); next.reset(new D(at[0u])); }
    else if(ty == messages::RawDatagramType::Dictionary && at.GetCount() == 1)
    {
      for(const std::string& k : keys) if(at.KeyExists(k)) { p.push_back("d" + hex(k)); next.reset(new D(at[k])); break; }
    }
    if(!next) break;
    c = std::move(next);
  }
  if(p.size() < 2) return nullptr;
  json_object* o = json_object_new_object(); json_object* l = json_object_new_array(); for(auto& w : p) json_object_array_add(l, jstr(w));
  put(o, "k", jstr("n")); put(o, "p", l); put(o, "t", tree(*c, true));
  return o;
}
static json_object* tree(D& d, bool inner)
{
  if(deep && !inner) if(json_object* n = nested(d)) return n;
  json_object* o = json_object_new_object();
  switch(d.GetType())
  {
    case messages::RawDatagramType::Empty: put(o, "k", jstr("e")); break;
    case messages::RawDatagramType::Value:
    {
      put(o, "k", jstr("v")); int n = 0; std::string t, v;
      try { std::string s = d.Get<std::string>(); ++n; t = "s"; v = hex(s); } catch(exceptions::InvalidOperationException&) {}
      try { int i = d.Get<int>(); ++n; t = "i"; v = std::to_string(i); } catch(exceptions::InvalidOperationException&) {}
      try { double f = d.Get<double>(); ++n; t = "d"; v = fromdouble(f); } catch(exceptions::InvalidOperationException&) {}
      try { bool b = d.Get<bool>(); ++n; t = "b"; v = b ? "1" : "0"; } catch(exceptions::InvalidOperationException&) {}
      if(n != 1) t = "?" + std::to_string(n);
      put(o, "t", jstr(t)); put(o, "v", jstr(v));
    } break;
    case messages::RawDatagramType::List:
    {
      put(o, "k", jstr("l")); json_object* l = json_object_new_array(); unsigned int n = d.GetCount();
      for(unsigned int i = 0; i < n; ++i) { D e = d[i]; json_object_array_add(l, tree(e)); }
      put(o, "l", l);
    } break;
    case messages::RawDatagramType::Dictionary:
    {
      put(o, "k", jstr("d")); json_object* m = json_object_new_object(); unsigned int n = 0;
      for(const std::string& k : keys) if(d.KeyExists(k)) { D e = d[k]; put(m, hex(k).c_str(), tree(e)); ++n; }
      if(n != d.GetCount()) put(m, "further", jstr(std::to_string((long)d.GetCount() - (long)n)));
      put(o, "d", m);
    } break;
    default: put(o, "k", jstr("?"));
  }
  return o;
}
static json_object* message(messages::Message& m)
{
  json_object* o = json_object_new_object(); D d = m.GetDatagram();
  put(o, "s", jstr(hex(m.GetSender()))); put(o, "top", jstr(hex(m.GetTopic()))); put(o, "tree", tree(d));
  return o;
}
static std::string mutate(std::string b, json_object* muts)
{
  for(size_t i = 0; muts && i < json_object_array_length(muts); ++i)
  {
    json_object* m = json_object_array_get_idx(muts, i); std::string k = str(m, "k"); size_t n = (size_t)num(m, "n");
    if(k == "cut") b = b.substr(0, b.empty() ? 0 : n % b.size());                    // shorter by at least one byte
    else if(k == "flip" && !b.empty()) b[n % b.size()] ^= (char)(1 << num(m, "bit"));
    else if(k == "byte" && !b.empty()) b[n % b.size()] = (char)num(m, "v");
    else if(k == "word" && b.size() >= 4) { int32_t w = (int32_t)num(m, "v"); memcpy(&b[(n % (b.size() - 3)) & ~(size_t)3], &w, 4); }
    else if(k == "append") b += unhex(str(m, "v"));
    else if(k == "set") b = unhex(str(m, "v"));
  }
  return b;
}
// Performs the operation; false if it does not make sense now (a handle or message that does not exist).
static bool perform(json_object* e, json_object*& r)
{
  std::string op = str(e, "op"), a = str(e, "a"), b = str(e, "b");
  bool needA = op != "create" && op != "json" && op != "copy" && op != "key" && op != "idx" && op != "mget" && has(e, "a");
  if(needA && !hs.count(a)) return false;
  if(has(e, "b") && !hs.count(b)) return false;
  if(has(e, "o") && !ms.count(str(e, "o"))) return false;
  if(op == "mget" || op == "prepend" || op == "wassent" || op == "remove" || op == "meq" || op == "mprint") if(!ms.count(str(e, "m"))) return false;
  long form = num(e, "form");
  json_object* t = get(e, "tree");
  if(op == "create")
  {
    std::string k = str(t, "k");
    if(form == 1 && k == "e") hs[a].reset(new D());
    else if(form == 1 && k == "l" && json_object_array_length(get(t, "l")) == 0) hs[a].reset(new D(messages::RawDatagramType::List));
    else if(form == 1 && k == "d" && json_object_object_length(get(t, "d")) == 0) hs[a].reset(new D(messages::RawDatagramType::Dictionary));
    else if(form == 2 && k == "e") hs[a].reset(new D(messages::RawDatagramType::Empty));
    else if(form == 2 && k == "v" && str(t, "t") == "i" && str(t, "v") == "0") hs[a].reset(new D(messages::RawDatagramType::Value));
    else if(form == 1 && k == "v")
    {
      std::string ty = str(t, "t"), v = str(t, "v");
      if(ty == "i") hs[a].reset(new D((int)strtol(v.c_str(), nullptr, 10)));
      else if(ty == "d") hs[a].reset(new D(todouble(v)));
      else if(ty == "b") hs[a].reset(new D(v == "1"));
      else if(unhex(v).find('\0') == std::string::npos && num(e, "lit")) hs[a].reset(new D(unhex(v).c_str()));
      else hs[a].reset(new D(unhex(v)));
    }
    else hs[a].reset(new D(build(t)));
  }
  else if(op == "copy")
  {
    if(form == 1) { D tmp(*hs[b]); hs[a].reset(new D(tmp)); }
    else hs[a].reset(new D(*hs[b]));
  }
  else if(op == "setv")
  {
    std::string ty = str(e, "t"), v = str(e, "v"); D& d = *hs[a];
    if(ty == "i") d = (int)strtol(v.c_str(), nullptr, 10);
    else if(ty == "d") d = todouble(v);
    else if(ty == "b") d = (v == "1");
    else if(form == 1 && unhex(v).find('\0') == std::string::npos) d = unhex(v).c_str();
    else d = unhex(v);
  }
  else if(op == "seth") { D& d = *hs[a]; d = *hs[b]; }
  else if(op == "sett") { D& d = *hs[a]; D v(build(t)); d = v; }
  else if(op == "key") { std::unique_ptr<D> n(new D((*hs[b])[unhex(str(e, "s"))])); hs[a] = std::move(n); }
  else if(op == "idx") { std::unique_ptr<D> n(new D((*hs[b])[(unsigned int)num(e, "i")])); hs[a] = std::move(n); }
  else if(op == "add") hs[a]->Add(build(t));
  else if(op == "rmk") hs[a]->Remove(unhex(str(e, "s")));
  else if(op == "rmi") hs[a]->Remove((unsigned int)num(e, "i"));
  else if(op == "clear") hs[a]->Clear();
  else if(op == "count") r = jstr(std::to_string(hs[a]->GetCount()));
  else if(op == "exists") r = truth(hs[a]->KeyExists(unhex(str(e, "s"))));
  else if(op == "isempty") r = truth(hs[a]->IsEmpty());
  else if(op == "kind")
  {
    messages::RawDatagramType ty = hs[a]->GetType();
    r = jstr(ty == messages::RawDatagramType::Empty ? "e" : ty == messages::RawDatagramType::Value ? "v" : ty == messages::RawDatagramType::List ? "l" : ty == messages::RawDatagramType::Dictionary ? "d" : "?");
  }
  else if(op == "get")
  {
    std::string ty = str(e, "t"); D& d = *hs[a];
    if(ty == "i") r = jstr(std::to_string(d.Get<int>()));
    else if(ty == "d") r = jstr(fromdouble(d.Get<double>()));
    else if(ty == "b") r = jstr(d.Get<bool>() ? "1" : "0");
    else if(form == 1) { std::string s = d; r = jstr(hex(s)); }
    else r = jstr(hex(d.Get<std::string>()));
  }
  else if(op == "path")
  {
    std::string ty = str(e, "t"), p = unhex(str(e, "p")), def = str(e, "def"); D& d = *hs[a];
    if(ty == "i") r = jstr(std::to_string(d.Get<int>(p, (int)strtol(def.c_str(), nullptr, 10))));
    else if(ty == "d") r = jstr(fromdouble(d.Get<double>(p, todouble(def))));
    else if(ty == "b") r = jstr(d.Get<bool>(p, def == "1") ? "1" : "0");
    else r = jstr(hex(d.Get<std::string>(p, unhex(def))));
  }
  else if(op == "eq") r = truth(*hs[a] == *hs[b]);
  else if(op == "mnew") { std::unique_ptr<messages::Message> n(new messages::Message(unhex(str(e, "s")), unhex(str(e, "top")), *hs[a])); ms[str(e, "m")] = std::move(n); }
  else if(op == "mcopy")
  {
    std::unique_ptr<messages::Message> n(new messages::Message(*ms[str(e, "o")]));
    if(form == 1 && ms.count(str(e, "m"))) *ms[str(e, "m")] = *n; else ms[str(e, "m")] = std::move(n);
  }
  else if(op == "mget") hs[a].reset(new D(ms[str(e, "m")]->GetDatagram()));
  else if(op == "meq") r = truth(*ms[str(e, "m")] == *ms[str(e, "o")]);
  else if(op == "wire")
  {
    std::shared_ptr<data::RawBytes> bytes = ms[str(e, "o")]->SerializeToBytes();
    std::unique_ptr<messages::Message> n(new messages::Message(messages::Message::Deserialize(bytes))); ms[str(e, "m")] = std::move(n);
  }
  else if(op == "bytes")
  {
    std::shared_ptr<data::RawBytes> bytes = ms[str(e, "o")]->SerializeToBytes();
    std::string was((const char*)bytes->GetContent(), bytes->GetSize()), is = mutate(was, get(e, "mut"));
    put(e, "good", json_object_new_boolean(is == was)); put(e, "known", jstr(str(e, "o"))); put(e, "msg", json_object_new_array());
    std::unique_ptr<messages::Message> n;
    try { n.reset(new messages::Message(messages::Message::Deserialize(std::make_shared<data::RawBytes>((unsigned char*)is.data(), (unsigned int)is.size())))); }
    catch(std::exception&) { throw exceptions::InvalidOperationException(""); }
    json_object_array_add(get(e, "msg"), message(*n));
    ms[str(e, "m")] = std::move(n);
  }
  else if(op == "prepend") ms[str(e, "m")]->PrependSender(unhex(str(e, "n")));
  else if(op == "remove") ms[str(e, "m")]->RemoveSender(unhex(str(e, "n")));
  else if(op == "wassent") r = truth(ms[str(e, "m")]->WasSentBySender(unhex(str(e, "n"))));
  else if(op == "json") { std::unique_ptr<D> n(new D(D::DeserializeFromJson(unhex(str(e, "text"))))); hs[a] = std::move(n); }
  else if(op == "print")
  {
    std::ostringstream o; o << *hs[a];
    r = jstr(hex(o.str()));
  }
  else if(op == "mprint") { std::ostringstream o; o << *ms[str(e, "m")]; r = jstr(hex(o.str())); }
  else { fprintf(stderr, "unknown operation %s\n", op.c_str()); _exit(7); }
  return true;
}
static void one(json_object* prog)
{
  keys.clear(); hs.clear(); ms.clear();
  deep = has(json_object_array_get_idx(prog, 0), "deep");
  long every = num(json_object_array_get_idx(prog, 0), "every", 1);                       // what is observable is recorded after every n-th operation only (and after the last one)
  json_object* ks = get(json_object_array_get_idx(prog, 0), "keys");
  for(size_t i = 0; i < json_object_array_length(ks); ++i) keys.push_back(unhex(json_object_get_string(json_object_array_get_idx(ks, i))));
  for(size_t i = 1; i < json_object_array_length(prog); ++i)
  {
    json_object* e = json_object_array_get_idx(prog, i); json_object* r = nullptr; std::string x;
    try { if(!perform(e, r)) continue; }
    catch(exceptions::IndexOutOfBoundsException&) { x = "IndexOutOfBounds"; }
    catch(exceptions::KeyNotFoundException&) { x = "KeyNotFound"; }
    catch(exceptions::InvalidOperationException&) { x = "InvalidOperation"; }
    catch(std::exception& ex) { x = std::string("another exception: ") + ex.what(); }
    if(!x.empty()) r = nullptr;
    put(e, "x", jstr(x)); put(e, "r", r ? r : jstr(""));
    if((long)i % every != 0 && i + 1 != json_object_array_length(prog)) { emit(e); continue; }
    json_object* trees = json_object_new_object(); for(auto& p : hs) put(trees, p.first.c_str(), tree(*p.second));
    json_object* msgs = json_object_new_object(); for(auto& p : ms) put(msgs, p.first.c_str(), message(*p.second));
    put(e, "trees", trees); put(e, "msgs", msgs);
    emit(e);
  }
}
int main(int argc, char** argv) { return run(argc, argv, one, 50); }
