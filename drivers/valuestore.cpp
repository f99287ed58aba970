// Executes histories on sm::value_store (spec/ValueStore.tla).
#include "vdrv.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include <cmath>
using vd::J;
typedef boost::property_tree::ptree ptree;
using namespace sm::value_store;

static J num(double v) {
  unsigned long long b; memcpy(&b, &v, 8);
  char s[32]; snprintf(s, sizeof s, "%016llx", b);
  double a = std::fabs(v) * 1024;
  bool big = !(a < 2e9);
  return J::obj().set("k", "dbl").set("bits", s).set("neg", std::signbit(v)).set("big", big).set("q", big ? 0LL : (long long)a).set("exact", !big && a == std::floor(a));
}
static double dbl(const std::string& bits) { unsigned long long b = strtoull(bits.c_str(), nullptr, 16); double v; memcpy(&v, &b, 8); return v; }
static J dump(const std::string& k, const ptree& t) {
  J c = J::arr();
  for (auto& p : t) c.push(dump(p.first, p.second));
  return J::obj().set("k", k).set("d", t.data()).set("c", c);
}
static ptree build(const J& j) {
  ptree t(j["d"].str());
  for (auto& c : j["c"].a) t.push_back(std::make_pair(c["k"].str(), build(c)));
  return t;
}

// a store that knows nothing about children
class Flat : public ValueStore {
 public:
  Flat(ValueStore::SharedPtr b) : b_(b) {}
  ValueHandle<bool> getBool(const std::string& p, boost::optional<bool> d) const override { return b_->getBool(p, d); }
  ValueHandle<int> getInt(const std::string& p, boost::optional<int> d) const override { return b_->getInt(p, d); }
  ValueHandle<double> getDouble(const std::string& p, boost::optional<double> d) const override { return b_->getDouble(p, d); }
  ValueHandle<std::string> getString(const std::string& p, boost::optional<std::string> d) const override { return b_->getString(p, d); }
  bool hasKey(const std::string& p) const override { return b_->hasKey(p); }
  KeyValueStorePair getChild(const std::string&) const override { throw std::runtime_error("children are not supported"); }
  std::vector<KeyValueStorePair> getChildren() const override { throw std::runtime_error("children are not supported"); }
  bool isChildSupported() const override { return false; }
 private:
  ValueStore::SharedPtr b_;
};

static J val(const std::string& v) { return vd::rStr(v).set("txt", "\"" + v + "\""); }
static J val(int v) { return vd::rInt(v).set("txt", std::to_string(v)); }
static J val(bool v) { return vd::rInt(v).set("txt", std::to_string(v)); }
static J val(double v) { return num(v).set("txt", std::to_string(v)); }
template <class T> T from(const J& x);
template <> std::string from(const J& x) { return x["s"].str(); }
template <> int from(const J& x) { return (int)x["i"].num(); }
template <> bool from(const J& x) { return x["i"].num() != 0; }
template <> double from(const J& x) { return dbl(x["bits"].str()); }

struct Handle {
  virtual ~Handle() {}
  virtual J get() = 0;
  virtual J update(const J& x) = 0;
};
template <class T> const char* tyName();
template <> const char* tyName<std::string>() { return "string"; }
template <> const char* tyName<int>() { return "int"; }
template <> const char* tyName<bool>() { return "bool"; }
template <> const char* tyName<double>() { return "double"; }
template <class T> struct HandleT : Handle {
  ValueHandle<T> h;
  ValueHandle<std::string> text;   // bound to the same place
  HandleT(ValueHandle<T>&& h_) : h(std::move(h_)) {}
  J get() override { T v = h.get(); return val(v).set("u", h.isUpdateable()); }
  J update(const J& x) override {
    if (!h.isUpdateable()) return J::obj().set("k", "fixed");
    h.update(from<T>(x[tyName<T>()]));
    return vd::rOk().set("d", text.empty() ? std::string() : text.get());
  }
};

struct Var { ValueStoreRef r; ExtendibleValueStore::SharedPtr e; int ch; };

struct D {
  std::vector<std::shared_ptr<sm::BoostPropertyTree>> roots;
  std::vector<Var> vars;
  std::vector<std::unique_ptr<Handle>> handles;
  std::vector<std::pair<int, std::string>> log;
  int channels = 0;

  J ts() {
    J a = J::arr();
    for (auto& r : roots) {
      J c = J::arr();
      const sm::BoostPropertyTree& cb = *r;
      for (auto it = cb.begin(); it != cb.end(); ++it) c.push(dump(it->first, it->second));
      a.push(J::obj().set("k", "").set("d", cb.getString("/")).set("c", c));
    }
    return a;
  }
  J step(const J& e) {
    J r;
    size_t n = log.size(), m = log.size();
    int ch = -1;
    try {
      if (e.has("v") && (size_t)e["v"].num() <= vars.size()) ch = vars[e["v"].num() - 1].ch;
      r = op(e, m);
    }
    catch (const sm::PropertyTree::InvalidKeyException&) { r = vd::rExc("key"); m = log.size(); }
    catch (const sm::PropertyTree::InvalidValueException&) { r = vd::rExc("value"); m = log.size(); }
    catch (const std::out_of_range&) { std::cerr << "driver: no such variable\n"; _exit(97); }
    catch (const std::exception&) { r = vd::rExc("other"); m = log.size(); }
    if (e.has("ty") && e.has("v")) {
      J l = J::arr();
      for (size_t i = n; i < m; i++) if (log[i].first == ch) l.push(log[i].second);
      r.set("log", l);
    } else if (e["op"].str() == "has") {
      J l = J::arr();
      for (size_t i = n; i < log.size(); i++) if (log[i].first == ch) l.push(log[i].second);
      r.set("log", l);
    }
    return r.set("ts", ts());
  }
  static bool verbose(const ValueStore* s) { return dynamic_cast<const VerboseValueStore*>(s) || dynamic_cast<const VerboseExtendibleValueStore*>(s); }
  void add(const ValueStoreRef& r, ExtendibleValueStore::SharedPtr e = nullptr) {
    Var v{r, e, -1};
    if (verbose(&r.getValueStore())) { size_t n = log.size(); r.hasKey("probe"); if (log.size() > n) v.ch = log.back().first; }
    if (!v.e && r.isExtendible()) v.e = r.asExtendible().getValueStoreSharedPtr();
    vars.push_back(v);
  }
  template <class C> J names(const C& cs) {
    J m = J::arr();
    for (auto& c : cs) m.push(c.getKey());
    return J::obj().set("k", "names").set("n", m);
  }
  template <class T> J keep(ValueHandle<T>&& h, const ValueStoreRef& s, const std::string& path, size_t& m) {
    m = log.size();
    auto p = std::unique_ptr<HandleT<T>>(new HandleT<T>(std::move(h)));
    J r = p->get();
    if (p->h.isUpdateable()) p->text = s.getString(path);
    handles.push_back(std::move(p));
    return r;
  }
  template <class T> J get(const J& e, size_t& m) {
    auto& r = vars.at(e["v"].num() - 1).r;
    const std::string p = e["path"].str();
    if (e["def"].boolean()) return keep<T>(r.get<T>(p, from<T>(e["x"])), r, p, m);
    return keep<T>(r.get<T>(p), r, p, m);
  }
  template <class T> J find(const J& e, size_t& m) {
    auto& r = vars.at(e["v"].num() - 1).r;
    std::vector<std::string> ps;
    for (auto& x : e["paths"].a) ps.push_back(x.str());
    J alerts = J::arr();
    auto on = [&](std::string p, std::string msg) { alerts.push(J::arr().push(p).push(msg)); };
    boost::optional<T> d;
    if (e["def"].boolean()) d = from<T>(e["x"]);
    J res;
    // without an alert handler the message goes to the standard error output
    std::stringstream err;
    auto* old = std::cerr.rdbuf(err.rdbuf());
    const bool quiet = e["quiet"].boolean();
    try {
      ValueHandle<T> h = quiet ? r.get<T>(ps, d) : r.get<T>(ps, d, on);
      T v = h.get();
      res = val(v).set("u", h.isUpdateable());
      auto p = std::unique_ptr<HandleT<T>>(new HandleT<T>(std::move(h)));
      if (p->h.isUpdateable()) p->text = r.get<std::string>(ps, boost::optional<std::string>(), [](std::string, std::string) {});
      handles.push_back(std::move(p));
    }
    catch (const sm::PropertyTree::InvalidKeyException&) { res = vd::rExc("key"); }
    catch (const sm::PropertyTree::InvalidValueException&) { res = vd::rExc("value"); }
    catch (const std::exception&) { res = vd::rExc("other"); }
    std::cerr.rdbuf(old);
    std::string msg = err.str();
    res.set("spoke", !msg.empty());
    while (!msg.empty() && msg.back() == '\n') msg.pop_back();
    res.set("err", msg);
    m = log.size();
    return res.set("alerts", alerts);
  }
  template <class T, class A> J adder(const J& e, A add, size_t& m) {
    auto& v = vars.at(e["v"].num() - 1);
    ExtendibleValueStoreRef x(v.e);
    const std::string p = e["path"].str();
    J r = keep<T>((x.*add)(p, from<T>(e["x"])), v.r, p, m);
    return r.set("d", v.r.getString(p).get());
  }
  template <class T> J aspt(const J& e) {
    sm::ConstPropertyTree t = vars.at(e["v"].num() - 1).r.asPropertyTree();
    sm::ConstPropertyTree c(t, e["ns"].str());
    return val(e["def"].boolean() ? read(c, e["path"].str(), from<T>(e["x"])) : read(c, e["path"].str(), (T*)nullptr));
  }
  static std::string read(const sm::ConstPropertyTree& c, const std::string& p, std::string d) { return c.getString(p, d); }
  static int read(const sm::ConstPropertyTree& c, const std::string& p, int d) { return c.getInt(p, d); }
  static bool read(const sm::ConstPropertyTree& c, const std::string& p, bool d) { return c.getBool(p, d); }
  static double read(const sm::ConstPropertyTree& c, const std::string& p, double d) { return c.getDouble(p, d); }
  static std::string read(const sm::ConstPropertyTree& c, const std::string& p, std::string*) { return c.getString(p); }
  static int read(const sm::ConstPropertyTree& c, const std::string& p, int*) { return c.getInt(p); }
  static bool read(const sm::ConstPropertyTree& c, const std::string& p, bool*) { return c.getBool(p); }
  static double read(const sm::ConstPropertyTree& c, const std::string& p, double*) { return c.getDouble(p); }

  bool makeable(const J& e) {
    const std::string o = e["op"].str();
    size_t n = vars.size();
    if (e.has("v") && (size_t)e["v"].num() > n) return false;
    if (e.has("w") && (size_t)e["w"].num() > n) return false;
    if (e.has("l")) for (auto& x : e["l"].a) if ((size_t)x.num() > n) return false;
    if (o == "addlay") return dynamic_cast<LayeredValueStore*>(&vars[e["v"].num() - 1].r.getValueStore()) != nullptr;
    if (o == "add" || o == "echild" || o == "echildren" || (o == "ver" && e["ext"].boolean())) return (bool)vars[e["v"].num() - 1].e;
    return true;
  }
  J op(const J& e, size_t& m) {
    const std::string o = e["op"].str();
    if (!makeable(e)) return J::obj().set("k", "none");
    if (o == "build") {
      auto b = std::make_shared<sm::BoostPropertyTree>(build(e["t"]), e["ns"].str());
      roots.push_back(b);
      if (e.has("viaExt") && e["viaExt"].boolean()) { ExtendibleValueStoreRef x(static_cast<sm::PropertyTree&>(*b)); add(x, x.getValueStoreSharedPtr()); }
      else add(ValueStoreRef(static_cast<sm::PropertyTree&>(*b)));
      return vd::rOk();
    }
    if (o == "fresh") { add(ValueStoreRef()); return vd::rOk(); }
    if (o == "lay") {
      std::vector<ValueStoreRef> l;
      for (auto& x : e["l"].a) l.push_back(vars.at(x.num() - 1).r);
      std::shared_ptr<LayeredValueStore> s;
      if (l.size() == 2) s = std::make_shared<LayeredValueStore>(l[0], l[1]);
      else if (l.size() == 3) s = std::make_shared<LayeredValueStore>(l[0], l[1], l[2]);
      else { s = std::make_shared<LayeredValueStore>(); for (auto& x : l) s->add(x); }
      add(ValueStoreRef(s));
      return vd::rOk();
    }
    if (o == "null") { ValueStoreRef x{ValueStore::SharedPtr()}; return vd::rOk(); }
    if (o == "parse") { if (e.has("viaExt") && e["viaExt"].boolean()) add(ExtendibleValueStoreRef::fromString(e["s"].str())); else add(ValueStoreRef::fromString(e["s"].str())); return vd::rOk(); }
    if (o == "hget" || o == "hupd") {
      size_t h = e["h"].num();
      if (h > handles.size()) return J::obj().set("k", "none");
      return o == "hget" ? handles[h - 1]->get() : handles[h - 1]->update(e["x"]);
    }
    const std::string ty = e.has("ty") ? e["ty"].str() : "";
    if (o == "tset") {
      auto& b = *roots.at(e["root"].num() - 1);
      const std::string k = e["key"].str();
      const J& x = e["x"];
      if (ty == "string") b.setString(k, x["s"].str());
      else if (ty == "int") b.setInt(k, (int)x["i"].num());
      else if (ty == "bool") b.setBool(k, x["i"].num() != 0);
      else b.setDouble(k, dbl(x["bits"].str()));
      return vd::rOk();
    }
    Var v = vars.at(e["v"].num() - 1);
    if (o == "addlay") {
      auto* l = dynamic_cast<LayeredValueStore*>(&v.r.getValueStore());
      if (!l) { std::cerr << "driver: not layered\n"; _exit(97); }
      l->add(vars.at(e["w"].num() - 1).r.getValueStoreSharedPtr());
      return vd::rOk();
    }
    if (o == "pre") { add(ValueStoreRef(std::make_shared<PrefixedValueStore>(v.r, e["mode"].str() == "add" ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, e["pre"].str()))); return vd::rOk(); }
    if (o == "nch") { add(ValueStoreRef(std::make_shared<Flat>(v.r.getValueStoreSharedPtr()))); return vd::rOk(); }
    if (o == "ver") {
      int c = ++channels;
      auto f = [this, c](const std::string& s) { log.push_back(std::make_pair(c, s)); };
      if (e["ext"].boolean()) { auto s = std::make_shared<VerboseExtendibleValueStore>(v.e, f); add(ValueStoreRef(ValueStore::SharedPtr(s)), s); }
      else add(ValueStoreRef(std::make_shared<VerboseValueStore>(v.r.getValueStoreSharedPtr(), f)));
      return vd::rOk();
    }
    if (o == "child") { add(v.r.getChild(e["key"].str())); return vd::rOk(); }
    if (o == "echild") {
      auto c = ExtendibleValueStoreRef(v.e).getExtendibleChild(e["key"].str());
      if (c.getKey() != e["key"].str()) return vd::rExc("another key");
      add(c, c.getValueStoreSharedPtr());
      return vd::rOk();
    }
    if (o == "children") { auto c = v.r.getChildren(); for (auto& x : c) add(x); return names(c); }
    if (o == "echildren") { auto c = ExtendibleValueStoreRef(v.e).getExtendibleChildren(); for (auto& x : c) add(x, x.getValueStoreSharedPtr()); return names(c); }
    if (o == "has") return vd::rInt(v.r.hasKey(e["path"].str()));
    if (o == "empty") return vd::rInt(v.r.isEmpty());
    if (o == "ext") {
      bool b = v.r.isExtendible();
      bool threw = false;
      try { v.r.asExtendible(); } catch (const std::exception&) { threw = true; }
      if (threw == b) return vd::rExc("asExtendible");
      return vd::rInt(b);
    }
    if (o == "cansave") return vd::rInt(v.r.canSave());
    if (o == "resave") {
      v.r.saveTo("x.info");
      if (e["viaExt"].boolean()) add(ExtendibleValueStoreRef::fromFile("x.info")); else add(ValueStoreRef::fromFile("x.info"));
      return vd::rOk();
    }
    if (o == "aspthas") { sm::ConstPropertyTree t = v.r.asPropertyTree(); return vd::rInt(sm::ConstPropertyTree(t, e["ns"].str()).doesKeyExist(e["path"].str())); }
#define BYTYPE(f, ...) (ty == "string" ? f<std::string>(__VA_ARGS__) : ty == "int" ? f<int>(__VA_ARGS__) : ty == "bool" ? f<bool>(__VA_ARGS__) : f<double>(__VA_ARGS__))
    if (o == "get") return BYTYPE(get, e, m);
    if (o == "find") return BYTYPE(find, e, m);
    if (o == "aspt") return BYTYPE(aspt, e);
    if (o == "add") {
      if (ty == "string") return adder<std::string>(e, &ExtendibleValueStoreRef::addString, m);
      if (ty == "int") return adder<int>(e, &ExtendibleValueStoreRef::addInt, m);
      if (ty == "bool") return adder<bool>(e, &ExtendibleValueStoreRef::addBool, m);
      return adder<double>(e, &ExtendibleValueStoreRef::addDouble, m);
    }
    std::cerr << "bad op " << o << "\n"; _exit(97);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv, true); }
