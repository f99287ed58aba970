// Executes histories on sm::PropertyTree and BoostPropertyTree (spec/PropTree.tla).
#include "vdrv.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/PropertyTree.hpp>
#include <cmath>
using vd::J;
typedef boost::property_tree::ptree ptree;

static J num(double v) {
  unsigned long long b; memcpy(&b, &v, 8);
  char s[32]; snprintf(s, sizeof s, "%016llx", b);
  double a = std::fabs(v) * 1024;
  bool big = !(a < 2e9);
  return J::obj().set("k", "dbl").set("bits", s).set("neg", std::signbit(v)).set("big", big).set("q", big ? 0LL : (long long)a).set("exact", !big && a == std::floor(a));
}
static double dbl(const std::string& bits) { unsigned long long b = strtoull(bits.c_str(), nullptr, 16); double v; memcpy(&v, &b, 8); return v; }

static J dump(const std::string& k, const ptree& t) {
  J c = J::arr();
  for (auto& p : t) c.push(dump(p.first, p.second));
  return J::obj().set("k", k).set("d", t.data()).set("c", c);
}
static J dump(const std::string& k, const sm::PropertyTree& t) {
  J c = J::arr();
  for (auto& p : t.getChildren()) c.push(dump(p.key, p.pt));
  return J::obj().set("k", k).set("d", t.getString("/")).set("c", c);
}
static ptree build(const J& j) {
  ptree t(j["d"].str());
  for (auto& c : j["c"].a) t.push_back(std::make_pair(c["k"].str(), build(c)));
  return t;
}

struct View { std::shared_ptr<sm::PropertyTree> pt; std::shared_ptr<sm::BoostPropertyTree> b; };
struct Root { std::shared_ptr<sm::PropertyTree> pt; std::shared_ptr<sm::BoostPropertyTree> b; };

struct D {
  std::vector<View> views;
  std::vector<Root> roots;
  D() { // every history starts from the modes the program starts with
    static const bool human = sm::BoostPropertyTree::isHumanReadableInputOutput(), nocomm = sm::BoostPropertyTree::isIgnoreComments();
    sm::BoostPropertyTree::setHumanReadableInputOutput(human); sm::BoostPropertyTree::setIgnoreComments(nocomm);
  }
  void addRoot(std::shared_ptr<sm::BoostPropertyTree> b) { roots.push_back(Root{nullptr, b}); views.push_back(View{b, b}); }
  J ts() {
    J a = J::arr();
    for (auto& r : roots) {
      if (r.b) {
        J c = J::arr();
        const sm::BoostPropertyTree& cb = *r.b;
        for (auto it = cb.begin(); it != cb.end(); ++it) c.push(dump(it->first, it->second));
        a.push(J::obj().set("k", "").set("d", cb.getString("/")).set("c", c));
      } else a.push(dump("", *r.pt));
    }
    return a;
  }
  J step(const J& e) {
    J r;
    try { r = op(e); }
    catch (const sm::PropertyTree::InvalidKeyException&) { r = vd::rExc("key"); }
    catch (const sm::PropertyTree::InvalidValueException&) { r = vd::rExc("value"); }
    catch (const sm::PropertyTree::KeyNotFoundException&) { r = vd::rExc("notfound"); }
    catch (const sm::PropertyTree::InvalidFormatException&) { r = vd::rExc("format"); }
    catch (const std::exception&) { r = vd::rExc("other"); }
    return r.set("ts", ts());
  }
  J op(const J& e) {
    const std::string o = e["op"].str();
    if (o == "new") { addRoot(std::make_shared<sm::BoostPropertyTree>(e["ns"].str())); return vd::rOk(); }
    if (o == "build") { addRoot(std::make_shared<sm::BoostPropertyTree>(build(e["t"]), e["ns"].str())); return vd::rOk(); }
    if (o == "mode") { sm::BoostPropertyTree::setHumanReadableInputOutput(e["human"].boolean()); sm::BoostPropertyTree::setIgnoreComments(e["nocomm"].boolean()); return vd::rOk(); }
    if (o == "damage") {
      std::ifstream in(e["f"].str(), std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str();
      if (in) { size_t n = t.empty() ? 0 : (size_t)e["n"].num() % t.size(); t = e["cut"].boolean() ? t.substr(0, n) : t.substr(0, n) + "{<}" + t.substr(n); std::ofstream(e["f"].str(), std::ios::binary) << t; }
      return vd::rOk();
    }
    View& v = views.at(e["v"].num() - 1);
    if (o == "view") {
      const std::string ns = e["ns"].str();
      std::shared_ptr<sm::PropertyTree> p;
      switch (e["via"].num()) {
        case 0: p = std::make_shared<sm::PropertyTree>(*v.pt, ns); break;
        default: p = std::make_shared<sm::PropertyTree>(v.pt->getChild(ns)); break;
      }
      views.push_back(View{p, nullptr});
      return vd::rOk();
    }
    if (o == "copy") {
      View n;
      if (v.b) { n.b = std::make_shared<sm::BoostPropertyTree>(*v.b); n.pt = n.b; } else n.pt = std::make_shared<sm::PropertyTree>(*v.pt);
      views.push_back(n);
      return vd::rOk();
    }
    if (o == "children") {
      J n = J::arr();
      if (e["const"].boolean()) {
        for (auto& c : static_cast<const sm::ConstPropertyTree&>(*v.pt).getChildren()) n.push(c.key);
      }
      auto cs = v.pt->getChildren();
      J m = J::arr();
      for (auto& c : cs) m.push(c.key);
      if (e["const"].boolean() && m.dump() != n.dump()) return vd::rExc("const children differ");
      for (auto& c : cs) { auto p = std::make_shared<sm::PropertyTree>(c.pt); roots.push_back(Root{p, nullptr}); views.push_back(View{p, nullptr}); }
      return J::obj().set("k", "names").set("n", m);
    }
    if (o == "update") {
      View& w = views.at(e["w"].num() - 1);
      bool c = e["create"].boolean(), i = e["ignore"].boolean();
      if (!i && c) v.b->update(*w.b); else if (!i) v.b->update(*w.b, c); else v.b->update(*w.b, c, i);
      return vd::rOk();
    }
    if (o == "string") {
      const std::string s = e["s"].str();
      if (e["via"].num() == 0) v.b->loadString(s);
      else {   // cut into words at some commas
        std::vector<std::string> w(1);
        int depth = 0;
        for (char c : s) { if (c == '{') depth++; if (c == '}') depth--; if (c == ',' && depth == 0) w.push_back(""); else w.back() += c; }
        if (e["via"].num() == 1) v.b->loadStrings(w);
        else { std::vector<const char*> a; for (auto& x : w) a.push_back(x.c_str()); v.b->loadStrings((int)a.size(), a.data()); }
      }
      return vd::rOk();
    }
    if (o == "save" || o == "load") {
      const std::string f = e["f"].str(), fmt = e["fmt"].str(), via = e["via"].str();
      sm::BoostPropertyTree& b = *v.b;
      const sm::BoostPropertyTree& cb = b;
      if (o == "save") {
        if (via == "ext") cb.save(f);
        else if (via == "extstr") cb.saveStr(f);
        else if (via == "info") std::ofstream(f) << cb.asInfoString();
        else if (via == "str") { if (fmt == "xml") cb.saveXmlStr(f); else if (fmt == "json") cb.saveJsonStr(f); else if (fmt == "ini") cb.saveIniStr(f); else cb.saveInfoStr(f); }
        else { if (fmt == "xml") cb.saveXml(f); else if (fmt == "json") cb.saveJson(f); else if (fmt == "ini") cb.saveIni(f); else cb.saveInfo(f); }
      } else {
        if (via == "ext") b.load(f);
        else if (via == "extstr") b.loadStr(f);
        else if (via == "xmlstring") { std::ifstream in(f); if (!in) throw std::runtime_error("no file"); std::stringstream ss; ss << in.rdbuf(); b.loadXmlFromString(ss.str()); }
        else if (via == "str") { if (fmt == "xml") b.loadXmlStr(f); else if (fmt == "json") b.loadJsonStr(f); else if (fmt == "ini") b.loadIniStr(f); else b.loadInfoStr(f); }
        else { if (fmt == "xml") b.loadXml(f); else if (fmt == "json") b.loadJson(f); else if (fmt == "ini") b.loadIni(f); else b.loadInfo(f); }
      }
      return vd::rOk();
    }
    const std::string key = e["key"].str();
    if (o == "exists") return vd::rInt(v.pt->doesKeyExist(key));
    const std::string ty = e["ty"].str();
    if (o == "set") {
      const J& x = e["x"];
      if (ty == "string") v.pt->setString(key, x["s"].str());
      else if (ty == "int") v.pt->setInt(key, (int)x["i"].num());
      else if (ty == "bool") v.pt->setBool(key, x["i"].num() != 0);
      else v.pt->setDouble(key, dbl(x["bits"].str()));
      return vd::rOk();
    }
    const bool c = e["const"].boolean();
    const sm::ConstPropertyTree cp(*v.pt);
    const sm::PropertyTree& cr = *v.pt;
    if (o == "get") {
      if (ty == "string") return vd::rStr(c ? cp.getString(key) : v.pt->getString(key));
      if (ty == "int") return vd::rInt(c ? cp.getInt(key) : v.pt->getInt(key));
      if (ty == "bool") return vd::rInt(c ? cp.getBool(key) : v.pt->getBool(key));
      return num(c ? cp.getDouble(key) : v.pt->getDouble(key));
    }
    if (o == "getd") {
      const J& x = e["x"];
      bool viaRef = e.has("ref") && e["ref"].boolean();
      if (ty == "string") return vd::rStr(c ? (viaRef ? cr.getString(key, x["s"].str()) : cp.getString(key, x["s"].str())) : v.pt->getString(key, x["s"].str()));
      if (ty == "int") return vd::rInt(c ? (viaRef ? cr.getInt(key, (int)x["i"].num()) : cp.getInt(key, (int)x["i"].num())) : v.pt->getInt(key, (int)x["i"].num()));
      if (ty == "bool") return vd::rInt(c ? (viaRef ? cr.getBool(key, x["i"].num() != 0) : cp.getBool(key, x["i"].num() != 0)) : v.pt->getBool(key, x["i"].num() != 0));
      return num(c ? (viaRef ? cr.getDouble(key, dbl(x["bits"].str())) : cp.getDouble(key, dbl(x["bits"].str()))) : v.pt->getDouble(key, dbl(x["bits"].str())));
    }
    std::cerr << "bad op " << o << "\n"; _exit(97);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv, true); }
