// Executes histories on sm::BoostPropertyTreeLoader in a scratch directory (spec/Loader.tla).
#include "vdrv.hpp"
#include <boost/filesystem.hpp>
#include <boost/property_tree/info_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <fstream>
using vd::J;
namespace fs = boost::filesystem;
typedef boost::property_tree::ptree ptree;
static std::string ROOT;
static std::string in(std::string s) {   // @ -> the scratch directory
  std::string r;
  for (char c : s) if (c == '@') r += ROOT; else r += c;
  return r;
}
static std::string out(std::string s) {
  for (size_t p; (p = s.find(ROOT)) != std::string::npos;) s.replace(p, ROOT.size(), "@");
  return s;
}
static ptree build(const J& j) {
  ptree t(in(j["d"].str()));
  for (auto& c : j["c"].a) t.push_back(std::make_pair(c["k"].str(), build(c)));
  return t;
}
static J dump(const std::string& k, const ptree& t) {
  J c = J::arr();
  for (auto& p : t) c.push(dump(p.first, p.second));
  return J::obj().set("k", k).set("d", out(t.data())).set("c", c);
}
static J comps(const std::string& path) {
  J a = J::arr();
  fs::path p = fs::canonical(path);
  std::string s = p.string();
  if (s.compare(0, ROOT.size(), ROOT) != 0) return a.push("outside");
  s = s.substr(ROOT.size());
  std::string cur;
  for (char c : s + "/") if (c == '/') { if (!cur.empty()) a.push(cur); cur = ""; } else cur += c;
  return a;
}
struct L : sm::BoostPropertyTreeLoader {
  J m = J::arr();
  void goingToMergeIn(const std::string& p) override { m.push(comps(p)); }
  void startingWith(const std::string& p) override { m.push(comps(p)); }
  void warn(const std::string&) override {}
  void info(const std::string&) override {}
};
struct D {
  L l;
  D() {
    char t[] = "scratch_XXXXXX";
    if (!mkdtemp(t)) _exit(97);
    ROOT = fs::canonical(t).string();
    fs::create_directory(ROOT + "/w");
    fs::current_path(ROOT + "/w");
    sm::BoostPropertyTree::setHumanReadableInputOutput(false);
  }
  ~D() { fs::current_path("/"); fs::remove_all(ROOT); }
  std::string path(const J& p) { std::string r = ROOT; for (auto& c : p.a) r += "/" + c.str(); return r; }
  J step(const J& e) {
    try { return op(e); }
    catch (const sm::PropertyTree::KeyNotFoundException&) { return vd::rExc("notfound"); }
    catch (const std::exception&) { return vd::rExc("other"); }
  }
  J op(const J& e) {
    const std::string o = e["op"].str();
    if (o == "mkdir") { fs::create_directories(path(e["p"])); return vd::rOk(); }
    if (o == "remove") { fs::remove(path(e["p"])); return vd::rOk(); }
    if (o == "write") {
      std::string p = path(e["p"]), ext = fs::path(p).extension().string();
      if (!e["good"].boolean()) { std::ofstream(p) << "{ <a> \"x"; return vd::rOk(); }
      ptree t = build(e["t"]);
      if (ext == ".json") boost::property_tree::write_json(p, t);
      else if (ext == ".xml") boost::property_tree::write_xml(p, t);
      else boost::property_tree::write_info(p, t);
      return vd::rOk();
    }
    if (o == "paths") {
      l.getSearchPaths().clear(); for (auto& x : e["search"].a) l.getSearchPaths().push_back(in(x.str()));
      l.getFileNameInfixes().clear(); for (auto& x : e["infix"].a) l.getFileNameInfixes().push_back(x.str());
      return vd::rOk();
    }
    if (o == "resolve") {
      std::string p = l.resolveFullFilePath(in(e["path"].str()), in(e["rel"].str()));
      bool ok = fs::exists(p);
      return J::obj().set("k", "path").set("ok", ok).set("p", ok ? comps(p) : J::arr());
    }
    if (o == "load") {
      l.m = J::arr();
      std::vector<std::string> names;
      std::string comma;
      for (auto& n : e["names"].a) { if (!names.empty()) comma += ","; names.push_back(in(n.str())); comma += names.back(); }
      const sm::BoostPropertyTree t = e["comma"].boolean() ? l.readFilesAndMergeIntoPropertyTree(comma) : l.readFilesAndMergeIntoPropertyTree(names);
      J c = J::arr();
      for (auto it = t.begin(); it != t.end(); ++it) c.push(dump(it->first, it->second));
      return J::obj().set("k", "tree").set("m", l.m).set("t", J::obj().set("k", "").set("d", out(t.getString("/"))).set("c", c));
    }
    std::cerr << "bad op " << o << "\n"; _exit(97);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv, true); }
