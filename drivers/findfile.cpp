// Executes histories on sm::findFile (spec/FindFile.tla) below a directory of its own.
#include "vdrv.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <sm/BoostPropertyTreeSupport.hpp>
using vd::J;
namespace fs = boost::filesystem;
struct D {
  std::string root;
  D() {
    root = std::string(std::getenv("VF_DIR")) + "/ff";
    fs::remove_all(root); fs::create_directories(root);
    fs::current_path(root);   // files of the current directory are no candidates
    for (const char* v : {"VFA", "VFA_B", "VF"}) unsetenv(v);
  }
  static std::string join(const J& p) { std::string s; for (size_t i = 0; i < p.size(); i++) s += (i ? "/" : "") + p[i].str(); return s; }
  J step(const J& e) {
    const std::string op = e["op"].str();
    if (op == "make") {
      const std::string f = root + "/" + join(e["p"]), last = e["p"][e["p"].size() - 1].str();
      if (last == "a" || last == "b") { fs::create_directories(fs::path(f).parent_path()); std::ofstream(f) << "x"; }
      else fs::create_directories(f);
      return vd::rOk();
    }
    if (op == "remove") { fs::remove_all(root + "/" + join(e["p"])); return vd::rOk(); }
    if (op == "set") {
      setenv(e["v"].str().c_str(), (root + (e["p"].size() ? "/" : "") + join(e["p"]) + (e["slash"].boolean() ? "/" : "")).c_str(), 1);
      return vd::rOk();
    }
    if (op == "unset") { unsetenv(e["v"].str().c_str()); return vd::rOk(); }
    try {
      std::string p = sm::findFile(join(e["p"]), e["v"].str()).string();
      return J::obj().set("k", "found").set("path", p.compare(0, root.size(), root) == 0 ? p.substr(root.size()) : "elsewhere " + p);
    } catch (const std::runtime_error&) { return vd::rExc("runtime_error"); }
    catch (...) { return vd::rExc("other"); }
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
