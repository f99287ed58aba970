// Executes saves, appends and loads on a disk of limited capacity (spec/Storage.tla): write(2) is
// interposed and fails with ENOSPC, or writes less than asked, when the capacity is used up.
#include "vdrv.hpp"
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <cerrno>
#include <Eigen/Core>
#include <sm/MatrixArchive.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/eigen/serialization.hpp>
#include <boost/serialization/string.hpp>
using vd::J;

static long long g_cap = -1, g_written = 0;   // -1: unlimited
static bool g_on = false, g_short = false;    // limit in force; every write is cut short
static long cut(size_t n) {
  long long m = n;
  if (g_short && m > 12) m = 7 + m / 3;
  if (g_cap >= 0 && g_written + m > g_cap) m = g_cap - g_written;
  if (m <= 0 && n > 0) { errno = ENOSPC; return -1; }
  return m;
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  static auto real = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  if (!g_on || fd <= 2) return real(fd, p, n);
  long m = cut(n);
  if (m < 0) return -1;
  ssize_t r = real(fd, p, m);
  if (r > 0) g_written += r;
  return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto real = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  if (!g_on || fd <= 2) return real(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) return t;
  }
  return t;
}

// content number c: a matrix / text of a size that depends on c (below and above the buffer of a stream)
static int rows(int c) { static const int n[] = {0, 1, 3, 40, 511, 512, 700, 1400}; return n[c % 8]; }
static Eigen::MatrixXd mat(int c) {
  Eigen::MatrixXd m(rows(c), 2);
  for (int i = 0; i < m.size(); i++) m.data()[i] = c + i * 0.5;
  return m;
}
static std::string text(int c) { std::string s; for (int i = 0; i < rows(c) * 8; i++) s += char('a' + (i + c) % 26); return s; }
struct Limited : std::streambuf {             // a stream of limited capacity, without a buffer
  std::string s;
  int overflow(int ch) override { if (g_cap >= 0 && (long long)s.size() >= g_cap) return traits_type::eof(); s += (char)ch; g_written++; return ch; }
};
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;

struct D {
  D() { for (int p = 0; p < 8; p++) unlink((std::string(std::getenv("VF_DIR")) + "/f" + std::to_string(p) + ".info").c_str()); }
  static std::string file(const J& e) { return std::string(std::getenv("VF_DIR")) + "/" + (e["nodir"].boolean() ? "missing/" : "") + "f" + std::to_string(e["p"].num()) + ".info"; }
  static void save(const std::string& kind, int c, const std::string& f, bool alt, int part) {
    if (kind == "ama" || kind == "append" || kind == "named" || kind == "stream") {
      sm::MatrixArchive a;
      if (part != 2) a.setMatrix("m" + std::to_string(c), mat(c));
      if (part != 1) a.setString("s" + std::to_string(c), text(c));
      std::set<std::string> names = {"m" + std::to_string(c), "s" + std::to_string(c)};
      if (kind == "named") { a.setScalar("other", 1); a.save(boost::filesystem::path(f), names); }
      else if (kind == "append") { if (alt) a.append(f); else a.append(boost::filesystem::path(f), names); }
      else if (kind == "stream") {
        Limited l; std::ostream o(&l); a.save(o, names);
        bool on = g_on; g_on = false; std::ofstream(f, std::ios::binary) << l.s; g_on = on;
      }
      else if (alt) a.save(f); else a.save(boost::filesystem::path(f));
      return;
    }
    if (kind == "xml" || kind == "ini" || kind == "info" || kind == "json" || kind == "vs" || kind == "xmlh") {
      sm::BoostPropertyTree t;
      sm::BoostPropertyTree::setHumanReadableInputOutput(kind == "xmlh");
      t.setInt("root/c", c); t.setString("root/text", text(c));
      if (kind == "xml" || kind == "xmlh") { if (alt) t.saveXmlStr(f); else t.saveXml(f); }
      else if (kind == "ini") { if (alt) t.saveIniStr(f); else t.saveIni(f); }
      else if (kind == "info") { if (alt) t.saveInfoStr(f); else t.saveInfo(f); }
      else if (kind == "json") { if (alt) t.saveJsonStr(f); else t.saveJson(f); }
      else { sm::value_store::ValueStoreRef vs(t); vs.saveTo(f); }
      return;
    }
    Mat m = mat(c);
    if (kind == "bin") sm::boost_serialization::save(m, f);
    else if (kind == "txt") sm::boost_serialization::save_txt(m, f);
    else if (alt) sm::boost_serialization::save_xml(m, "tag", f);
    else sm::boost_serialization::save_xml(m, f);
  }
  // the numbers of the contents found; -1 for anything else
  static J load(const std::string& kind, const std::string& f, bool alt) {
    J ids = J::arr();
    if (kind == "ama" || kind == "append" || kind == "named" || kind == "stream") {
      sm::MatrixArchive a;
      if (alt) a.load(f); else a.load(boost::filesystem::path(f));
      std::set<int> found;
      for (auto& m : a) { int c = atoi(m.first.c_str() + 1); found.insert(m.first == "m" + std::to_string(c) && m.second == mat(c) ? 100 + c : -1); }
      for (auto& t : a.getStrings()) { int c = atoi(t.first.c_str() + 1); found.insert(t.first == "s" + std::to_string(c) && t.second == text(c) ? 200 + c : -1); }
      for (int c : found) ids.push(c);
    } else if (kind == "xml" || kind == "ini" || kind == "info" || kind == "json" || kind == "vs" || kind == "xmlh") {
      sm::BoostPropertyTree t;
      sm::BoostPropertyTree::setHumanReadableInputOutput(kind == "xmlh");
      if (kind == "xml" || kind == "xmlh") t.loadXml(f); else if (kind == "ini") t.loadIni(f); else if (kind == "info" || kind == "vs") t.loadInfo(f); else t.loadJson(f);
      int c = t.getInt("root/c");
      ids.push(t.getString("root/text") == text(c) ? c : -1);
    } else {
      Mat m;
      if (kind == "bin") sm::boost_serialization::load(m, f); else if (kind == "txt") sm::boost_serialization::load_txt(m, f);
      else if (alt) sm::boost_serialization::load_xml(m, "tag", f); else sm::boost_serialization::load_xml(m, f);
      int id = -1;
      for (int c = 0; c < 8; c++) if (m.rows() == rows(c) && m.cols() == 2 && m == mat(c)) id = c;
      ids.push(id);
    }
    return ids;
  }
  J step(const J& e) {
    const std::string op = e["op"].str(), kind = e["kind"].str(), f = file(e);
    const bool alt = e.has("alt") && e["alt"].boolean();
    if (op == "load") {
      try { return J::obj().set("k", "found").set("ids", load(kind, f, alt)); } catch (const std::exception& x) { return vd::rExc("exception"); }
    }
    const int c = e["c"].num(), part = e["part"].num();
    // how much the same operation writes when there is space
    const std::string probe = std::string(std::getenv("VF_DIR")) + "/probe.info";
    unlink(probe.c_str());
    g_on = true; g_short = false; g_cap = -1; g_written = 0;
    save(kind, c, probe, alt, part);
    const long long need = g_written;
    g_on = false;
    const std::string at = e["at"].str();
    g_cap = at == "abs" ? e["n"].num() : at == "end" ? need + e["n"].num() : at == "part" ? need * e["n"].num() / 1000 : -1;
    if (at != "all" && g_cap < 0) g_cap = 0;
    const long long cap = g_cap < 0 ? need : g_cap;
    J r = vd::rOk();
    g_short = e["short"].boolean(); g_written = 0; g_on = true;
    try { save(kind, c, f, alt, part); } catch (const std::exception& x) { r = vd::rExc("exception"); }
    g_on = false;
    return r.set("need", need).set("cap", cap);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
