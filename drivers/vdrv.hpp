// Support for the conformance drivers: a small JSON reader/writer and the loop
// that executes histories read from a file and writes one result per event.
#pragma once
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>

namespace vd {

struct J {
  enum K { NUL, BOOL, INT, STR, ARR, OBJ } k = NUL;
  long long i = 0;
  std::string s;
  std::vector<J> a;
  std::map<std::string, J> o;

  J() {}
  J(bool b) : k(BOOL), i(b) {}
  J(int v) : k(INT), i(v) {}
  J(long v) : k(INT), i(v) {}
  J(long long v) : k(INT), i(v) {}
  J(unsigned v) : k(INT), i(v) {}
  J(unsigned long v) : k(INT), i((long long)v) {}
  J(const char* v) : k(STR), s(v) {}
  J(const std::string& v) : k(STR), s(v) {}
  static J arr() { J j; j.k = ARR; return j; }
  static J obj() { J j; j.k = OBJ; return j; }
  J& push(const J& v) { k = ARR; a.push_back(v); return *this; }
  J& set(const std::string& n, const J& v) { k = OBJ; o[n] = v; return *this; }
  bool has(const std::string& n) const { return o.count(n) > 0; }
  const J& operator[](const std::string& n) const {
    auto it = o.find(n);
    if (it == o.end()) { std::cerr << "driver: missing field " << n << std::endl; _exit(97); }
    return it->second;
  }
  const J& operator[](const char* n) const { return (*this)[std::string(n)]; }
  const J& operator[](size_t n) const { return a.at(n); }
  const J& operator[](int n) const { return a.at((size_t)n); }
  size_t size() const { return k == OBJ ? o.size() : a.size(); }
  long long num() const { return i; }
  bool boolean() const { return i != 0; }
  const std::string& str() const { return s; }
  // a string given as an array of byte codes
  std::string bytes() const { std::string r; for (auto& x : a) r.push_back((char)(unsigned char)x.i); return r; }
  static J fromBytes(const std::string& b) { J j = arr(); if (b.size() > 20000) return j.push(J(-1)).push(J((long long)b.size())); for (unsigned char c : b) j.push(J((int)c)); return j; }

  void write(std::ostream& os) const {
    switch (k) {
      case NUL: os << "null"; break;
      case BOOL: os << (i ? "true" : "false"); break;
      case INT: os << i; break;
      case STR: wstr(os, s); break;
      case ARR: { os << '['; for (size_t n = 0; n < a.size(); n++) { if (n) os << ','; a[n].write(os); } os << ']'; break; }
      case OBJ: { os << '{'; bool f = true; for (auto& p : o) { if (!f) os << ','; f = false; wstr(os, p.first); os << ':'; p.second.write(os); } os << '}'; break; }
    }
  }
  std::string dump() const { std::ostringstream os; write(os); return os.str(); }

  static void wstr(std::ostream& os, const std::string& s) {
    os << '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') os << '\\' << c;
      else if (c == '\n') os << "\\n";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); os << b; }
      else os << c;
    }
    os << '"';
  }

  static J parse(const std::string& t) { size_t p = 0; return val(t, p); }

 private:
  static void ws(const std::string& t, size_t& p) { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
  static J val(const std::string& t, size_t& p) {
    ws(t, p);
    if (p >= t.size()) throw std::logic_error("json");
    char c = t[p];
    if (c == '{') {
      J j = obj(); p++; ws(t, p);
      if (t[p] == '}') { p++; return j; }
      for (;;) {
        ws(t, p); std::string n = sval(t, p); ws(t, p);
        if (t[p++] != ':') throw std::logic_error("json :");
        j.o[n] = val(t, p); ws(t, p);
        if (t[p] == ',') { p++; continue; }
        if (t[p] == '}') { p++; return j; }
        throw std::logic_error("json }");
      }
    }
    if (c == '[') {
      J j = arr(); p++; ws(t, p);
      if (t[p] == ']') { p++; return j; }
      for (;;) {
        j.a.push_back(val(t, p)); ws(t, p);
        if (t[p] == ',') { p++; continue; }
        if (t[p] == ']') { p++; return j; }
        throw std::logic_error("json ]");
      }
    }
    if (c == '"') return J(sval(t, p));
    if (t.compare(p, 4, "true") == 0) { p += 4; return J(true); }
    if (t.compare(p, 5, "false") == 0) { p += 5; return J(false); }
    if (t.compare(p, 4, "null") == 0) { p += 4; return J(); }
    char* e; long long v = strtoll(t.c_str() + p, &e, 10);
    if (e == t.c_str() + p) throw std::logic_error("json number at " + t.substr(p, 20));
    p = e - t.c_str();
    return J(v);
  }
  static std::string sval(const std::string& t, size_t& p) {
    if (t[p] != '"') throw std::logic_error("json string");
    std::string r; p++;
    while (t[p] != '"') {
      if (t[p] == '\\') {
        p++;
        switch (t[p]) {
          case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
          case 'b': r += '\b'; break; case 'f': r += '\f'; break;
          case 'u': r += (char)strtol(t.substr(p + 1, 4).c_str(), nullptr, 16); p += 4; break;
          default: r += t[p];
        }
        p++;
      } else r += t[p++];
    }
    p++;
    return r;
  }
};

// Results are tagged records with differently named payload fields, so that the
// specification can compare results of different kinds.
inline J rOk() { return J::obj().set("k", "ok"); }
inline J rInt(long long v) { return J::obj().set("k", "int").set("i", J(v)); }
inline J rBool(bool v) { return J::obj().set("k", "bool").set("b", J(v)); }
inline J rStr(const std::string& v) { return J::obj().set("k", "str").set("s", J(v)); }
inline J rSeq(const J& v) { return J::obj().set("k", "seq").set("q", v); }
inline J rExc(const std::string& t) { return J::obj().set("k", "exc").set("t", J(t)); }

inline void emit(const J& r) { std::string d = r.dump(); d += '\n'; fwrite("R ", 1, 2, stdout); fwrite(d.data(), 1, d.size(), stdout); }

// D: default constructible per history; has  J step(const J& event).
// forked: every history runs in a process of its own (global state).
template <class D>
int run(int argc, char** argv, bool forked = false) {
  if (argc < 2) { std::cerr << "usage: driver histories.ndjson\n"; return 96; }
  std::ifstream in(argv[1]);
  std::string line;
  long n = 0;
  static char obuf[1 << 16];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  while (std::getline(in, line)) {
    J h = J::parse(line);
    if (forked) {
      fflush(stdout);
      pid_t c = fork();
      if (c != 0) {
        int st = 0;
        if (c < 0 || waitpid(c, &st, 0) != c) _exit(98);
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
        if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
        n++;
        continue;
      }
    }
    printf("H %ld\n", n++);
    std::unique_ptr<D> d(new D);
    for (auto& e : h.a) {
      fflush(stdout);   // so that a crash is attributed to the right event
      J r;
      try { r = d->step(e); }
      catch (const std::exception& x) { r = rExc(std::string("std:") + typeid(x).name()); }
      catch (...) { r = rExc("unknown"); }
      emit(r);
    }
    fflush(stdout);
    printf("E\n");
    fflush(stdout);
    d.reset();
    if (forked) exit(0);
  }
  printf("DONE %ld\n", n);
  fflush(stdout);
  return 0;
}

}  // namespace vd
