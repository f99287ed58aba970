// The texts of sm::timing reports (drivers timing.cpp, timingconc.cpp).
#pragma once
#include "vdrv.hpp"
#include <algorithm>
using vd::J;
static long long us(double s, double scale = 1e6) { double v = s * scale; if (!(std::fabs(v) < 2e9)) return -1; return std::llround(v); }
// hh:mm:ss.uuuuuu -> microseconds
static long long parseTime(const std::string& s) {
  int h, m; double sec;
  if (sscanf(s.c_str(), "%d:%d:%lf", &h, &m, &sec) != 3) return -1;
  return (h * 3600LL + m * 60) * 1000000 + std::llround(sec * 1e6);
}
static std::string trim(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back();
  size_t b = s.find_first_not_of(' ');
  return b == std::string::npos ? "" : s.substr(b);
}

static J report(const std::string& text) {
    J rows = J::arr();
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
      if (line.find('\t') == std::string::npos) continue;
      std::vector<std::string> c; std::string x; std::istringstream ls(line);
      while (std::getline(ls, x, '\t')) c.push_back(trim(x));
      J row = J::obj().set("t", c[0]).set("n", atoll(c.size() > 1 ? c[1].c_str() : "-1"));
      if (c.size() >= 5) {
        std::string ms = c[3], mm = c[4];
        size_t p = ms.find(" +- "), q = mm.find(',');
        if (p == std::string::npos || q == std::string::npos) return vd::rExc("report");
        row.set("tot", c[2]).set("mean", parseTime(ms.substr(1, p - 1))).set("std", parseTime(ms.substr(p + 4)))
           .set("mn", mm.substr(1, q - 1)).set("mx", mm.substr(q + 1, mm.size() - q - 2));
      }
      rows.push(row);
    }
    return J::obj().set("k", "report").set("rows", rows);
  }
