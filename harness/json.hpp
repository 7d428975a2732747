// Minimal JSON emitter for the harness (writes one value at a time).
#pragma once
#include <array>
#include <cmath>
#include <cstdio>
#include <ostream>
#include <string>
#include <vector>

#include <opencv2/core/core.hpp>

namespace vj {

inline std::string str(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\')
      o += '\\';
    if (static_cast<unsigned char>(c) < 0x20)
      continue;
    o += c;
  }
  return o + "\"";
}

inline std::string num(double v) {
  if (std::isnan(v))
    return "\"nan\"";
  if (std::isinf(v))
    return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string num(int v) { return std::to_string(v); }
inline std::string num(unsigned v) { return std::to_string(v); }
inline std::string num(std::size_t v) { return std::to_string(v); }
inline std::string num(bool v) { return v ? "true" : "false"; }
inline std::string num(float v) { return num(static_cast<double>(v)); }

// comma-separating builder
struct Obj {
  std::string s = "{";
  bool first = true;
  Obj &raw(const std::string &k, const std::string &v) {
    if (!first)
      s += ",";
    first = false;
    s += str(k) + ":" + v;
    return *this;
  }
  template <class T> Obj &n(const std::string &k, T v) { return raw(k, num(v)); }
  Obj &t(const std::string &k, const std::string &v) { return raw(k, str(v)); }
  std::string end() const { return s + "}"; }
};
struct Arr {
  std::string s = "[";
  bool first = true;
  Arr &raw(const std::string &v) {
    if (!first)
      s += ",";
    first = false;
    s += v;
    return *this;
  }
  template <class T> Arr &n(T v) { return raw(num(v)); }
  std::string end() const { return s + "]"; }
};

template <class C> std::string nums(const C &c) {
  Arr a;
  for (const auto &v : c)
    a.n(v);
  return a.end();
}

inline std::string mat(const cv::Mat &m) {
  Arr a;
  cv::Mat d;
  m.convertTo(d, CV_64F);
  for (int r = 0; r < d.rows; r++)
    for (int c = 0; c < d.cols; c++)
      a.n(d.at<double>(r, c));
  return a.end();
}

template <class P> std::string pts2(const P &p) {
  Arr a;
  for (const auto &q : p)
    a.n(q.x).n(q.y);
  return a.end();
}
template <class P> std::string pts3(const P &p) {
  Arr a;
  for (const auto &q : p)
    a.n(q.x).n(q.y).n(q.z);
  return a.end();
}
} // namespace vj
