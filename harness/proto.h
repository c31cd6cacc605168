// Line protocol shared by the executors.
//   CASE <n> <mode> [args...]      followed by n operation lines
// Answer: one line per operation, then "DONE".
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace proto {
inline bool read_line(std::string &out) {
  static char *buf = nullptr;
  static size_t cap = 0;
  ssize_t n = ::getline(&buf, &cap, stdin);
  if (n < 0)
    return false;
  while (n > 0 && (buf[n - 1] == '\n' || buf[n - 1] == '\r'))
    --n;
  out.assign(buf, n);
  return true;
}
inline std::vector<std::string> split(std::string const &s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == ' ')
      ++i;
    size_t j = i;
    while (j < s.size() && s[j] != ' ')
      ++j;
    if (j > i)
      r.push_back(s.substr(i, j - i));
    i = j;
  }
  return r;
}
inline std::string unhex(std::string const &h) {
  // "-" stands for the empty string
  std::string r;
  if (h == "-")
    return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r.push_back(static_cast<char>(strtoul(h.substr(i, 2).c_str(), nullptr, 16)));
  return r;
}
inline std::string hex(void const *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  auto b = static_cast<unsigned char const *>(p);
  for (size_t i = 0; i < n; ++i) {
    r.push_back(d[b[i] >> 4]);
    r.push_back(d[b[i] & 15]);
  }
  return r.empty() ? "-" : r;
}
inline int64_t i64(std::string const &s) { return strtoll(s.c_str(), nullptr, 10); }
inline uint64_t u64(std::string const &s) { return strtoull(s.c_str(), nullptr, 10); }
} // namespace proto
