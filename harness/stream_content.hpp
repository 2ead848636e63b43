// Content of the synthetic URI scheme "vp:<length>:<anything>", shared by the stream handler plug-in and the monitor.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <cstdlib>
inline std::vector<unsigned char> vpStreamContent(const std::string & uri) {
  std::vector<unsigned char> v; size_t p = uri.find(':'); size_t n = p == std::string::npos ? 0 : strtoul(uri.c_str() + p + 1, 0, 10);
  uint64_t h = 1469598103934665603ull; for (unsigned char c : uri) { h ^= c; h *= 1099511628211ull; }
  for (size_t i = 0; i < n; ++i) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; v.push_back((unsigned char)(h >> 24)); }
  return v;
}
