#include "core.h"
#include <cstring>

namespace sim {
uint64_t Choices::next() { // splitmix64
  uint64_t z = (state += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
Mirror *mirror = nullptr;
void Choices::record(uint32_t v) {
  rec.push_back(v);
  if (mirror != nullptr) {
    uint32_t &k = mirror->n[stream];
    if (k < Mirror::CAP) {
      mirror->data[stream][k++] = v;
    }
  }
}
uint32_t Choices::draw(uint32_t n) {
  if (n <= 1) {
    record(0);
    pos++;
    return 0;
  }
  uint32_t v = 0;
  if (replaying) {
    v = pos < rep.size() ? rep[pos] % n : 0;
  } else {
    v = (uint32_t)((next() >> 11) % n);
  }
  pos++;
  record(v);
  return v;
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const auto *b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ULL;
  }
  return h;
}
void Sim::log(const std::string &e) {
  events++;
  hash = fnv(e.data(), e.size() + 1, hash);
  if (mirror != nullptr) {
    mirror->hash = hash;
    mirror->events = events;
  }
  if (trace) {
    printf("EVENT %llu %s\n", (unsigned long long)events, e.c_str());
    fflush(stdout);
  }
}
void Sim::logHash(const std::string &what, const std::string &data) {
  char b[64];
  snprintf(b, sizeof b, " #%016llx len %zu", (unsigned long long)fnv(data), data.size());
  log(what + b);
}
void Sim::fail(const std::string &cls, const std::string &msg) {
  log("VIOLATION " + cls + ": " + msg);
  throw Violation{cls, msg};
}
} // namespace sim
