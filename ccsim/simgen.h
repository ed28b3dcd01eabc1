#pragma once
#include <google/protobuf/message.h>
#include <cstdint>
#include <set>
#include <string>
struct Rng {
  uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t n(uint64_t k) { return next() % k; }
  bool p(int percent) { return static_cast<int>(n(100)) < percent; }
};
// Fills m with values that mostly obey its rules; good: percentage of fields that do.
void fill(google::protobuf::Message* m, Rng& r, int depth, int good, bool top = true);
// Changes one or two values, strings at equal length.
void mutate(google::protobuf::Message* m, Rng& r);
// Reference model of the rules: 1 accept, 0 reject, -1 a rule the model does not cover.
// Only messages of files in loaded have rules.
int model(const google::protobuf::Message& m, const std::set<std::string>& loaded);
