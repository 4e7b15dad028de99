// C13: keys drawn by any number of threads are pairwise distinct.
#include "vf.h"
#include <curves/KeyGenerator.hpp>
#ifdef VF_EXTRACT
#include <curves/src/KeyGenerator.cpp>
size_t vf_entry() { return curves::KeyGenerator::getNextKey(); }
#else
#include <algorithm>
#include <atomic>
#include <thread>
#include <vector>
namespace {
void distinct(std::vector<size_t>& k) {
  std::sort(k.begin(), k.end());
  vf::require("keys are pairwise distinct", std::adjacent_find(k.begin(), k.end()) == k.end());
}
std::vector<size_t> seen;  // every key of the run so far
}
DRIVER(C13, threads) {
  const int n = vf::choose("threads", 2, 16), per = vf::choose("per", 1, 3) == 1 ? 50 : 4000;
  std::vector<std::vector<size_t> > k(n);
  std::vector<std::thread> t; std::atomic<int> ready(0);
  for (int i = 0; i < n; ++i) t.push_back(std::thread([&, i] {
    k[i].reserve(per); ++ready; while (ready.load() < n) std::this_thread::yield();
    for (int j = 0; j < per; ++j) k[i].push_back(curves::KeyGenerator::getNextKey());
  }));
  for (auto& x : t) x.join();
  std::vector<size_t> all;
  for (int i = 0; i < n; ++i) all.insert(all.end(), k[i].begin(), k[i].end());
  distinct(all);
  if (seen.size() < 4000000) { seen.insert(seen.end(), all.begin(), all.end()); distinct(seen); }
}
DRIVER(C13, sequence) {
  const int n = vf::choose("calls", 1, 200000);
  std::vector<size_t> k; k.reserve(n);
  for (int i = 0; i < n; ++i) k.push_back(curves::KeyGenerator::getNextKey());
  distinct(k);
  if (seen.size() < 4000000) { seen.insert(seen.end(), k.begin(), k.end()); distinct(seen); }
}
#endif
