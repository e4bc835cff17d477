#include "mon.hpp"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>

namespace mon {
namespace {
context c;
std::mutex m;
char *cur = nullptr;
const std::size_t cur_size = 8192;
std::map<std::string, std::uint64_t> counters, maxima;
std::unordered_set<std::uint64_t> seen;
std::uint64_t events = 0, cases = 0;
std::vector<std::string> samples;
struct failure {
  std::uint64_t idx;
  std::string key, what, desc;
};
std::vector<failure> failures;
bool case_failed = false;
std::uint64_t cur_idx = 0;
std::string cur_desc;

std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch < 32 || ch > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}
} // namespace

const context &ctx() { return c; }

std::string fmt(const char *f, ...) {
  char b[2048];
  va_list a;
  va_start(a, f);
  std::vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
void current(const std::string &desc) {
  std::lock_guard<std::mutex> l(m);
  cur_desc = desc;
  if (cur) {
    std::string t = fmt("%llu ", (unsigned long long)cur_idx) + desc;
    if (t.size() >= cur_size)
      t.resize(cur_size - 1);
    std::memcpy(cur, t.c_str(), t.size() + 1);
  }
}
void fail(const std::string &key, const std::string &what) {
  std::lock_guard<std::mutex> l(m);
  if (!case_failed && failures.size() < 20)
    failures.push_back(failure{cur_idx, key, what, cur_desc});
  case_failed = true;
}
bool failed() { return case_failed; }
void count(const char *n, std::uint64_t v) {
  std::lock_guard<std::mutex> l(m);
  counters[n] += v;
}
static std::uint64_t runs = 0; // calls of distinct()
void maxi(const char *n, std::uint64_t v) {
  std::lock_guard<std::mutex> l(m);
  std::uint64_t &x = maxima[n];
  if (v > x)
    x = v;
}
void distinct(std::uint64_t x) {
  std::lock_guard<std::mutex> l(m);
  seen.insert(x);
  runs++;
}
void observed(std::uint64_t n) {
  std::lock_guard<std::mutex> l(m);
  events += n;
}
void sample(const std::string &s) {
  std::lock_guard<std::mutex> l(m);
  if (samples.size() < 6)
    samples.push_back(s);
}
} // namespace mon

using namespace mon;

int main(int argc, char **argv) {
  std::uint64_t shard = 0, shards = 1, ncases = 100, only = ~0ull;
  double secs = 1e9;
  const char *out = nullptr, *curf = nullptr;
  c.seed = 1;
  c.thorough = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    const char *v = argv[i + 1];
    if (k == "--shard") shard = std::strtoull(v, 0, 10);
    else if (k == "--shards") shards = std::strtoull(v, 0, 10);
    else if (k == "--cases") ncases = std::strtoull(v, 0, 10);
    else if (k == "--seed") c.seed = std::strtoull(v, 0, 10);
    else if (k == "--secs") secs = std::strtod(v, 0);
    else if (k == "--case") only = std::strtoull(v, 0, 10);
    else if (k == "--thorough") c.thorough = v[0] == '1';
    else if (k == "--out") out = v;
    else if (k == "--cur") curf = v;
  }
  alarm((unsigned)(secs < 86400 ? secs : 86400) + 1800); // should nobody be left to end a run that hangs
  if (curf) {
    int fd = open(curf, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, cur_size) == 0) {
      void *p = mmap(nullptr, cur_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
        cur = (char *)p;
    }
  }
  // what the code under test prints is of no interest here
  int nul = open("/dev/null", O_WRONLY);
  if (nul >= 0)
    dup2(nul, 1);

  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs;
  };
  bool complete = true;
  for (std::uint64_t i = only != ~0ull ? only : shard;
       only != ~0ull ? i == only : i < ncases; i += shards) {
    if (!left()) {
      complete = false;
      break;
    }
    cur_idx = i;
    case_failed = false;
    current("(generating)");
    rng r(mix(c.seed * 1000003 + 17) ^ mix(i + 1));
    try {
      run_case(i, r);
    } catch (const std::exception &e) {
      mon::fail("exception", std::string("exception reached the caller on a valid input: ") + e.what());
    } catch (...) {
      mon::fail("exception", "unknown exception reached the caller on a valid input");
    }
    cases++;
    if (failures.size() >= 20)
      break;
  }
  if (cur)
    std::memcpy(cur, "done", 5);
  FILE *f = out ? std::fopen(out, "w") : stderr;
  if (!f)
    return 3;
  std::fprintf(f, "{\"cases\":%llu,\"complete\":%s,\"events\":%llu,\"failures\":[",
               (unsigned long long)cases, complete ? "true" : "false", (unsigned long long)events);
  for (std::size_t i = 0; i < failures.size(); i++)
    std::fprintf(f, "%s{\"case\":%llu,\"key\":\"%s\",\"what\":\"%s\",\"desc\":\"%s\"}", i ? "," : "",
                 (unsigned long long)failures[i].idx, esc(failures[i].key).c_str(),
                 esc(failures[i].what).c_str(), esc(failures[i].desc).c_str());
  std::fprintf(f, "],\"runs\":%llu,\"counters\":{", (unsigned long long)runs);
  bool first = true;
  for (auto &k : counters) {
    std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second);
    first = false;
  }
  std::fprintf(f, "},\"maxima\":{");
  first = true;
  for (auto &k : maxima) {
    std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second);
    first = false;
  }
  std::fprintf(f, "},\"samples\":[");
  for (std::size_t i = 0; i < samples.size(); i++)
    std::fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
  std::fprintf(f, "],\"distinct\":[");
  first = true;
  std::size_t n = 0;
  for (std::uint64_t x : seen) {
    if (n++ >= 200000)
      break;
    std::fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)x);
    first = false;
  }
  std::fprintf(f, "]}\n");
  if (out)
    std::fclose(f);
  std::fflush(nullptr);
  return failures.empty() ? 0 : 1; // a normal exit, so that leaks are reported
}
