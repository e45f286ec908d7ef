// Runtime-monitor framework shared by every harness in /verif/harness.
// A harness is a set of stages; a stage is a function run once per case index.
// Every oracle clause is a call of VF_CHECK; counts per clause, distinct-input
// hashes and samples go into the evidence file; a failed clause is a violation
// identified by its key and replayable by (seed, tier, stage, index).
#ifndef VF_HPP
#define VF_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <memory>
#include <typeinfo>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <cxxabi.h>
#include "Exception.hpp"

namespace vf
{
   inline uint64_t mix(uint64_t z)
   {
      z += 0x9e3779b97f4a7c15ULL;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      return z ^ (z >> 31);
   }
   inline uint64_t hashStr(const std::string& s)
   {
      uint64_t h = 1469598103934665603ULL;
      for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
      return mix(h);
   }

   struct Rng
   {
      uint64_t s[4];
      explicit Rng(uint64_t seed = 1)
      { for (int i = 0; i < 4; i++) { seed = mix(seed + i); s[i] = seed; } }
      static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
      uint64_t u64()
      {
         uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
         s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
         s[3] = rotl(s[3], 45);
         return r;
      }
      uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
      long range(long a, long b) { return a + (long)below((uint64_t)(b - a) + 1); } // inclusive
      double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
      double unif(double a, double b) { return a + (b - a) * unit(); }
      bool chance(double p) { return unit() < p; }
      double normal()
      {
         double u1 = unit(), u2 = unit();
         if (u1 < 1e-300) u1 = 1e-300;
         return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2);
      }
      template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
      template <class T> T pick(std::initializer_list<T> l)
      { return *(l.begin() + below(l.size())); }
      template <class T> void shuffle(std::vector<T>& v)
      { for (size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[below(i)]); }
         // log-uniform magnitude, random sign
      double logmag(double lo, double hi)
      {
         double m = std::exp(unif(std::log(lo), std::log(hi)));
         return chance(0.5) ? m : -m;
      }
      std::string str(size_t n, const std::string& alphabet)
      { std::string r; for (size_t i = 0; i < n; i++) r += alphabet[below(alphabet.size())]; return r; }
   };

   struct Violation { std::string key, stage, detail; uint64_t idx; };

   struct Shared { volatile uint64_t stageNo, idx; volatile int active; char note[4096]; };

   struct Global
   {
      uint64_t seed = 1; std::string tier = "quick", out; uint64_t shard = 0, nshards = 1;
      std::unordered_map<std::string, uint64_t> clauses;
      std::unordered_set<uint64_t> distinct;
      std::map<std::string, uint64_t> stageCases, counters;
      std::vector<std::string> samples;
      std::map<std::string, int> vioPerKey;
      std::map<std::string, double> maxima;
      FILE* vio = nullptr; Shared* sh = nullptr;
      std::string curStage; uint64_t curIdx = 0;
      bool thorough() const { return tier == "thorough"; }
   };
   inline Global& G() { static Global g; return g; }

   inline std::string jstr(const std::string& s)
   {
      std::string r = "\"";
      for (unsigned char c : s)
      {
         if (c == '"' || c == '\\') { r += '\\'; r += c; }
         else if (c == '\n') r += "\\n";
         else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
         else r += c;
      }
      return r + "\"";
   }

   inline void violate(const std::string& key, const std::string& detail)
   {
      Global& g = G();
      if (++g.vioPerKey[key] > 4) return;
      fprintf(g.vio, "{\"key\":%s,\"stage\":%s,\"idx\":%llu,\"detail\":%s}\n",
              jstr(key).c_str(), jstr(g.curStage).c_str(),
              (unsigned long long)g.curIdx, jstr(detail.substr(0, 3000)).c_str());
      fflush(g.vio);
   }

   struct Case
   {
      Rng rng; uint64_t idx;
      Case(uint64_t s, uint64_t i) : rng(s), idx(i) {}
         // context shown if the process dies inside this case
      void note(const std::string& s)
      {
         Shared* sh = G().sh;
         size_t n = std::min(s.size(), sizeof(sh->note) - 1);
         memcpy(sh->note, s.data(), n); sh->note[n] = 0;
      }
         // a distinct, non-trivial input was exercised
      void distinct(uint64_t h) { if (G().distinct.size() < 3000000) G().distinct.insert(mix(h)); }
      void distinct(const std::string& s) { distinct(hashStr(s)); }
      void sample(const std::string& s)
      { if (G().samples.size() < 3) G().samples.push_back(s.substr(0, 600)); }
      void count(const std::string& k, uint64_t n = 1) { G().counters[k] += n; }
      void maximum(const std::string& k, double v)
      { double& m = G().maxima[k]; if (v > m) m = v; }
   };

   typedef std::function<void(Case&)> Fn;
   struct Stage { std::string name; uint64_t quickN, thoroughN; Fn fn; };

   inline std::string demangle(const char* n)
   {
      int st = 0; char* d = abi::__cxa_demangle(n, 0, 0, &st);
      std::string r = (st == 0 && d) ? d : n; free(d); return r;
   }

#define VF_CHECK(key, cond, streamexpr) \
   do { ++vf::G().clauses[key]; if (!(cond)) { std::ostringstream vf_o; \
        vf_o << std::setprecision(17) << streamexpr; vf::violate(key, vf_o.str()); } } while (0)

      // expression must throw exactly (or derive from) ExcType
#define VF_THROWS(key, ExcType, expr, streamexpr) \
   do { ++vf::G().clauses[key]; int vf_t = 0; std::string vf_w; \
        try { expr; } catch (const ExcType&) { vf_t = 1; } \
        catch (const std::exception& e) { vf_t = 2; vf_w = vf::demangle(typeid(e).name()); } \
        catch (const gpstk::Exception& e) { vf_t = 2; vf_w = vf::demangle(typeid(e).name()); } \
        if (vf_t != 1) { std::ostringstream vf_o; vf_o << std::setprecision(17) << streamexpr; \
          vf::violate(key, std::string(vf_t ? "wrong exception " : "no exception ") + vf_w + ": " + vf_o.str()); } } while (0)

      // expression must not throw; evaluated for effect
#define VF_NOTHROW(key, expr, streamexpr) \
   do { ++vf::G().clauses[key]; std::string vf_w; bool vf_b = false; \
        try { expr; } catch (const gpstk::Exception& e) { vf_b = true; vf_w = vf::demangle(typeid(e).name()) + " " + e.what(); } \
        catch (const std::exception& e) { vf_b = true; vf_w = vf::demangle(typeid(e).name()) + " " + e.what(); } \
        if (vf_b) { std::ostringstream vf_o; vf_o << std::setprecision(17) << streamexpr; \
          vf::violate(key, "unexpected " + vf_w.substr(0, 600) + ": " + vf_o.str()); } } while (0)

   inline void onHang(int)
   {
      static const char m[] = "VF-HANG\n";
      if (write(2, m, sizeof m - 1)) {}
      _exit(86);
   }
   inline double& caseLimit() { static double s = 20; return s; } // CPU seconds per case

   inline int run(int argc, char** argv, const std::vector<Stage>& stages)
   {
      Global& g = G();
      uint64_t startStage = 0, startIdx = 0; long onlyStage = -1; uint64_t onlyIdx = 0;
      double scale = 1;
      for (int i = 1; i + 1 < argc; i += 2)
      {
         std::string a = argv[i], v = argv[i+1];
         if (a == "--seed") g.seed = strtoull(v.c_str(), 0, 10);
         else if (a == "--tier") g.tier = v;
         else if (a == "--out") g.out = v;
         else if (a == "--shard") { sscanf(v.c_str(), "%lu/%lu", &g.shard, &g.nshards); }
         else if (a == "--start") { sscanf(v.c_str(), "%lu,%lu", &startStage, &startIdx); }
         else if (a == "--scale") scale = atof(v.c_str());
         else if (a == "--only")
         {
            size_t c = v.rfind(',');
            onlyIdx = strtoull(v.c_str() + c + 1, 0, 10);
            for (size_t k = 0; k < stages.size(); k++)
               if (stages[k].name == v.substr(0, c)) onlyStage = k;
            if (onlyStage < 0) { fprintf(stderr, "no stage %s\n", v.c_str()); return 2; }
         }
      }
      std::string shp = g.out + ".shared";
      int fd = open(shp.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("shared"); return 2; }
      g.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      g.vio = fopen((g.out + ".vio").c_str(), "a");
      if (!g.vio || g.sh == MAP_FAILED) return 2;
      signal(SIGPROF, onHang);
      for (size_t k = 0; k < stages.size(); k++)
      {
         if (onlyStage >= 0 && (long)k != onlyStage) continue;
         if (k < startStage) continue;
         uint64_t N = (uint64_t)((g.thorough() ? stages[k].thoroughN : stages[k].quickN) * scale);
         uint64_t i0 = (k == startStage) ? startIdx : 0;
         g.curStage = stages[k].name;
         uint64_t sh = hashStr(stages[k].name);
         struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
         for (uint64_t i = (onlyStage >= 0 ? onlyIdx : i0); i < std::max(N, onlyStage >= 0 ? onlyIdx + 1 : 0); i++)
         {
            if (onlyStage < 0 && i % g.nshards != g.shard) continue;
            g.curIdx = i; g.sh->stageNo = k; g.sh->idx = i; g.sh->note[0] = 0; g.sh->active = 1;
            struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = (long)caseLimit();
            setitimer(ITIMER_PROF, &tv, 0);
            Case c(mix(mix(g.seed) ^ sh ^ mix(i * 2 + 1)), i);
            try { stages[k].fn(c); }
            catch (const gpstk::Exception& e)
            { violate("uncaught:" + stages[k].name + ":" + demangle(typeid(e).name()), e.what()); }
            catch (const std::exception& e)
            { violate("uncaught:" + stages[k].name + ":" + demangle(typeid(e).name()), e.what()); }
            g.sh->active = 0;
            ++g.stageCases[stages[k].name];
            if (onlyStage >= 0) break;
         }
         struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, 0);
         clock_gettime(CLOCK_MONOTONIC, &t1);
         g.maxima["stage_s:" + stages[k].name] = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
      }
      std::ofstream o((g.out + ".json").c_str());
      o << "{\"clauses\":{"; bool f = true;
      for (auto& p : g.clauses) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
      o << "},\"stages\":{"; f = true;
      for (auto& p : g.stageCases) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
      o << "},\"counters\":{"; f = true;
      for (auto& p : g.counters) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
      o << "},\"maxima\":{"; f = true;
      for (auto& p : g.maxima) { o << (f ? "" : ",") << jstr(p.first) << ":" << std::setprecision(6)
         << (std::isfinite(p.second) ? p.second : -1); f = false; }
      o << "},\"samples\":["; f = true;
      for (auto& p : g.samples) { o << (f ? "" : ",") << jstr(p); f = false; }
      o << "]}\n"; o.close();
      std::ofstream b((g.out + ".hash").c_str(), std::ios::binary);
      for (uint64_t h : g.distinct) b.write((const char*)&h, 8);
      b.close();
      fclose(g.vio);
      return 0;
   }

      // ---- small numeric helpers -------------------------------------------
   inline double relerr(double a, double b)
   {
      double m = std::max(std::fabs(a), std::fabs(b));
      return m == 0 ? 0 : std::fabs(a - b) / m;
   }
   inline bool close(double a, double b, double abst, double relt = 0)
   {
      if (std::isnan(a) || std::isnan(b)) return false;
      return std::fabs(a - b) <= abst + relt * std::max(std::fabs(a), std::fabs(b));
   }
   inline bool sameBits(double a, double b)
   { return memcmp(&a, &b, sizeof a) == 0 || a == b; }

      // scratch directory private to this process, removed at exit
   inline const std::string& scratch()
   {
      static struct S {
         std::string d;
         S() { d = G().out + ".scratch"; mkdir(d.c_str(), 0755); }
      } s;
      return s.d;
   }
   inline std::string slurp(const std::string& p)
   {
      std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str();
   }
   inline void spit(const std::string& p, const std::string& s)
   { std::ofstream f(p.c_str(), std::ios::binary); f.write(s.data(), s.size()); }
}

   // record a UBSan report as a violation of the running case (clang runtime hook)
extern "C" void __ubsan_get_current_report_data(const char** kind, const char** msg,
   const char** file, unsigned* line, unsigned* col, char** addr);
#ifdef VF_UBSAN
extern "C" void __ubsan_on_report(void)
{
   const char *kind, *msg, *file; unsigned line, col; char* addr;
   __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
   std::string f = file ? file : "?", m = msg ? msg : "";
   size_t p = f.find("/core/"); if (p == std::string::npos) p = f.find("/ext/");
   if (p != std::string::npos) f = f.substr(p + 1);
   std::string norm; bool dig = false;      // values out of the message, so that the key is stable
   for (size_t i = 0; i < m.size(); i++)
   {
      char c = m[i];
      if (isdigit((unsigned char)c) && !(i && isalpha((unsigned char)m[i-1]))) { if (!dig) norm += '#'; dig = true; }
      else if (dig && (isxdigit((unsigned char)c) || c == 'x' || c == '.' || c == '+')) {}
      else { dig = false; norm += c; }
   }
   std::ostringstream o; o << f << ":" << line << ":" << col << ": " << m;
   if (vf::G().vio) vf::violate("ub:" + f + ":" + std::string(kind ? kind : "") , o.str() + " [" + norm + "]");
}
#endif
#endif
