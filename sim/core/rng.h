// Seeded PRNG: every choice of a simulated run comes from one of these.
#pragma once
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
namespace sim {
inline uint64_t mix64(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
inline uint64_t hashStr(const std::string&s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){h^=c;h*=1099511628211ull;} return mix64(h); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(mix64(seed^0xA5A5A5A5DEADBEEFull)){}
  uint64_t next(){ s+=0x9E3779B97F4A7C15ull; uint64_t x=s; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
  uint64_t below(uint64_t n){ return n? next()%n:0; }
  int range(int lo,int hi){ return lo+(int)below((uint64_t)(hi-lo+1)); }
  double uni(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double uni(double a,double b){ return a+(b-a)*uni(); }
  bool chance(double p){ return uni()<p; }
  template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
  Rng fork(uint64_t tag){ return Rng(mix64(next()^mix64(tag))); }
};
// event log hash: order-sensitive digest of everything observable in a run
struct Digest {
  uint64_t h=0x243F6A8885A308D3ull;
  void u(uint64_t v){ h=mix64(h^v)+0x9E3779B97F4A7C15ull; }
  void d(double v){ uint64_t b; __builtin_memcpy(&b,&v,8); u(b); }
  void s(const std::string&t){ u(hashStr(t)); u(t.size()); }
};
}
