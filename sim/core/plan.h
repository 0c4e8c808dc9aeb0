// A simulated run is a pure function of a Plan: world + knobs + operation/fault list.  Plans are plain text (replay files).
#pragma once
#include "rng.h"
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstring>
#include <cstdio>
namespace sim {
struct Op { std::string k; long a=0,b=0,c=0; uint64_t s=0;
  std::string str()const{ std::ostringstream o; o<<"op "<<k<<" "<<a<<" "<<b<<" "<<c<<" "<<s; return o.str(); } };
struct Plan { std::string world; std::map<std::string,long> knob; std::vector<Op> ops;
  long kn(const std::string&n,long d=0)const{ auto i=knob.find(n); return i==knob.end()?d:i->second; }
  std::string str()const{ std::ostringstream o; o<<"world "<<world<<"\n"; for(auto&k:knob) o<<"knob "<<k.first<<" "<<k.second<<"\n"; for(auto&p:ops) o<<p.str()<<"\n"; return o.str(); }
  static Plan parse(std::istream&in){ Plan p; std::string l; while(std::getline(in,l)){ std::istringstream s(l); std::string t; s>>t; if(t=="world") s>>p.world; else if(t=="knob"){ std::string n; long v; s>>n>>v; p.knob[n]=v; } else if(t=="op"){ Op o; s>>o.k>>o.a>>o.b>>o.c>>o.s; p.ops.push_back(o);} } return p; } };
struct Result { bool viol=false; std::string cls,detail; uint64_t hash=0; std::map<std::string,double> cnt; std::vector<std::string> log;
  std::string infra; };
// thrown by a world when a property is violated
struct Violation { std::string cls,detail; };
struct Infra { std::string what; };
// run context handed to a world
struct Ctx {
  Digest dig; std::map<std::string,double> cnt; std::vector<std::string> log; bool verbose=false; std::string dir; // dir: private scratch directory of this run
  void hit(const std::string&n,double v=1){ cnt[n]+=v; }
  void mx(const std::string&n,double v){ auto&x=cnt[n]; if(v>x) x=v; }
  void ev(const std::string&s){ dig.s(s); if(verbose||log.size()<4000) log.push_back(s); }
};
inline void fail(const std::string&cls,const std::string&detail){ throw Violation{cls,detail}; }
std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));
struct World { virtual ~World(){} virtual Plan generate(uint64_t seed,int idx)=0; virtual void run(const Plan&,Ctx&)=0; virtual void prepare(const Plan&){} };
World* makeWorld(const std::string&name);
}
