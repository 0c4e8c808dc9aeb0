#include "bench.h"
#include <cstdarg>
namespace sim {
std::string fmt(const char*f,...){ char b[2048]; va_list v; va_start(v,f); vsnprintf(b,sizeof b,f,v); va_end(v); return b; }
std::string g_farmDir,g_scratch,g_profile; uint64_t g_seed=1; int g_farmN=0;
static ArmOpt optOf(const std::string&p,Rng&r,bool farm,long i){ ArmOpt o; o.farm=farm; o.njMin=farm?2:1; o.njMax=farm?3:3; if(!farm&&i%9==8) o.njMin=o.njMax=4;
  bool pers=p=="C06"||p=="C09"||p=="C10"||p=="C11"; if(!farm&&i%24==23){ static const int big[4]={5,6,7,6},bare[4]={9,12,7,10}; o.njMin=o.njMax=(pers?bare:big)[(i/24)%4]; }
  if(!farm&&i%8==3){ o.slides=true; o.njMin=10; o.njMax=12; } if(!farm&&i%12==5) o.highOrder=true;
  if(farm&&i%3==2){ int k=r.below(4); if(k==0) o.njMin=o.njMax=1; else if(k<3){ o.slides=true; o.njMin=10; o.njMax=11; } }
  if(p=="C04"){ o.elastic=0.8; if(i%2==0) o.mustElastic=1; o.njMin=std::max(o.njMin,2); o.njMax=std::max(o.njMax,2); if(farm) o.dlMax=2; }
  if(p=="C07"){ o.symAll=0.25; o.symSome=0.6; if(i%3==0) o.mustElastic=1; }
  if(p=="C03"||p=="C02"||p=="C06"){ if(i%2==0) o.forceSymDyn=true; }
  if(p=="C19"){ o=ArmOpt(); o.njMin=1; o.njMax=2; o.symSome=0.6; return o; }
  if(farm){ if(i%3==1){ o.mustElastic=1; if(o.njMax>=2) o.njMin=o.njMax=std::max(o.njMax,3); } if(i%3==0) o.mustElastic=0; }
  return o; }
Arm farmArm(const std::string&p,uint64_t seed,int i){ Rng r(mix64(seed)^hashStr("farm"+p)^mix64(i+1)); ArmOpt o=optOf(p,r,true,i); static const char*nm[]={"alpha","Beta2","my_robot","r","ARM_x","robot","t9","panda"}; std::string n=std::string(nm[i%8]); if(i>=8) n+=std::to_string(i); return genArm(r.next(),o,n); }
Arm inprocArm(const std::string&p,uint64_t seed,long i){ Rng r(mix64(seed)^hashStr("inproc"+p)^mix64(i+7)); ArmOpt o=optOf(p,r,false,i); return genArm(r.next(),o,"arm"+std::to_string(i)); }
static std::map<std::pair<bool,long>,ArmEntry> cache;
ArmEntry& armEntry(bool farm,long id){
  auto k=std::make_pair(farm,id); auto it=cache.find(k); if(it!=cache.end()) return it->second; ArmEntry&e=cache[k];
  if(farm){ e.arm=farmArm(g_profile,g_seed,id); e.dir=g_farmDir+"/arm"+std::to_string(id); e.yaml=e.dir+"/"+e.arm.name+".yaml"; std::string gd=e.dir+"/"+e.arm.name+"_generatedFiles/"; e.confFile=gd+e.arm.name+"_conf.yaml"; e.regFile=gd+e.arm.name+"_par_REG.yaml";
    void*h=dlopen((g_farmDir+"/arms.so").c_str(),RTLD_NOW|RTLD_LOCAL); if(!h) throw Infra{std::string("dlopen: ")+dlerror()}; auto f=(VRobot*(*)())dlsym(h,("vr_new_"+e.arm.name).c_str()); if(!f) throw Infra{"no vr_new"}; e.proto=f(); }
  else { e.arm=inprocArm(g_profile,g_seed,id); e.dir=g_scratch; e.yaml=g_scratch+"/inproc"+std::to_string(id)+".yaml"; writeFile(e.yaml,armYaml(e.arm)); e.confFile=e.yaml;
    try{ e.bare=e.arm.nj>6&&(g_profile=="C06"||g_profile=="C09"||g_profile=="C10"||g_profile=="C11"); e.proto=makeInProc(e.arm.name,e.yaml,!e.bare,e.bare); } catch(std::exception&x){ e.buildError=std::string("building the arm failed: ")+x.what(); } }
  return e; }
VRobot* newModel(ArmEntry&e){ if(!e.proto) fail("construct",e.buildError); return e.proto->fresh(); }
}
