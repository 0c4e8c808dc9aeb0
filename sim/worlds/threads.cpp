// World C08: simulated threads on instances of generated arms.  Every thread's results must be bit for bit those of its
// script run alone.
#include "bench.h"
#include "../core/simsched.h"
#include <unistd.h>
#include <algorithm>
namespace sim {
struct ThreadWorld: World {
  Plan generate(uint64_t seed,int idx)override{
    Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr("C08")); Plan p; p.world="C08"; int n=r.range(2,4); p.knob["threads"]=n; p.knob["seed"]=idx; p.knob["seqfirst"]=r.chance(0.4); auto S=[&]{ return r.next()>>1; };
    int mode=r.below(4); // 0: same arm, 1: different arms, 2: shared instance, 3: mixed
    long arm=r.below(std::max(1,g_farmN)); for(int t=0;t<n;t++) p.knob["arm"+std::to_string(t)]=mode==1||mode==3?(long)r.below(std::max(1,g_farmN)):arm; p.knob["shared"]=arm; p.knob["mode"]=mode;
    int nf=r.pick(std::vector<int>{1,1,2,3,8}); std::vector<long> fn; for(int i=0;i<nf;i++) fn.push_back(r.below(1000)); bool files=r.chance(0.15),rs=r.chance(0.3);
    int len=r.range(2,10); for(int t=0;t<n;t++) for(int i=0;i<len;i++){ double u=r.uni(); Op o; if(mode==2){ o={"get",t,r.pick(fn),1,S()}; if(rs&&u<0.1) o={"restart",t,0,0,S()}; } else { if(u<0.35) o={"set",t,(long)r.below(12),0,S()}; else if(u<0.45) o={"par",t,(long)r.below(NGRP),0,S()}; else if(u<0.48) o={"reg",t,0,0,S()}; else if(u<0.51&&files) o={"load",t,(long)r.below(2),0,S()}; else if(u<0.54&&files) o={"save",t,(long)r.below(3),0,S()}; else if(u<0.58&&rs) o={"restart",t,0,0,S()}; else if(u<0.6) o={"new",t,0,0,S()}; else if(u<0.62) o={"copy",t,0,0,S()}; else o={"get",t,r.pick(fn),(long)(mode==3&&r.chance(0.3)),S()}; } p.ops.push_back(o); if(o.k=="set"&&r.chance(0.6)) p.ops.push_back({"get",t,r.pick(fn),0,S()}); }
    // the schedule
    int ns=r.pick(std::vector<int>{3,10,40,150,400}); double mean=r.pick(std::vector<double>{3,20,100,500,2500}); int style=r.below(3); for(int i=0;i<ns;i++){ long gap; if(style==0) gap=1+(long)r.below((uint64_t)(2*mean)); else if(style==1) gap=1+(long)(-std::log(1-r.uni())*mean); else gap=1+(long)std::exp(r.uni(0,std::log(mean*8))); p.ops.push_back({"sw",gap,(long)r.below(n),0,0}); }
    return p; }
  void prepare(const Plan&p)override{ for(int t=0;t<p.kn("threads");t++) armEntry(true,p.kn("arm"+std::to_string(t))); armEntry(true,p.kn("shared")); }
  struct Rec { std::string what; Mat m; };
  typedef std::vector<Rec> Log;
  struct Actor { ArmEntry*ent=nullptr; std::unique_ptr<VRobot> m; std::vector<const Op*> ops; size_t at=0; Log log; };
  static VRobot* start(ArmEntry&e){ VRobot*m=newModel(e); m->load("conf",e.confFile,true,{}); return m; }
  static Vec rnd(int n,Rng&r,double s){ Vec v(n); for(int i=0;i<n;i++) v[i]=r.uni(-s,s); return v; }
  // runs one operation; everything it answers goes to the log
  static void step(Actor&x,const Op&o,VRobot*shared,ArmEntry&sharedEnt,const std::string&dir,std::vector<FnInfo>&fns,std::vector<FnInfo>&sfns){
    Rng r(o.s); const Arm&a=x.ent->arm; if(o.k=="set"){ int v=o.b; int n=stSize(a,v); Vec q=rnd(n,r,3); x.m->setState(ST[v],q); }
    else if(o.k=="par"){ int g=o.b; if(!a.full(g)) return; std::string nm=grpName(g); int n=x.m->getPar(nm).size(); Vec q(n); for(int i=0;i<n;i++) q[i]=r.uni(0.1,2); x.m->setPar(nm,q,true); x.log.push_back({"get_"+nm,x.m->getPar(nm)}); }
    else if(o.k=="reg"){ Vec q(10*a.nj); for(int i=0;i<q.size();i++) q[i]=r.uni(0.5,2); x.m->setPar("par_REG",q,true); x.log.push_back({"get_par_DYN",x.m->getPar("par_DYN")}); }
    else if(o.k=="load"){ x.m->load(o.b?"par_REG":"conf",o.b?x.ent->regFile:x.ent->confFile,true,{}); x.log.push_back({"get_par_REG",x.m->getPar("par_REG")}); }
    else if(o.k=="save"){ static const char*w[3]={"par_REG","par_DYN","par"}; std::string f=dir+"/t"+std::to_string(o.a)+".yaml"; x.m->save(w[o.b%3],f,{}); std::string t=readFile(f); Mat h(1,2); h(0,0)=(double)(hashStr(t)>>12); h(0,1)=t.size(); x.log.push_back({std::string("save_")+w[o.b%3],h}); }
    else if(o.k=="new") x.m.reset(start(*x.ent));
    else if(o.k=="copy") x.m.reset(x.m->clone());
    else if(o.k=="get"){ if(o.c){ auto&f=sfns[o.b%sfns.size()]; t_inQuery=true; Mat m=shared->get(f.name); t_inQuery=false; x.log.push_back({"shared get_"+f.name,m}); } else { auto&f=fns[o.b%fns.size()]; t_inQuery=true; Mat m=x.m->get(f.name); t_inQuery=false; x.log.push_back({"get_"+f.name,m}); } } }
  void run(const Plan&p,Ctx&c)override{
    alarm(120); int n=p.kn("threads"); std::vector<Actor> A(n); std::vector<std::vector<FnInfo>> F(n); ArmEntry&se=armEntry(true,p.kn("shared")); auto sf=functionsOf(se.arm); std::vector<Switch> sw; Quiet quiet; setenv("LC_ALL","C",1);
    for(auto&o:p.ops){ if(o.k=="sw"){ sw.push_back({o.a,(int)o.b}); continue; } if(o.a<n) A[o.a].ops.push_back(&o); }
    for(int t=0;t<n;t++){ A[t].ent=&armEntry(true,p.kn("arm"+std::to_string(t))); F[t]=functionsOf(A[t].ent->arm); }
    for(auto&o:p.ops) c.dig.s(o.str());
    Rng sr(p.kn("seed")+99); std::unique_ptr<VRobot> shared(start(se)); for(int v=0;v<12;v++) shared->setState(ST[v],rnd(stSize(se.arm,v),sr,3));
    std::vector<Log> alone(n),together(n);
    auto sequential=[&]{ for(int t=0;t<n;t++){ A[t].m.reset(start(*A[t].ent)); A[t].log.clear(); std::unique_ptr<VRobot> own(shared->clone()); for(auto o:A[t].ops) step(A[t],*o,own.get(),se,c.dir,F[t],sf); alone[t]=A[t].log; } };
    SchedStats st; auto concurrent=[&]{ for(int t=0;t<n;t++){ A[t].m.reset(start(*A[t].ent)); A[t].log.clear(); A[t].at=0; }
      st=runThreads(n,sw,[&](int t,int)->bool{ Actor&x=A[t]; while(x.at<x.ops.size()){ const Op*o=x.ops[x.at++]; if(o->k=="restart") return true; step(x,*o,shared.get(),se,c.dir,F[t],sf); } return false; });
      for(int t=0;t<n;t++) together[t]=A[t].log; };
    if(p.kn("seqfirst")){ sequential(); concurrent(); } else { concurrent(); sequential(); }
    c.hit("ops",p.ops.size()-sw.size()); c.hit("fault.preemption",st.switches); c.hit("preempted_inside_query",st.insideQuery); c.hit("memory_accesses",st.accesses); c.hit("lock_waits",st.lockWaits); c.cnt["sim_us"]+=st.accesses/1000.0; for(auto&o:p.ops) if(o.k=="restart") c.hit("fault.thread_restart"); c.dig.u(st.hash); c.dig.u(st.accesses); c.hit("mode"+std::to_string(p.kn("mode")));
    for(int t=0;t<n;t++){ if(alone[t].size()!=together[t].size()) throw Infra{"log size"}; for(size_t i=0;i<alone[t].size();i++){ const Mat&x=alone[t][i].m,&y=together[t][i].m; c.hit("assertions"); for(int k=0;k<y.size();k++) c.dig.d(y.data()[k]); bool same=x.rows()==y.rows()&&x.cols()==y.cols()&&!memcmp(x.data(),y.data(),8*x.size()); if(!same){ bool nn=x.size()==y.size(); if(nn) for(int k=0;k<x.size();k++){ double a=x.data()[k],b=y.data()[k]; if(a!=b&&!(std::isnan(a)&&std::isnan(b))) nn=false; } if(!nn) fail("concurrent:"+Bench::cls(alone[t][i].what),fmt("thread %d of %d, result %zu (%s): running concurrently gives ",t,n,i,alone[t][i].what.c_str())+mstr(y)+", running alone gives "+mstr(x)); } } }
    c.cnt["nontrivial"]=st.insideQuery>0; }
};
World* makeThreads(const std::string&){ return new ThreadWorld(); }
}
