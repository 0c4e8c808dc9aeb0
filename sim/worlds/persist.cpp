// Worlds C09..C11: live models whose parameters go to and come back from a simulated disk.
//  C09: save -> restart -> load gives back every bit, under short and interrupted I/O.
//  C10: loads that fail (or read damaged files) against an instance that never saw them.
//  C11: saves on a failing, full or interrupting disk; success must mean complete.
#include "bench.h"
#include "../core/simdisk.h"
#include "damage.h"
#include <yaml-cpp/yaml.h>
#include <filesystem>
#include <cmath>
#include <cerrno>
#include <functional>
#include <algorithm>
namespace fs=std::filesystem;
namespace sim {
static uint64_t bits(double d){ uint64_t b; memcpy(&b,&d,8); return b; }
static bool eqv(double a,double b,bool strict){ if(std::isnan(a)&&std::isnan(b)) return true; return strict?bits(a)==bits(b):a==b; }
static int diffAt(const Vec&x,const Vec&y){ if(x.size()!=y.size()) return 0; for(int i=0;i<x.size();i++) if(!eqv(x[i],y[i],true)) return i; return -1; }
static bool sameMat(const Mat&x,const Mat&y){ if(x.rows()!=y.rows()||x.cols()!=y.cols()) return false; for(int i=0;i<x.size();i++) if(!eqv(x.data()[i],y.data()[i],true)) return false; return true; }
static double relDiff(const Vec&x,const Vec&y){ if(x.size()!=y.size()) return 1e300; double s=1,e=0; for(int i=0;i<x.size();i++){ if(!std::isfinite(x[i])||!std::isfinite(y[i])) return 1e300; s=std::max(s,std::max(std::fabs(x[i]),std::fabs(y[i]))); e=std::max(e,std::fabs(x[i]-y[i])); } return e/s; }
static std::string vstr(const Vec&x){ std::ostringstream o; o.precision(17); o<<"["; for(int i=0;i<x.size()&&i<40;i++) o<<(i?" ":"")<<x[i]; o<<"]"; return o.str(); }

struct Io { DiskShared*sh; Io():sh(newShared()){} ~Io(){ diskStop(); if(sh) freeShared(sh); } long faults(){ return sh->kinds[FK_OPENFAIL]+sh->kinds[FK_READEIO]+sh->kinds[FK_WRITEERR]+sh->kinds[FK_CLOSEERR]+sh->kinds[FK_STATERR]+sh->kinds[FK_MKDIRERR]+sh->kinds[FK_SENDERR]+sh->kinds[FK_FULL]+sh->kinds[FK_METAERR]; }
  void count(Ctx&c){ for(int k=0;k<FK_NK;k++) if(sh->kinds[k]) c.hit(std::string("fault.")+faultKind[k],sh->kinds[k]); c.hit("disk_ops",sh->ops); c.dig.u(sh->hash); } };
struct Outcome { int rc=-1; std::string text; bool thrown=false; bool said()const{ return thrown||rc==0||!text.empty(); } };
template<class F> static Outcome guarded(F f){ Outcome o; Quiet q; try{ o.rc=f(); } catch(std::exception&e){ o.thrown=true; o.text=std::string("exception: ")+e.what(); } if(!o.thrown) o.text=q.text(); return o; }

struct PersistWorld: World {
  std::string P; PersistWorld(const std::string&p):P(p){}
  Plan generate(uint64_t seed,int idx)override{
    Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr(P)); Plan p; p.world=P; bool f=g_farmN>0&&idx%2; p.knob["farm0"]=f; p.knob["arm0"]=f?(long)r.below(g_farmN):idx/6; p.knob["other"]=(long)r.below(1000); p.knob["seed"]=idx; auto S=[&]{ return r.next()>>1; };
    if(P=="C09"){ p.knob["short"]=r.chance(0.6)?(long)r.below(70):0; p.knob["eintr"]=r.chance(0.5)?(long)r.below(60):0; int n=r.range(2,6); for(int i=0;i<n;i++){ int k=r.range(1,5); for(int j=0;j<k;j++){ double u=r.uni(); Op o; if(u<0.45) o={"par",(long)r.below(NGRP),(long)r.below(4),0,S()}; else if(u<0.6) o={"reg",(long)r.chance(0.8),(long)r.below(4),0,S()}; else if(u<0.75) o={"dyn",(long)r.chance(0.8),(long)r.below(4),0,S()}; else o={"set",(long)r.below(12),0,0,S()}; p.ops.push_back(o); } p.ops.push_back({"cycle",(long)r.below(5),(long)r.chance(0.8),(long)r.below(100),S()}); } }
    else if(P=="C10"){ int n=r.range(4,16); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(u<0.15) o={"par",(long)r.below(NGRP),0,0,S()}; else if(u<0.2) o={"reg",1,0,0,S()}; else if(u<0.25) o={"set",(long)r.below(12),0,0,S()}; else if(u<0.8) o={"bad",(long)r.below(22),(long)r.below(3),(long)r.chance(0.8),S()}; else if(u<0.85) o={"peek",0,0,0,S()}; else o={"good",(long)r.below(3),(long)r.chance(0.8),0,S()}; p.ops.push_back(o); } p.ops.push_back({"good",(long)r.below(3),1,0,S()}); p.ops.push_back({"peek",1,0,0,S()}); }
    else { p.knob["short"]=r.chance(0.3)?(long)r.below(60):0; p.knob["eintr"]=r.chance(0.3)?(long)r.below(50):0; int n=r.range(4,14); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(u<0.3) o={"par",(long)r.below(NGRP),(long)r.below(4),0,S()}; else if(u<0.4) o={"reg",1,(long)r.below(4),0,S()}; else o={"save",(long)r.below(4),(long)r.below(10),(long)r.below(8),S()}; p.ops.push_back(o); } p.ops.push_back({"save",(long)r.below(4),0,0,S()}); }
    return p; }
  void prepare(const Plan&p)override{ armEntry(p.kn("farm0"),p.kn("arm0")); }

  // any finite double
  static double wild(Rng&r,int mode){ switch(mode){ case 0: return r.uni(-3,3); case 1: { uint64_t b=r.next(); double d; memcpy(&d,&b,8); return std::isfinite(d)?d:r.uni(-1,1); } case 2: { static const double sp[]={0.0,-0.0,5e-324,-5e-324,2.2250738585072009e-308,2.2250738585072014e-308,1.7976931348623157e308,-1.7976931348623157e308,0.1,1.0/3,-2.0/3,1e15,1e16,1e17,123456789012345678.0,1e21,1e22,9007199254740993.0,0.30000000000000004,1e-5,1e-4,4.35,2.675,100,-7,1e100,3.0000000000000004,5e-310,1.0000000000000002}; return sp[r.below(sizeof sp/sizeof*sp)]; } default: switch(r.below(4)){ case 0: return std::ldexp(r.uni(-1,1),r.range(-1074,1023)); case 1: return (double)(long)r.range(-100000,100000)/1000; case 2: return std::ldexp((double)(r.next()>>11),r.range(-80,20)); default: return r.uni(-1e-3,1e-3); } } }
  struct Model { std::unique_ptr<Bench> b; int last=0; /* 1 DYN, 2 REG set last, in sync */ bool sync=true,nice=true; /* ordinary bodies */ };
  static Vec full(Bench&b,int g,Rng&r,int mode){ int n=b.a.full(g); Vec v(n); for(int i=0;i<n;i++) v[i]=wild(r,mode==3&&r.chance(0.3)?(int)r.below(3):mode); return v; }
  static bool allDyn(Bench&b){ return b.a.allSym(G_DYN); }
  void setState(Bench&b,int v,Rng&r){ if((v>=7&&v<11&&!b.a.elastic)||stSize(b.a,v)==0) return; Vec x(stSize(b.a,v)); for(int i=0;i<x.size();i++) x[i]=r.uni(-3,3); b.setState(v,x); }
  void setPar(Model&m,int g,Rng&r,int mode){ Bench&b=*m.b; if(b.a.full(g)==0) return; if(g==G_DYN){ setDyn(m,r,mode,true); return; } b.setPar(g,mode==0&&r.chance(0.5)?b.genPar(g,r):full(b,g,r,mode)); }
  void setDyn(Model&m,Rng&r,int mode,bool sync){ Bench&b=*m.b; bool wildOk=b.gen()||allDyn(b); Vec v=mode==0||!wildOk?b.genPar(G_DYN,r):full(b,G_DYN,r,mode); m.nice=mode==0||!wildOk; if(m.nice&&wildOk&&r.chance(0.3)) scaleLinks(r,v,b.a); if(!b.gen()) sync=true; { Quiet q; b.m->setPar("par_DYN",v,sync); } m.last=1; m.sync=sync; }
  void setReg(Model&m,Rng&r,int mode,bool sync){ Bench&b=*m.b; bool wildOk=b.gen()||allDyn(b); Vec v; m.nice=mode==0||!wildOk; if(m.nice){ Vec d=b.genPar(G_DYN,r); if(wildOk&&r.chance(0.3)) scaleLinks(r,d,b.a); v=Bench::regOf(std::vector<double>(d.data(),d.data()+d.size())); } else v=full(b,G_DYN,r,mode); if(!b.gen()) sync=true; { Quiet q; b.m->setPar("par_REG",v,sync); } m.last=2; m.sync=sync; }

  static std::vector<std::string> groups(Bench&b){ std::vector<std::string> v; for(int g=0;g<NGRP;g++) if(b.a.full(g)) v.push_back(grpName(g)); v.push_back("par_REG"); return v; }
  typedef std::map<std::string,Vec> Pars;
  static Pars pars(Bench&b){ Pars p; for(auto&g:groups(b)) p[g]=b.m->getPar(g); return p; }
  static void dig(Ctx&c,const Pars&p){ for(auto&x:p) for(int i=0;i<x.second.size();i++) c.dig.d(x.second[i]); }
  void sameBitsOf(Ctx&c,const Pars&x,const Pars&y,const std::string&cls,const std::string&what,const std::vector<std::string>&only={}){ for(auto&p:x){ if(only.size()&&std::find(only.begin(),only.end(),p.first)==only.end()) continue; const Vec&q=y.at(p.first); c.hit("assertions"); int i=diffAt(p.second,q); if(i>=0) fail(cls+":"+p.first,what+": "+p.first+(p.second.size()!=q.size()?fmt(" has %d entries instead of %d",(int)q.size(),(int)p.second.size()):fmt(" entry %d is %.17g instead of %.17g",i,q[i],p.second[i]))); } }
  void sameAnswers(Bench&x,Bench&y,Rng&r,bool all,const std::string&cls,const std::string&what){ int k=0; std::vector<std::string> nm=x.names; for(int i=nm.size()-1;i>0;i--) std::swap(nm[i],nm[r.below(i+1)]); for(auto&n:nm){ if(!all&&k++>=8) break; Mat a=x.ask(n),b=y.ask(n); x.c.hit("assertions"); if(!sameMat(a,b)) fail(cls+":answer:"+Bench::cls(n),what+": "+n+" answers "+mstr(b)+" instead of "+mstr(a)); } }
  std::unique_ptr<Bench> restart(Bench&o,bool loadConf){ std::unique_ptr<Bench> x(new Bench(o.c,o.ent)); x->boot(loadConf); return x; }
  void copyStates(Bench&from,Bench&to){ for(int v=0;v<12;v++) if(!((v>=7&&v<11&&!from.a.elastic)||stSize(from.a,v)==0)) to.setState(v,from.acc.by(ST[v])); }
  static bool patient(const Plan&p){ return p.kn("short")||p.kn("eintr"); }
  DiskCfg quietDisk(Ctx&c,const Plan&p,uint64_t s){ DiskCfg d; d.roots={c.dir}; d.pShort=p.kn("short")/100.0; d.pEintr=p.kn("eintr")/100.0; d.seed=s; return d; }

  // ---------------- C09 ----------------
  Outcome doSave(Bench&b,const std::string&w,const std::string&f,const std::vector<std::string>&l){ return guarded([&]{ return b.m->save(w,f,l); }); }
  Outcome doLoad(Bench&b,const std::string&w,const std::string&f,bool sync,const std::vector<std::string>&l){ return guarded([&]{ return b.m->load(w,f,sync,l); }); }
  static bool saveOk(const std::string&w,const Outcome&o,bool gen){ if(o.thrown) return false; if(gen&&(w=="par_REG"||w=="par_DYN")) return o.text.find("saved on path")!=std::string::npos; return o.rc==1; }
  void cycle(const Plan&p,const Op&o,Model&m,Ctx&c,Rng&r,int no){
    Bench&b=*m.b; bool gen=b.gen(); std::string f=c.dir+"/save"+std::to_string(no)+".yaml"; Pars before=pars(b); dig(c,before); std::vector<std::string> list,exact; std::string sw,lw; bool sync=o.b;
    int kind=o.a%(gen?4:3);
    if(gen&&kind==3){ // files the generator wrote next to the library
      auto x=restart(b,false); Io io; diskStart(quietDisk(c,p,r.next()),io.sh); Outcome l; { DiskCfg d=quietDisk(c,p,r.next()); d.roots={b.ent.dir}; diskStart(d,io.sh); l=doLoad(*x,o.c%2?"par_REG":"conf",o.c%2?b.ent.regFile:b.ent.confFile,sync,{}); diskStop(); } io.count(c); if(l.said()) fail("restore:generated","loading a file written by the generator failed: "+l.text);
      Pars now=pars(*x); Vec dyn=Eigen::Map<const Vec>(b.a.val[G_DYN].data(),b.a.val[G_DYN].size()),reg=Bench::regOf(b.a.val[G_DYN]);
      if(o.c%2){ if(relDiff(now["par_REG"],reg)>1e-12) fail("restore:regfile","the generated par_REG file gives "+vstr(now["par_REG"])+" for the configured "+vstr(reg)); if(sync&&relDiff(now["par_DYN"],dyn)>1e-9) fail("restore:regfile","the generated par_REG file gives par_DYN "+vstr(now["par_DYN"])+" for the configured "+vstr(dyn)); }
      else { for(int g=0;g<NGRP;g++) if(b.a.full(g)){ if(g==G_GRAV&&!b.a.gravGiven) continue; Vec v=Eigen::Map<const Vec>(b.a.val[g].data(),b.a.full(g)); if(g<=G_GRAV) v=b.pack(g,v); int i=diffAt(v,now[grpName(g)]); c.hit("assertions"); if(i>=0) fail(std::string("restore:conf:")+grpName(g),fmt("the generated configuration file gives %s entry %d = %.17g",grpName(g),i,now[grpName(g)].size()>i?now[grpName(g)][i]:0.)+" for "+vstr(v)); } if(sync&&relDiff(now["par_REG"],reg)>1e-12) fail("restore:conf:par_REG","the generated configuration file gives par_REG "+vstr(now["par_REG"])+" for "+vstr(reg)); }
      c.hit("cycles"); return; }
    if(!gen&&kind==2){ // configuration of the arm itself
      Outcome s; Io io; diskStart(quietDisk(c,p,r.next()),io.sh); s=doSave(b,"conf",f,{}); diskStop(); if(!saveOk("conf",s,false)) fail("save:conf","saving the configuration failed on a working disk: "+s.text);
      std::unique_ptr<VRobot> x,y; try{ diskStart(quietDisk(c,p,r.next()),io.sh); x.reset(makeInProc(b.a.name,f,false)); diskStop(); y.reset(makeInProc(b.a.name,b.ent.yaml,false)); } catch(std::exception&e){ diskStop(); fail("load:conf",std::string("the saved configuration does not load: ")+e.what()); } io.count(c);
      auto ix=x->info(),iy=y->info(); if(ix!=iy) fail("restore:conf:structure","the saved configuration describes another arm"); for(auto&g:groups(b)){ Vec u=y->getPar(g),v=x->getPar(g); int i=diffAt(u,v); c.hit("assertions"); if(i>=0) fail("restore:conf:"+g,fmt("%s entry %d differs after saving and loading the configuration",g.c_str(),i)+" "+vstr(u)+" / "+vstr(v)); }
      // and the same configuration into a live model
      auto z=restart(b,true); Outcome l=doLoad(*z,"conf",f,sync,{}); if(l.rc!=1) fail("load:conf","the saved configuration does not load into a live model: "+l.text); auto w=restart(b,true); Pars pz=pars(*z),pw=pars(*w); std::vector<std::string> on; for(auto&g:groups(b)) if(g!="par_REG") on.push_back(g); sameBitsOf(c,pw,pz,"restore:conf-live","configuration loaded into a live model",on);
      c.hit("cycles"); return; }
    if(gen){ if(kind==0){ sw=lw="par_REG"; exact={"par_REG","par_Dl"}; if(m.last==2&&m.sync&&sync) exact.push_back("par_DYN"); }
      else if(kind==1){ sw="par_DYN"; lw="conf"; exact={"par_DYN","par_Dl"}; if(m.last==1&&m.sync&&sync) exact.push_back("par_REG"); }
      else { sw="par"; lw=""; } }
    else { if(kind==0){ sw=lw="par_REG"; if(allDyn(b)){ exact={"par_REG"}; } }
      else { sw=lw="par"; for(auto&g:groups(b)) if(r.chance(0.6)) list.push_back(g); if(list.empty()) list.push_back("par_REG"); exact=list; for(int i=list.size()-1;i>0;i--) std::swap(list[i],list[r.below(i+1)]); bool d=std::count(list.begin(),list.end(),"par_DYN"),g=std::count(list.begin(),list.end(),"par_REG"); if(g&&!d&&!allDyn(b)) exact.erase(std::remove(exact.begin(),exact.end(),"par_REG"),exact.end()); } }
    std::vector<std::string> ex2; for(auto&g:exact) if(before.count(g)) ex2.push_back(g); exact=ex2;
    Io io; diskStart(quietDisk(c,p,r.next()),io.sh); Outcome s=doSave(b,sw,f,list); diskStop(); if(!saveOk(sw,s,gen)) fail("save:"+sw,"saving failed on a working disk: "+s.text+fmt(" rc=%d",s.rc)); sameBitsOf(c,before,pars(b),"save-changes","saving changed the model");
    if(lw.empty()){ // no loader in the library: the file itself must hold the values
      YAML::Node y=YAML::LoadFile(f); static const std::map<std::string,std::string> key={{"par_DHtable","DHtable"},{"par_world2L0","world2L0"},{"par_Ln2EE","Ln2EE"},{"par_gravity","gravity"}}; for(auto&q:before){ std::string k=key.count(q.first)?key.at(q.first):q.first; std::vector<double> v; try{ v=y[k].as<std::vector<double>>(); } catch(std::exception&e){ fail("file:"+q.first,"saved file lacks "+k); } int i=diffAt(q.second,Eigen::Map<Vec>(v.data(),v.size())); c.hit("assertions"); if(i>=0) fail("file:"+q.first,"the saved file holds other values for "+k); } io.count(c); c.hit("cycles"); return; }
    c.hit("fault.restart"); auto x=restart(b,gen&&o.c%2); bool emptyList=!gen&&lw=="par"&&o.c%3==0; diskStart(quietDisk(c,p,r.next()),io.sh); Outcome l=doLoad(*x,lw,f,sync,emptyList?std::vector<std::string>():list); diskStop(); io.count(c); if(l.said()) fail("load:"+lw,"loading a saved file failed: "+l.text);
    Pars after=pars(*x); dig(c,after); if(exact.size()) sameBitsOf(c,before,after,"restore","saved with "+sw+", loaded with "+lw+" into a fresh instance",exact); if(gen&&sync&&m.sync&&m.nice&&kind<=1){ std::string d=kind==0?"par_DYN":"par_REG"; c.hit("assertions"); if(!(linkDiff(before[d],after[d],kind==0)<=1e-9)) fail("restore:derived","saved with "+sw+", loaded with "+lw+": "+d+" was "+vstr(before[d])+" and is "+vstr(after[d])); }
    if(!gen&&kind==0&&!allDyn(b)&&relDiff(before["par_REG"],after["par_REG"])>1e-9) fail("restore:par_REG","saved with par_REG: "+vstr(before["par_REG"])+" came back as "+vstr(after["par_REG"]));
    // bring the sets this file does not hold to the same values: then every answer must be the same
    bool ok=true; for(auto&g:groups(b)) if(!std::count(exact.begin(),exact.end(),g)){ Quiet q; if(gen) x->m->setPar(g,before[g],false); else if(g!="par_DYN"&&g!="par_REG") x->m->setPar(g,before[g],false); else if(g=="par_DYN"&&!std::count(exact.begin(),exact.end(),"par_REG")){ ok=ok&&m.last==1; x->m->setPar(g,before[g],false); } }
    Pars fin=pars(*x); for(auto&q:before) if(diffAt(q.second,fin[q.first])>=0) ok=false; if(gen&&!ok) fail("restore:all","parameters differ after restoring every set");
    if(ok){ copyStates(b,*x); sameAnswers(b,*x,r,true,"restore","after save, restart and load ("+sw+")"); c.hit("probe.full_restore"); }
    c.hit("cycles"); if(ok){ x->acc=b.acc; x->eff=b.eff; m.b=std::move(x); } }

  // ---------------- C10 ----------------
  // values of the file, read independently: positional and by link name
  typedef std::map<std::string,std::vector<std::map<int,double>>> Expect; // group -> alternatives of index -> value
  static bool numOf(const YAML::Node&n,double&v){ try{ v=n.as<double>(); return true; } catch(...){ return false; } }
  static bool seqOf(const YAML::Node&n,std::vector<double>&v){ try{ v=n.as<std::vector<double>>(); return true; } catch(...){ return false; } }
  static void links(Bench&b,const YAML::Node&root,Expect&e,bool reg){ static const char*kd[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"},*kr[10]={"mass","m_CoM_x","m_CoM_y","m_CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}; if(!root.IsMap()||!root["dynamics"]||!root["dynamics"].IsMap()) return; std::string g=reg?"par_REG":"par_DYN";
    for(int mode=0;mode<2;mode++){ std::map<int,double> q,d; int i=0; for(auto n:root["dynamics"]){ int j=i; if(mode){ std::string nm=n.first.as<std::string>(""); j=-1; if(nm.rfind("link",0)==0) j=atoi(nm.c_str()+4)-1; } i++; if(j<0||j>=b.a.nj||!n.second.IsMap()) continue; YAML::Node in=n.second["inertial"]; if(in&&in.IsMap()) for(int k=0;k<10;k++){ double v; YAML::Node x=in[reg?kr[k]:kd[k]]; if(x&&numOf(x,v)) q[10*j+k]=v; } YAML::Node fr=n.second["friction"]; std::vector<double> v; if(fr&&fr.IsMap()&&fr["Dl"]&&seqOf(fr["Dl"],v)) for(int k=0;k<b.a.Dlo&&k<(int)v.size();k++) d[j*b.a.Dlo+k]=v[k]; } e[g].push_back(q); e["par_Dl"].push_back(d); } }
  static void fixedAt(Expect&e,const std::string&g,const std::vector<double>&v,int off){ if(e[g].empty()) e[g].push_back({}); for(size_t i=0;i<v.size();i++) e[g][0][off+i]=v[i]; }
  static Expect expectOf(Bench&b,const YAML::Node&root,const std::string&lw,const std::vector<std::string>&list){ Expect e; if(!root.IsMap()) return e;
    if(lw=="par_REG"){ links(b,root,e,true); return e; }
    if(lw=="par"){ for(auto n:root){ std::vector<double> v; if(seqOf(n.second,v)){ std::string g=n.first.as<std::string>(""); if(list.empty()||std::count(list.begin(),list.end(),g)) fixedAt(e,g,v,0); } } return e; }
    links(b,root,e,false); std::vector<double> v; if(b.gen()){ if(root["kinematics"]&&root["kinematics"].IsMap()&&seqOf(root["kinematics"]["DH"],v)) fixedAt(e,"par_DHtable",v,0); if(root["gravity"]&&root["gravity"].IsMap()&&seqOf(root["gravity"]["value"],v)) fixedAt(e,"par_gravity",v,0); static const char*fk[2][2]={{"Base_to_L0","par_world2L0"},{"Ln_to_EE","par_Ln2EE"}}; for(auto&k:fk) if(root[k[0]]&&root[k[0]].IsMap()){ if(seqOf(root[k[0]]["tr"],v)){ v.resize(3,1e999); fixedAt(e,k[1],v,0); } if(seqOf(root[k[0]]["ypr"],v)) fixedAt(e,k[1],v,3); } }
    if(root["elastic"]&&root["elastic"].IsMap()&&root["elastic"]["joints"]&&root["elastic"]["joints"].IsMap()){ int i=0; for(auto n:root["elastic"]["joints"]){ if(!n.second.IsMap()){ i++; continue; } const char*kk[3]={"K","D","Dm"}; int oo[3]={b.a.Ko,b.a.Do,b.a.Dmo}; for(int k=0;k<3;k++){ if(n.second[kk[k]]&&seqOf(n.second[kk[k]],v)){ v.resize(std::min<int>(v.size(),oo[k])); fixedAt(e,std::string("par_")+kk[k],v,i*oo[k]); } } double m; if(n.second["Mm"]&&numOf(n.second["Mm"],m)) fixedAt(e,"par_Mm",{m},i); i++; } }
    return e; }
  // full vector position of packed entry k
  static std::vector<int> packIdx(Bench&b,const std::string&g){ std::vector<int> v; int gi=-1; for(int i=0;i<NGRP;i++) if(g==grpName(i)) gi=i; if(gi<0) return v; bool packed=gi<=G_GRAV||(!b.gen()&&gi!=G_DYN); for(int i=0;i<b.a.full(gi);i++) if(!packed||b.a.symb[gi][i]) v.push_back(i); return v; }
  // where entry i of a read-back vector stands in the file's vector
  static int fileIdx(Bench&b,const std::string&g,bool viaPar,int i){ if(g=="par_REG") return i; auto idx=packIdx(b,g); if(viaPar){ if(g!="par_DYN") return i; if(!b.a.symb[G_DYN][i]) return -1; int k=0; for(int j=0;j<i;j++) k+=b.a.symb[G_DYN][j]?1:0; return k; } return i<(int)idx.size()?idx[i]:-1; }
  static std::string fileFor(Bench&b,const std::string&lw,Rng&r,std::vector<std::string>*list){ // a valid file with other values
    std::array<std::vector<double>,NGRP> all=b.a.val; for(int g=0;g<NGRP;g++) if(b.a.full(g)&&(g!=G_GRAV||b.a.gravGiven)){ Vec v=b.genPar(g,r); all[g].assign(v.data(),v.data()+v.size()); }
    if(lw=="conf"){ Arm k=b.a; k.val=all; k.styl=r.range(0,3); return armYaml(k); }
    Vec g=Bench::regOf(all[G_DYN]); std::ostringstream o; if(lw=="par_REG"){ static const char*k[10]={"mass","m_CoM_x","m_CoM_y","m_CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}; o<<"dynamics:\n"; for(int i=0;i<b.a.nj;i++){ o<<"  link"<<i+1<<":\n    inertial:\n"; for(int j=0;j<10;j++) o<<"      "<<k[j]<<": "<<num(g[10*i+j])<<"\n"; if(b.a.Dlo) o<<"    friction:\n      Dl: "<<lst(&all[G_DL][i*b.a.Dlo],b.a.Dlo)<<"\n"; } return o.str(); }
    for(int q=0;q<NGRP;q++) if(b.a.full(q)&&!b.a.noSym(q)&&r.chance(0.7)){ Vec v=Eigen::Map<Vec>(all[q].data(),all[q].size()); Vec pk=b.pack(q,v); o<<grpName(q)<<": "<<lst(pk.data(),pk.size())<<"\n"; list->push_back(grpName(q)); } if(r.chance(0.5)||list->empty()){ o<<"par_REG: "<<lst(g.data(),g.size())<<"\n"; list->push_back("par_REG"); } return o.str(); }
  static std::vector<std::string> lines(const std::string&s){ std::vector<std::string> v; std::istringstream i(s); std::string l; while(std::getline(i,l)) v.push_back(l); return v; }
  static std::string join(const std::vector<std::string>&v){ std::string s; for(auto&l:v) s+=l+"\n"; return s; }
  // a key that occurs twice in one map: which of the two counts is left open
  static bool twice(const YAML::Node&n){ if(n.IsSequence()){ for(auto x:n) if(twice(x)) return true; return false; } if(!n.IsMap()) return false; std::vector<std::string> k; for(auto x:n){ k.push_back(x.first.IsScalar()?x.first.Scalar():std::string("?")); if(twice(x.second)) return true; } std::sort(k.begin(),k.end()); return std::adjacent_find(k.begin(),k.end())!=k.end(); }
  static void numbersIn(const YAML::Node&n,std::vector<double>&v){ if(n.IsScalar()){ double d; if(numOf(n,d)) v.push_back(d); return; } if(n.IsSequence()||n.IsMap()) for(auto x:n) numbersIn(n.IsMap()?x.second:YAML::Node(x),v); }
  void bad(const Plan&p,const Op&o,Model&m,std::unique_ptr<Bench>&shadow,Ctx&c,Rng&r,int no){
    Bench&b=*m.b; bool gen=b.gen(); static const char*gl[2]={"conf","par_REG"},*il[3]={"conf","par_REG","par"}; std::string lw=gen?gl[o.b%2]:il[o.b%3]; std::vector<std::string> list; std::string good=fileFor(b,lw,r,&list); if(r.chance(0.3)) list.clear(); std::string f=c.dir+"/in"+std::to_string(no)+".yaml"; bool sync=o.c; long kind=o.a%22; bool must=false; Io io; DiskCfg d; d.roots={c.dir}; bool disk=false; std::string what; std::string content=good; bool write=true;
    switch(kind){
      case 0: write=false; must=true; what="a file that does not exist"; c.hit("fault.missing_file"); break;
      case 1: write=false; fs::create_directories(f); must=true; what="a directory"; c.hit("fault.directory"); break;
      case 2: case 3: case 4: { what="an intact file on a failing disk"; disk=true; writeFile(f,good); std::unique_ptr<Bench> t(new Bench(c,b.ent)); t->m.reset(b.m->clone()); d.pShort=r.chance(0.6)?r.uni(0.1,0.7):0; d.pEintr=r.chance(0.3)?0.2:0; d.seed=r.next(); diskStart(d,io.sh); doLoad(*t,lw,f,sync,list); diskStop(); long n=io.sh->ops; if(n<1) n=1; freeShared(io.sh); io.sh=newShared(); d.failAt=r.below(n); d.failSel=r.below(64); d.sticky=r.chance(0.5); break; }
      case 5: content=""; must=true; what="an empty file"; c.hit("fault.empty_file"); break;
      case 6: case 7: case 8: content=good.substr(0,r.below(good.size())); what="a file cut off by a crash"; c.hit("fault.truncated_file"); break;
      case 9: { content=good.substr(0,r.below(good.size())); content+=std::string(1+r.below(600),'\0'); what="a file with a tail of zeros"; c.hit("fault.zero_tail"); break; }
      case 10: { content.clear(); int n=r.range(1,400); for(int i=0;i<n;i++) content+=(char)(r.chance(0.8)?32+r.below(95):r.below(256)); what="garbage"; c.hit("fault.garbage_file"); break; }
      case 11: { auto L=lines(good); int k=r.range(1,3); for(int i=0;i<k&&L.size();i++) L.erase(L.begin()+r.below(L.size())); content=join(L); what="a file with missing lines"; c.hit("fault.lost_lines"); break; }
      case 12: { auto L=lines(good); int k=r.range(1,2); for(int i=0;i<k;i++){ auto&l=L[r.below(L.size())]; size_t q=l.find(':'); if(q!=std::string::npos&&q+1<l.size()){ static const char*bv[]={" abc"," [1, 2"," ~"," {a: 1}"," [a, b, c, d]"," 1,5"," \"0.5"," []"," nan0"}; l=l.substr(0,q+1)+bv[r.below(9)]; } } content=join(L); what="a file with a wrong value"; c.hit("fault.wrong_value"); break; }
      case 13: { Arm k=inprocArm("foreign",g_seed,p.kn("other")+r.below(50)); content=armYaml(k); if(r.chance(0.3)) content="par_DYN: [1, 2, 3]\npar_K: [1]\n"; what="a file of another arm"; c.hit("fault.foreign_file"); break; }
      case 14: { std::string w2=lw=="conf"?"par_REG":"conf"; std::vector<std::string> dmy; content=r.chance(0.5)?fileFor(b,w2,r,&dmy):std::string("DHtable: [0, 1]\nworld2L0: [0]\ngravity: [0, 0, 9]\npar_DYN: [1]\n"); what="a file of another kind"; c.hit("fault.wrong_kind"); break; }
      case 16: case 17: case 18: case 19: case 20: case 21: { int n=r.range(1,2); std::vector<std::string> dmy; for(int i=0;i<n;i++){ int k=r.below(NDMG); std::string other; if(k==8) other=r.chance(0.5)?fileFor(b,lw,r,&dmy):content; content=damage(content,k,r.next()>>1,other.empty()?good:other); c.hit(std::string("fault.file: ")+DMG[k]); what=std::string("a damaged file (")+DMG[k]+")"; } break; }
      default: { size_t k=good.size()/3+r.below(good.size()/3+1); int n=1+r.below(12); for(int i=0;i<n&&k+i<content.size();i++) content[k+i]^=1<<r.below(7); what="a file with flipped bits"; c.hit("fault.bit_flips"); break; } }
    if(write) writeFile(f,content);
    Pars prev=pars(b); if(disk) diskStart(d,io.sh); Outcome l=doLoad(b,lw,f,sync,list); if(disk){ diskStop(); io.count(c); }
    Pars now=pars(b); c.dig.u(l.said()); dig(c,now); c.hit("bad_loads");
    YAML::Node root; bool parsed=false; if(fs::is_regular_file(f)) try{ root=YAML::LoadFile(f); parsed=true; } catch(...){}
    if(fs::is_regular_file(f)&&!parsed) must=true; if(parsed&&!root.IsMap()) must=true;
    if(disk){ long got=0; bool opened=true,rderr=false; for(long i=0;i<io.sh->nlog&&i<8192;i++){ auto&e=io.sh->log[i]; if(e.cls==DO_OPENR&&e.err) opened=false; if(e.cls==DO_READ&&e.err==EIO) rderr=true; } (void)got; if(!opened) must=true; if(rderr&&io.sh->kinds[FK_READEIO]){ // an error before the end of the data was seen
        long seen=0; bool before=false; for(long i=0;i<io.sh->nlog&&i<8192;i++){ auto&e=io.sh->log[i]; if(e.cls!=DO_READ) continue; if(e.err==EIO){ before=seen<(long)good.size(); break; } if(!e.err) seen+=e.n; } if(before) must=true; } }
    std::string desc="loading "+what+" with "+lw;
    if(must&&!l.said()) fail("silent:"+lw,desc+" was not reported as a failure");
    if(l.said()){ c.hit("reported_failures"); sameBitsOf(c,prev,now,"half-loaded",desc+" failed ("+l.text.substr(0,200)+") but changed the model"); }
    else { bool dup=parsed&&twice(root); std::vector<double> anyNum; if(dup) numbersIn(root,anyNum); Expect e=disk?expectOf(b,YAML::Load(good),lw,list):expectOf(b,root,lw,list); // every entry: what it was, or what the file says
      for(auto&g:prev){ bool derived=(g.first=="par_REG"&&!e.count("par_REG"))||(g.first=="par_DYN"&&!e.count("par_DYN")); if(derived) continue; const Vec&x=now[g.first]; if(x.size()!=g.second.size()) fail("resized:"+g.first,desc+fmt(" (not reported as a failure) changed the size of %s from %d to %d",g.first.c_str(),(int)g.second.size(),(int)x.size())); if(g.first=="par_REG"&&!gen&&!allDyn(b)) continue; bool viaPar=lw=="par"; for(int i=0;i<x.size();i++){ c.hit("assertions"); if(eqv(x[i],g.second[i],true)) continue; bool ok=false; if(dup) for(double v:anyNum) if(eqv(v,x[i],false)) ok=true; int fi=fileIdx(b,g.first,viaPar,i); for(auto&alt:e[g.first]){ auto it=alt.find(fi); if(it!=alt.end()&&eqv(it->second,x[i],false)) ok=true; } if(!ok) fail("mixed:"+g.first,desc+fmt(" was not reported as a failure, but %s entry %d became %.17g, which is neither its previous value %.17g nor the value in the file",g.first.c_str(),i,x[i],g.second[i])); } }
      // the derived set: untouched or consistent
      for(std::string g:{"par_REG","par_DYN"}) if(!e.count(g)&&diffAt(prev[g],now[g])>=0){ Vec dd=gen?now["par_DYN"]:Vec(); if(gen){ Vec rr=Bench::regOf(std::vector<double>(dd.data(),dd.data()+dd.size())); bool fin=true; for(int i=0;i<rr.size();i++) fin=fin&&std::isfinite(rr[i])&&std::isfinite(now["par_REG"][i]); bool massOk=true; for(int i=0;i<dd.size();i+=10) massOk=massOk&&std::fabs(dd[i])>1e-6; if(fin&&massOk&&relDiff(rr,now["par_REG"])>1e-6) fail("derived:"+g,desc+" left inertial parameters that disagree"); } }
      c.hit("tolerated_loads"); shadow->m.reset(b.m->clone()); for(auto&q:prev) (void)q; }
    m.last=0; }
  void good(const Op&o,Model&m,std::unique_ptr<Bench>&shadow,Ctx&c,Rng&r,int no){ Bench&b=*m.b; bool gen=b.gen(); static const char*gl[2]={"conf","par_REG"},*il[3]={"conf","par_REG","par"}; std::string lw=gen?gl[o.a%2]:il[o.a%3]; std::vector<std::string> list; std::string t=fileFor(b,lw,r,&list); std::string f=c.dir+"/good"+std::to_string(no)+".yaml"; writeFile(f,t); Outcome x=doLoad(b,lw,f,o.b,list),y=doLoad(*shadow,lw,f,o.b,list); if(x.said()) fail("recover:"+lw,"loading an intact file failed: "+x.text); if(y.said()) throw Infra{"shadow load"};
    sameBitsOf(c,pars(*shadow),pars(b),"recover","after loading an intact file following failed loads"); YAML::Node root=YAML::Load(t); Expect e=expectOf(b,root,lw,list); Pars now=pars(b); for(auto&g:e){ if(!now.count(g.first)) continue; if(g.first=="par_REG"&&!gen&&!allDyn(b)) continue; const Vec&v=now[g.first]; for(int i=0;i<v.size();i++){ int fi=fileIdx(b,g.first,lw=="par",i); if(!gen&&g.first=="par_DYN"&&!b.a.symb[G_DYN][i]) continue; auto it=g.second[0].find(fi); if(it==g.second[0].end()) continue; c.hit("assertions"); if(!eqv(it->second,v[i],false)) fail("notloaded:"+g.first,fmt("after loading an intact file with %s, %s entry %d is %.17g and not the %.17g of the file",lw.c_str(),g.first.c_str(),i,v[i],it->second)); } } c.hit("good_loads"); }

  // ---------------- C11 ----------------
  static std::map<std::string,std::string> tree(const std::string&d){ std::map<std::string,std::string> t; for(auto&e:fs::recursive_directory_iterator(d)) if(e.is_regular_file()) t[e.path().string()]=readFile(e.path()); else t[e.path().string()+"/"]=""; return t; }
  void save(const Plan&p,const Op&o,Model&m,Ctx&c,Rng&r,int no){
    Bench&b=*m.b; bool gen=b.gen(); static const char*gs[3]={"par_REG","par_DYN","par"},*is[3]={"par_REG","par","conf"}; std::string sw=gen?gs[o.a%3]:is[o.a%3]; std::vector<std::string> list; if(!gen&&sw=="par"){ for(auto&g:groups(b)) if(r.chance(0.6)) list.push_back(g); if(list.empty()) list.push_back("par_REG"); }
    std::string dir=c.dir+"/out"; fs::create_directories(dir+"/sub"); std::string f=dir+"/f"+std::to_string(o.b<4?no:(int)r.below(4))+".yaml"; bool badPath=false; std::string what="a working disk";
    switch(o.b){ case 0: case 1: case 2: case 3: break; case 4: if(r.chance(0.5)) writeFile(f,std::string(20000,'x')); c.hit("probe.overwrite"); break; case 5: f=dir+"/nosuch/dir/f.yaml"; badPath=true; what="a directory that does not exist"; c.hit("fault.bad_path"); break; case 6: f=dir+"/sub"; badPath=true; what="a directory"; c.hit("fault.bad_path"); break; case 7: f=""; badPath=true; what="an empty path"; c.hit("fault.bad_path"); break; case 8: f=dir+"/sub/"+std::string(300,'n')+".yaml"; badPath=true; what="a file name that is too long"; c.hit("fault.bad_path"); break; default: f=dir+"/sub/f.yaml"; }
    // what an undisturbed save of an identical instance writes
    std::unique_ptr<Bench> ref(new Bench(c,b.ent)); ref->m.reset(b.m->clone()); std::string rf=c.dir+"/ref"+std::to_string(no)+".yaml"; Outcome ro=doSave(*ref,sw,rf,list); if(!saveOk(sw,ro,gen)) fail("save:"+sw,"saving on a working disk was not reported as successful: "+ro.text); std::string want=readFile(rf); if(want.empty()) fail("save-empty:"+sw,"a save reported as successful left an empty file");
    Pars before=pars(b); auto t0=tree(dir); Io io; DiskCfg d=quietDisk(c,p,r.next()); d.roots={dir};
    { Io cnt; std::unique_ptr<Bench> t(new Bench(c,b.ent)); t->m.reset(b.m->clone()); DiskCfg q; q.roots={c.dir}; diskStart(q,cnt.sh); doSave(*t,sw,c.dir+"/probe.yaml",list); diskStop(); long n=std::max<long>(1,cnt.sh->ops),by=cnt.sh->bytesW; fs::remove(c.dir+"/probe.yaml");
      switch(o.c){ case 0: case 1: break; case 2: case 3: case 4: d.failAt=r.below(n+(d.pShort>0?2:0)); d.failSel=r.below(64); d.sticky=r.chance(0.5); what="a failing disk"; break; case 5: case 6: d.budget=r.chance(0.2)?by-1:(r.chance(0.15)?0:(long)r.below(by+1)); what="a full disk"; break; default: d.pShort=r.uni(0.2,0.9); d.pEintr=r.uni(0,0.4); } }
    diskStart(d,io.sh); Outcome s=doSave(b,sw,f,list); diskStop(); io.count(c); bool ok=saveOk(sw,s,gen); c.dig.u(ok); c.hit("saves");
    sameBitsOf(c,before,pars(b),"save-changes","a save changed the model");
    auto t1=tree(dir); for(auto&e:t0) if(e.first!=f&&(!t1.count(e.first)||t1[e.first]!=e.second)) fail("other-file","a save to "+f+" changed "+e.first); for(auto&e:t1) if(!t0.count(e.first)&&e.first!=f&&e.first.compare(0,f.size(),f)!=0) fail("other-file","a save to "+f+" created "+e.first);
    std::string have=badPath?"":readFile(f);
    if(ok){ c.hit("successes"); if(badPath) fail("false-success:"+sw,"saving to "+what+" was reported as successful"); if(have!=want) fail("false-success:"+sw,"on "+what+" a save ("+sw+") was reported as successful, but the file "+(have.empty()?"is empty or missing":fmt("holds %zu bytes instead of the %zu of a complete save%s",have.size(),want.size(),have.size()==want.size()?" (different content)":"")));
      loadBack(b,sw,f,list,before,r,c); }
    else { c.hit("reported_failures"); if(!badPath&&io.faults()==0) fail("false-failure:"+sw,"a save on a disk without errors was not reported as successful: "+s.text); } }
  void loadBack(Bench&b,const std::string&sw,const std::string&f,const std::vector<std::string>&list,const Pars&before,Rng&r,Ctx&c){ bool gen=b.gen(); (void)r; if(sw=="conf"){ try{ std::unique_ptr<VRobot> x(makeInProc(b.a.name,f,false)); } catch(std::exception&e){ fail("unloadable:conf",std::string("a configuration saved successfully does not load: ")+e.what()); } return; }
    if(gen&&sw=="par") return; auto x=restart(b,gen); std::string lw=gen&&sw=="par_DYN"?"conf":sw; Outcome l=doLoad(*x,lw,f,true,list); if(l.said()) fail("unloadable:"+sw,"a file saved successfully does not load: "+l.text); std::vector<std::string> ex; if(sw=="par_REG"&&(gen||allDyn(b))) ex.push_back("par_REG"); if(sw=="par_DYN") ex.push_back("par_DYN"); if(gen&&b.a.Dlo) ex.push_back("par_Dl"); if(sw=="par"){ ex=list; if(std::count(list.begin(),list.end(),"par_REG")&&!std::count(list.begin(),list.end(),"par_DYN")&&!allDyn(b)) ex.erase(std::remove(ex.begin(),ex.end(),"par_REG"),ex.end()); } if(ex.size()) sameBitsOf(c,before,pars(*x),"loadback","a file saved successfully ("+sw+") loaded back",ex); }

  void run(const Plan&p,Ctx&c)override{
    Model m; m.b.reset(new Bench(c,armEntry(p.kn("farm0"),p.kn("arm0")))); m.b->boot(); m.last=1; std::unique_ptr<Bench> shadow; if(P=="C10"){ shadow.reset(new Bench(c,m.b->ent)); shadow->boot(); }
    c.hit("farm_runs",p.kn("farm0")); int no=0;
    auto both=[&](const Op&o,std::function<void(Model&,Rng&)> f){ { Rng r(o.s); f(m,r); } if(shadow){ Rng r(o.s); Model t; t.b=std::move(shadow); f(t,r); shadow=std::move(t.b); } };
    for(auto&o:p.ops){ Rng r(o.s); c.ev(o.str()); c.hit("ops"); c.cnt["sim_us"]+=1000; no++;
      if(o.k=="par") both(o,[&](Model&x,Rng&q){ setPar(x,o.a,q,o.b); });
      else if(o.k=="dyn") both(o,[&](Model&x,Rng&q){ setDyn(x,q,o.b,o.a); });
      else if(o.k=="reg") both(o,[&](Model&x,Rng&q){ setReg(x,q,o.b,o.a); });
      else if(o.k=="set") both(o,[&](Model&x,Rng&q){ setState(*x.b,o.a,q); });
      else if(o.k=="cycle") cycle(p,o,m,c,r,no);
      else if(o.k=="bad"){ bad(p,o,m,shadow,c,r,no); shadow->acc=m.b->acc; }
      else if(o.k=="good") good(o,m,shadow,c,r,no);
      else if(o.k=="peek"){ sameBitsOf(c,pars(*shadow),pars(*m.b),"history","parameters compared with an instance that never saw the failed loads"); copyStates(*m.b,*shadow); sameAnswers(*shadow,*m.b,r,o.a,"history","compared with an instance that never saw the failed loads"); }
      else if(o.k=="save") save(p,o,m,c,r,no); }
    c.cnt["nontrivial"]=P=="C09"?c.cnt["cycles"]>0:(P=="C10"?c.cnt["bad_loads"]>0:c.cnt["saves"]>0); }
};
World* makePersist(const std::string&n){ return new PersistWorld(n); }
}
