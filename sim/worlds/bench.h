// Common test bench: one arm model under test + the harness' own record of what that model has accepted.
#pragma once
#include "../core/plan.h"
#include "../core/ref.h"
#include "../core/armgen.h"
#include "../core/vrobot.h"
#include "../core/inproc.h"
#include <cstdarg>
#include <dlfcn.h>
#include <sys/stat.h>
namespace sim {
// ---- arms available to a world ----
struct ArmRef { bool farm=false; long id=0; };   // farm: generated through the real CLI; otherwise in-process
struct ArmEntry { Arm arm; std::string yaml,confFile,regFile,dir; VRobot* proto=nullptr; std::string buildError; bool bare=false; /* parameters only: no dynamics computed, no queries */ };
extern std::string g_farmDir,g_scratch,g_profile; extern uint64_t g_seed; extern int g_farmN;
Arm farmArm(const std::string&profile,uint64_t seed,int i);
Arm inprocArm(const std::string&profile,uint64_t seed,long i);
ArmEntry& armEntry(bool farm,long id);           // cached; builds/loads on first use
VRobot* newModel(ArmEntry&);                     // fresh instance

static const char*const ST[12]={"q","dq","ddq","d3q","d4q","dqr","ddqr","x","dx","ddx","ddxr","w"};
inline int stSize(const Arm&a,int i){ return i<7?a.nj:(i<11?a.nej():6); }

// smooth scripted motion with exact derivatives
struct Motion { int n; std::vector<double> A,w,ph,off; Motion(uint64_t seed,int n_,double amp=1.2):n(n_){ Rng r(seed); for(int j=0;j<n;j++){ off.push_back(r.uni(-2,2)); for(int k=0;k<2;k++){ A.push_back(r.uni(-amp,amp)); w.push_back(r.uni(0.3,3)); ph.push_back(r.uni(0,6)); } } }
  Vec at(double t,int d)const{ Vec v(n); for(int j=0;j<n;j++){ double s=d==0?off[j]:0; for(int k=0;k<2;k++){ int i=2*j+k; s+=A[i]*std::pow(w[i],d)*std::sin(w[i]*t+ph[i]+d*1.5707963267948966);} v[j]=s;} return v; } };

struct Cmp { double worst=0; };
inline double relErr(const Mat&x,const Mat&y){ if(x.rows()!=y.rows()||x.cols()!=y.cols()) return 1e300; double s=1,e=0; for(int i=0;i<x.size();i++){ double a=x.data()[i],b=y.data()[i]; if(!(std::isfinite(a)&&std::isfinite(b))) return 1e300; s=std::max(s,std::fabs(b)); e=std::max(e,std::fabs(a-b)); } return e/s; }
// worst difference of two inertial sets, link by link, each quantity on its own scale; the centre of mass of a massless link is free
inline double linkDiff(const Vec&x,const Vec&y,bool dyn){ if(x.size()!=y.size()) return 1e300; double w=0; for(int l=0;l+9<x.size();l+=10){ for(int k=0;k<10;k++) if(!std::isfinite(x[l+k])||!std::isfinite(y[l+k])) return 1e300; double m=std::max(std::fabs(x[l]),std::fabs(y[l])),c=0,I=0,dc=0,dI=0; for(int k=1;k<4;k++){ c=std::max(c,std::max(std::fabs(x[l+k]),std::fabs(y[l+k]))); dc=std::max(dc,std::fabs(x[l+k]-y[l+k])); } for(int k=4;k<10;k++){ I=std::max(I,std::max(std::fabs(x[l+k]),std::fabs(y[l+k]))); dI=std::max(dI,std::fabs(x[l+k]-y[l+k])); } if(dyn) I+=m*c*c;
  if(m>0) w=std::max(w,std::fabs(x[l]-y[l])/m); if(c>0&&(m>0||!dyn)) w=std::max(w,dc/c); if(I>0) w=std::max(w,dI/I); } return w; }
// light, heavy and massless links
inline void scaleLinks(Rng&r,Vec&v,const Arm&a){ for(int l=0;l+9<v.size();l+=10){ double u=r.uni(); if(u<0.2){ double s=std::pow(10.,r.uni(-6,3)); v[l]*=s; for(int k=4;k<10;k++) v[l+k]*=s; } else if(u<0.27&&a.symb[G_DYN][l]) for(int k=0;k<10;k++) v[l+k]=0; } }
inline std::string mstr(const Mat&m){ std::ostringstream o; o<<m.rows()<<"x"<<m.cols()<<"["; o.precision(10); for(int i=0;i<m.rows()&&i<8;i++){ for(int j=0;j<m.cols()&&j<12;j++) o<<(j?" ":"")<<m(i,j); o<<";"; } o<<"]"; return o.str(); }

struct Bench {
  Ctx&c; ArmEntry&ent; const Arm&a; std::unique_ptr<VRobot> m; JState acc; Eff eff; // accepted inputs, effective parameters
  std::map<std::string,std::pair<int,int>> fn; std::vector<std::string> names;
  std::array<Vec,NGRP> stored; Vec reg;      // what a read-back of each set must give (full vectors for non-kinematic groups)
  double tol=1e-7;
  Bench(Ctx&c_,ArmEntry&e_):c(c_),ent(e_),a(e_.arm){ if(!e_.bare) for(auto&f:functionsOf(a)){ fn[f.name]={f.rows,f.cols}; names.push_back(f.name); } }
  bool gen()const{ return m->generated(); }
  void boot(bool loadConf=true){ m.reset(newModel(ent)); acc.zero(a.nj,a.nej()); eff=effOf(a); if(gen()&&loadConf){ Quiet q; m->load("conf",ent.confFile,true,{}); if(!q.text().empty()) fail("load","loading the generated configuration reported: "+q.text()); } resetStored(); }
  // what the arm says about itself
  void structure(){ auto m2=m->info(); auto is=[&](const std::string&k,int v){ auto it=m2.find(k); c.hit("assertions"); if(it==m2.end()||it->second!=v) fail("structure:"+cls(k),fmt("the arm reports %s = %d instead of %d",k.c_str(),it==m2.end()?-1:it->second,v)); };
    is("n_joints",a.nj); is("numJoints",a.nj); is("numParDYN",10*a.nj); is("numParREG",10*a.nj); is("Dl_order",a.Dlo); is("ELASTIC",a.elastic); if(!gen()) is("name",hashStr(a.name)&0xffffff); if(a.elastic){ is("numElasticJoints",a.nej()); is("K_order",a.Ko); is("D_order",a.Do); is("Dm_order",a.Dmo); for(int j=0;j<a.nj;j++) is("elastic"+std::to_string(j),a.isSEA(j)); } }
  void resetStored(){ for(int g=0;g<NGRP;g++) stored[g]=Eigen::Map<const Vec>(eff.v[g].data(),eff.v[g].size()); reg=regOf(eff.v[G_DYN]); }
  static Vec regOf(const std::vector<double>&d){ Vec r(d.size()); for(size_t i=0;i+9<d.size();i+=10) dyn2reg(&d[i],r.data()+i); return r; }
  Vec pack(int g,const Vec&full)const{ std::vector<double> p; for(int i=0;i<(int)full.size();i++) if(a.symb[g][i]) p.push_back(full[i]); return Eigen::Map<Vec>(p.data(),p.size()); }
  void setState(int i,const Vec&v){ Quiet q; if(!m->setState(ST[i],v)) return; if(m->status==0) fail("refused:"+std::string(ST[i]),std::string(ST[i])+" of the right dimension is refused"); acc.by(ST[i])=v; }
  // full: new values for the whole group; only adjustable entries take effect
  void setPar(int g,const Vec&full,bool sync=true){ Quiet q; if(full.size()==0) return;
    bool kin=g<=G_GRAV; if(kin||(!gen()&&g!=G_DYN)){ if(a.noSym(g)) return; m->setPar(grpName(g),pack(g,full),sync); } else m->setPar(grpName(g),full,sync);
    if(m->status==0) fail(std::string("refused:")+grpName(g),std::string(grpName(g))+" of the right dimension is refused");
    for(int i=0;i<a.full(g);i++) if(a.symb[g][i]) eff.v[g][i]=full[i]; }
  void setReg(const Vec&r){ Quiet q; m->setPar("par_REG",r,true); for(int i=0;i<a.nj;i++){ double d[10]; reg2dyn(r.data()+10*i,d); for(int k=0;k<10;k++) if(a.symb[G_DYN][10*i+k]) eff.v[G_DYN][10*i+k]=d[k]; } }
  // a refusal is visible to the caller: by value or by a message
  void refused(const Quiet&q,const std::string&what){ c.hit("assertions"); if(m->status>=0?m->status!=0:const_cast<Quiet&>(q).text().empty()) fail("refusal:silent",what+" of a wrong dimension was not reported as refused"); }
  Vec genPar(int g,Rng&r)const{ int n=a.full(g); Vec v(n); if(g==G_DYN){ for(int i=0;i<a.nj;i++) physicalInertia(r,v.data()+10*i); return v; }
    for(int i=0;i<n;i++) switch(g){ case G_DH: v[i]=(i%4==1||i%4==3)?angle(r):r.uni(-.8,.8); break; case G_BASE: case G_EE: v[i]=i<3?r.uni(-1,1):angle(r); break; case G_GRAV: v[i]=r.uni(-10,10); break; default: v[i]=r.uni(0.02,2); } return v; }
  Mat ask(const std::string&nm){ Quiet q; if(!m->has(nm)) fail("missing:"+nm,"query "+nm+" is not available"); Mat r=m->get(nm); c.hit("queries"); for(int i=0;i<r.size();i++) c.dig.d(r.data()[i]); auto s=fn[nm]; if(r.rows()!=s.first||r.cols()!=s.second) fail("shape:"+cls(nm),nm+" has wrong shape "+mstr(r)); return r; }
  static std::string cls(const std::string&n){ std::string s; for(char ch:n) s+=isdigit(ch)?'#':ch; return s; }
  void require(bool ok,const std::string&cl,const std::string&d){ c.hit("assertions"); if(!ok) fail(cl,d); }
  void close(const Mat&x,const Mat&y,const std::string&cl,const std::string&what,double t=0){ c.hit("assertions"); double e=relErr(x,y); if(!(e<=(t>0?t:tol))) fail(cl,what+": got "+mstr(x)+" expected "+mstr(y)+" relative error "+std::to_string(e)); c.mx("max_err_e12",e*1e12); }
  RefEval ref(){ return RefEval(a,eff,acc); }
  // compare one query with the reference at the accepted inputs
  void check(RefEval&r,const std::string&nm){ Mat x=ask(nm);
    if(nm=="J_ee_pinv"){ Mat J=r.jac(a.nj-1,r.frames()[a.nj+1].p); Mat A=x*J*J.transpose()-J.transpose(); double pp=x.squaredNorm(); if(J.norm()<1e-9){ close(x,Mat::Zero(a.nj,6),"value:J_ee_pinv","pseudo-inverse of a zero Jacobian"); return; } double mu=-(A.cwiseProduct(x)).sum()/pp; require(mu>=-1e-9&&mu<=0.1001,"value:J_ee_pinv","damping of J_ee_pinv is "+std::to_string(mu)); close(A,-mu*x,"value:J_ee_pinv","J_ee_pinv is not the damped inverse of the Jacobian"); return; }
    close(x,r.eval(nm),"value:"+cls(nm),nm); }
};
}
