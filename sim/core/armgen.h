// Seeded generation of arm configurations and of their YAML files.
#pragma once
#include "ref.h"
#include <sstream>
#include <iomanip>
#include <fstream>
namespace sim {
struct ArmOpt { int njMin=1,njMax=3; double elastic=0.4; double symAll=0.3,symSome=0.4; bool forceSymDyn=false; int dlMax=3; bool farm=false; int mustElastic=-1; bool slides=false; /* prismatic joints only: many joints at little cost */ bool highOrder=false; };

// notations that must not change the meaning of a configuration
enum { Q_EXTRA_LINK=1, Q_NAMES=2, Q_SHORT_SYMB=4, Q_EXTRA_COEF=8, Q_INTS=16, Q_EXTRA_JOINT=32, Q_EXTRA_KEYS=64, NQUIRK=7 };

inline double tiny(Rng&r,double lo,double hi){ return (r.chance(0.5)?1:-1)*std::pow(10.,r.uni(lo,hi)); }
inline double niceOr(Rng&r,double lo,double hi){ switch(r.below(8)){ case 0: return 0; case 1: return std::round(r.uni(lo,hi)*4)/4; case 2: return r.chance(0.3)?tiny(r,-8,1):r.uni(lo,hi); default: return r.uni(lo,hi);} }
// also almost (but not) aligned axes, and angles of more than half a turn
inline double angle(Rng&r){ static const double h=1.5707963267948966; switch(r.below(7)){ case 0: return 0; case 1: return h; case 2: return -h; case 3: { static const double z[5]={0,0,h,-h,2*h}; return z[r.below(5)]+tiny(r,-8,-2); } case 4: return r.chance(0.2)?(r.chance(0.5)?2*h:r.uni(-8,8)):r.uni(-3,3); default: return r.uni(-3,3);} }
// physically meaningful inertia: a cloud of point masses
inline void physicalInertia(Rng&r,double*d){ int n=6; std::vector<std::array<double,4>> p; double M=0,c[3]={0,0,0}; for(int i=0;i<n;i++){ std::array<double,4> a{r.uni(0.05,0.8),r.uni(-.4,.4),r.uni(-.4,.4),r.uni(-.4,.4)}; p.push_back(a); M+=a[0]; for(int k=0;k<3;k++) c[k]+=a[0]*a[k+1]; } for(int k=0;k<3;k++) c[k]/=M;
  double I[6]={0}; for(auto&a:p){ double x=a[1]-c[0],y=a[2]-c[1],z=a[3]-c[2],m=a[0]; I[0]+=m*(y*y+z*z); I[1]-=m*x*y; I[2]-=m*x*z; I[3]+=m*(x*x+z*z); I[4]-=m*y*z; I[5]+=m*(x*x+y*y);} d[0]=M; for(int k=0;k<3;k++) d[1+k]=c[k]; for(int k=0;k<6;k++) d[4+k]=I[k]; }
inline void genSymb(Rng&r,const ArmOpt&o,Arm&a,int g,int n){ a.symb[g].assign(n,0); double u=r.uni(); if(u<o.symAll){ a.symb[g].assign(n,1); a.symbGiven[g]=1; } else if(u<o.symAll+o.symSome){ for(int i=0;i<n;i++) a.symb[g][i]=r.chance(0.5); a.symbGiven[g]=1; } else a.symbGiven[g]=r.chance(0.5); }
inline Arm genArm(uint64_t seed,const ArmOpt&o,const std::string&name){
  Rng r(seed); Arm a; a.name=name; a.nj=r.range(o.njMin,o.njMax);
  bool wantE=o.mustElastic>=0?o.mustElastic:r.chance(o.elastic); double pp=r.pick(std::vector<double>{0,0.2,0.5}); int seaMode=r.range(0,2);
  for(int j=0;j<a.nj;j++){ std::string t=r.chance(pp)||o.slides?"P":"R"; if(wantE&&(seaMode==0||r.chance(seaMode==1?0.5:0.35))) t+="_SEA"; a.types.push_back(t); }
  if(o.slides){ int k=r.pick(std::vector<int>{0,1,1,2}); for(int i=0;i<k;i++){ int j=r.chance(0.7)?a.nj-1-(int)r.below(3):(int)r.below(a.nj); a.types[j][0]='R'; } }
  if(o.farm&&o.mustElastic==1&&!o.slides) for(int k=0;(int)a.sea().size()<std::min(a.nj,2)&&k<20;k++){ auto&t=a.types[r.below(a.nj)]; if(t.size()==1) t+="_SEA"; }
  if(wantE&&a.sea().empty()) a.types[r.below(a.nj)]+="_SEA";
  a.elastic=wantE; if(wantE){ a.Ko=r.range(0,3); a.Do=r.range(0,3); a.Dmo=r.range(0,3); if(r.chance(0.5)){ a.Ko=std::max(a.Ko,1); a.Do=std::max(a.Do,1);} }
  a.Dlo=r.range(0,o.dlMax); int n=a.nj,e=a.nej(); if(o.highOrder){ a.Dlo=r.range(3,6); if(wantE){ a.Ko=r.range(0,5); a.Do=r.range(2,6); a.Dmo=r.range(2,6); } }
  for(int i=0;i<4*n;i++) a.val[G_DH].push_back((i%4==1||i%4==3)?angle(r):niceOr(r,-0.7,0.7));
  for(int f:{G_BASE,G_EE}) { bool z=r.chance(0.25); for(int i=0;i<6;i++) a.val[f].push_back(z?0:(i<3?niceOr(r,-1,1):angle(r))); }
  switch(r.below(4)){ case 0: a.val[G_GRAV]={0,0,-9.81}; break; case 1: a.val[G_GRAV]={0,0,0}; if(r.chance(0.5)) a.gravGiven=false; break; default: a.val[G_GRAV]={r.uni(-10,10),r.uni(-10,10),r.uni(-10,10)}; }
  a.val[G_DYN].resize(10*n); for(int i=0;i<n;i++) physicalInertia(r,&a.val[G_DYN][10*i]);
  auto pos=[&](int g,int m){ for(int i=0;i<m;i++) a.val[g].push_back(r.chance(0.15)?0:r.uni(0.05,2)); };
  pos(G_DL,n*a.Dlo); pos(G_K,e*a.Ko); pos(G_D,e*a.Do); pos(G_DM,e*a.Dmo); for(int i=0;i<(a.elastic?e:0);i++) a.val[G_MM].push_back(r.uni(0.05,1));
  for(int g=0;g<NGRP;g++) genSymb(r,o,a,g,a.full(g));
  // small groups of generated arms: entries that are fixed stand before adjustable ones
  if(o.farm&&o.symSome>0) for(int g=0;g<NGRP;g++) if(g!=G_DYN&&a.full(g)>=2&&r.chance(g>=G_K?0.6:0.3)){ a.symbGiven[g]=1; a.symb[g].assign(a.full(g),1); a.symb[g][0]=0; for(int i=1;i+1<a.full(g);i++) a.symb[g][i]=r.chance(0.6); }
  if(!a.gravGiven){ a.symb[G_GRAV].assign(3,0); a.symbGiven[G_GRAV]=0; } if(o.slides) a.symb[G_DH].assign(4*n,0);
  if(o.forceSymDyn){ a.symb[G_DYN].assign(10*n,1); a.symbGiven[G_DYN]=1; }
  a.styl=r.range(0,3);
  for(int b=0;b<NQUIRK;b++) if(r.chance(0.12)) a.quirk|=1<<b;
  return a; }
// exact, but in varied notations
inline std::string num(double v,bool ints=false){ char b[64]; std::snprintf(b,64,"%.17g",v); std::string s(b); if(!ints) if(s.find_first_of(".eni")==std::string::npos) s+=".0"; return s; }
inline std::string lst(const double*p,int n,int q=0){ std::string s="["; for(int i=0;i<n;i++){ if(i) s+=", "; s+=num(p[i],q&Q_INTS); } if(q&Q_EXTRA_COEF) s+=n?", 0.625, 7":"0.625"; return s+"]"; }
inline std::string lsti(const int*p,int n,int q=0){ std::string s="["; if(q&Q_SHORT_SYMB) while(n>0&&!p[n-1]) n--; for(int i=0;i<n;i++){ if(i) s+=","; s+=std::to_string(p[i]); } if(q&Q_EXTRA_COEF) s+=n?",1":""; return s+"]"; }
inline std::string armYaml(const Arm&a){
  std::ostringstream o; int n=a.nj; int Q=a.quirk, qi=Q&Q_INTS, qc=Q&(Q_INTS|Q_EXTRA_COEF); auto num=[&](double v){ return sim::num(v,qi); };
  // flag lists: of the links, and of the joints, they may be shorter or longer than needed
  auto sy=[&](int g,int from,int cnt,const std::string&ind,const std::string&key="symb"){ if(!a.symbGiven[g]) return; int q=0; if(g==G_DYN) q=Q&Q_SHORT_SYMB; else if(g>=G_DL) q=Q&(Q_SHORT_SYMB|Q_EXTRA_COEF);
    if(q&Q_SHORT_SYMB){ q&=~Q_EXTRA_COEF; bool any=false; for(int i=0;i<cnt;i++) any=any||a.symb[g][from+i]; if(!any) return; }
    o<<ind<<key<<": "<<lsti(a.symb[g].data()+from,cnt,q)<<"\n"; };
  auto linkName=[&](int i){ return Q&Q_NAMES?(a.styl%2?"segment_"+std::string(1,char('z'-i)):"link"+std::to_string(n-i)):"link"+std::to_string(i+1); };
  if(a.styl!=1) o<<"# robot configuration\nversion: 0.3\n\n"; if(a.styl==2) o<<"PI_2: &PI_2   1.5707963267948966\nMPI_2: &MPI_2 -1.5707963267948966\n";
  if(a.elastic) o<<"ELASTIC_MODEL: true\n"; else if(a.styl==0) o<<"ELASTIC_MODEL: false\n";
  o<<"num_joints: "<<n<<"   # joints\n"; if(a.Dlo||a.styl==2) o<<"Dl_order: "<<a.Dlo<<"\n";
  o<<"type_joints: ["; for(int j=0;j<n;j++) o<<(j?", ":"")<<(a.styl==3?"":"'")<<a.types[j]<<(a.styl==3?"":"'"); o<<"]\n";
  o<<"kinematics:\n"; sy(G_DH,0,4*n,"  "); 
  if(a.styl==2){ o<<"  DH: ["; for(int i=0;i<4*n;i++){ double v=a.val[G_DH][i]; if(i) o<<(i%4?", ":",\n       "); if(v==1.5707963267948966) o<<"*PI_2"; else if(v==-1.5707963267948966) o<<"*MPI_2"; else o<<num(v);} o<<"]\n"; } else o<<"  DH: "<<lst(a.val[G_DH].data(),4*n,qi)<<"\n";
  auto grav=[&]{ if(a.gravGiven){ o<<"gravity:\n"; sy(G_GRAV,0,3,"  "); o<<"  value: "<<lst(a.val[G_GRAV].data(),3,qi)<<"\n"; } };
  if(a.styl!=3) grav();
  const char*fn[2]={"Base_to_L0","Ln_to_EE"}; for(int k=0;k<2;k++){ int g=k?G_EE:G_BASE; o<<fn[k]<<":\n"; sy(g,0,6,"  "); o<<"  tr: "<<lst(a.val[g].data(),3,qi)<<"\n  ypr: "<<lst(a.val[g].data()+3,3,qi)<<"\n"; }
  static const char*ik[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"};
  o<<"\ndynamics:\n"; for(int i=0;i<n;i++){ o<<"  "<<linkName(i)<<":\n"; if(Q&Q_EXTRA_KEYS) o<<"    description: 'segment, {not} used'\n"; o<<"    inertial:\n"; sy(G_DYN,10*i,10,"      "); for(int k=0;k<10;k++){ int kk=a.styl==1?(k*3)%10:k; o<<"      "<<ik[kk]<<": "<<num(a.val[G_DYN][10*i+kk])<<"\n"; }
    if(a.Dlo){ o<<"    friction:\n"; sy(G_DL,i*a.Dlo,a.Dlo,"      "); o<<"      Dl: "<<lst(a.val[G_DL].data()+i*a.Dlo,a.Dlo,qc)<<"\n"; } }
  if(Q&Q_EXTRA_LINK){ o<<"  hand:\n    inertial:\n      symb: [1,1,1,1,1,1,1,1,1,1]\n"; for(int k=0;k<10;k++) o<<"      "<<ik[k]<<": "<<0.5*k+0.25<<"\n"; if(a.Dlo) o<<"    friction:\n      symb: "<<lsti(std::vector<int>(a.Dlo,1).data(),a.Dlo)<<"\n      Dl: "<<lst(std::vector<double>(a.Dlo,3.5).data(),a.Dlo)<<"\n"; }
  if(a.styl==3) grav();
  if(a.elastic){ int e=a.nej(); o<<"\nelastic:\n  K_order: "<<a.Ko<<"\n  D_order: "<<a.Do<<"\n  Dm_order: "<<a.Dmo<<"\n  joints:\n"; auto sea=a.sea(); for(int i=0;i<e;i++){ o<<"    "<<(Q&Q_NAMES?(a.styl%2?"spring_"+std::string(1,char('z'-i)):"joint"+std::to_string(n-i)):"joint"+std::to_string(a.styl==1?sea[i]+1:i+1))<<":\n"; std::string in="      ";
      o<<in<<"K: "<<lst(a.val[G_K].data()+i*a.Ko,a.Ko,qc)<<"\n"<<in<<"D: "<<lst(a.val[G_D].data()+i*a.Do,a.Do,qc)<<"\n"<<in<<"Dm: "<<lst(a.val[G_DM].data()+i*a.Dmo,a.Dmo,qc)<<"\n"<<in<<"Mm: "<<num(a.val[G_MM][i])<<"\n";
      sy(G_K,i*a.Ko,a.Ko,in,"K_symb"); sy(G_D,i*a.Do,a.Do,in,"D_symb"); sy(G_DM,i*a.Dmo,a.Dmo,in,"Dm_symb"); if(a.symbGiven[G_MM]) o<<in<<"Mm_symb: "<<a.symb[G_MM][i]<<"\n"; }
    if(Q&Q_EXTRA_JOINT){ std::string in="      "; o<<"    spare:\n"<<in<<"K: "<<lst(std::vector<double>(a.Ko,9.5).data(),a.Ko)<<"\n"<<in<<"D: "<<lst(std::vector<double>(a.Do,9.5).data(),a.Do)<<"\n"<<in<<"Dm: "<<lst(std::vector<double>(a.Dmo,9.5).data(),a.Dmo)<<"\n"<<in<<"Mm: 9.5\n"<<in<<"Mm_symb: 1\n"; } }
  if(Q&Q_EXTRA_KEYS) o<<"\nauthor: {name: someone, year: 2020}\n";
  return o.str(); }
inline void writeFile(const std::string&p,const std::string&s){ std::ofstream f(p,std::ios::binary|std::ios::trunc); f<<s; f.close(); if(!f) throw std::runtime_error("harness: cannot write "+p); }
inline std::string readFile(const std::string&p){ std::ifstream f(p,std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str(); }
// the same arm with the given values fixed at generation
inline Arm baked(const Arm&a,const Eff&e){ Arm b=a; for(int g=0;g<NGRP;g++){ b.val[g]=e.v[g]; b.symb[g].assign(a.full(g),0); b.symbGiven[g]=0; } b.gravGiven=true; return b; }
inline Eff effOf(const Arm&a){ Eff e; e.v=a.val; return e; }
}
