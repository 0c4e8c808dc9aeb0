// World C15: the inertial converter (genYAML) and genInertial_files under a seeded random source and the simulated disk.
#include "bench.h"
#include "../core/cli.h"
#include "genYaml.h"
#include "damage.h"
#include "../core/cfgref.h"
#include <yaml-cpp/yaml.h>
#include <filesystem>
#include <signal.h>
#include <unistd.h>
namespace fs=std::filesystem;
namespace sim {
namespace {
struct Shm { DiskShared*s; Shm():s(newShared()){ if(!s) throw Infra{"mmap"}; } ~Shm(){ freeShared(s); } Shm(const Shm&)=delete; };
struct Lk { std::string name; double m=0; Eigen::Vector3d c; Eigen::Matrix3d I; };   // about the centre of mass
Eigen::Matrix3d RX(double a){ Eigen::Matrix3d r; r<<1,0,0,0,std::cos(a),-std::sin(a),0,std::sin(a),std::cos(a); return r; }
Eigen::Matrix3d RY(double a){ Eigen::Matrix3d r; r<<std::cos(a),0,std::sin(a),0,1,0,-std::sin(a),0,std::cos(a); return r; }
Eigen::Matrix3d RZ(double a){ Eigen::Matrix3d r; r<<std::cos(a),-std::sin(a),0,std::sin(a),std::cos(a),0,0,0,1; return r; }
Eigen::Matrix3d sym6(const double*p){ Eigen::Matrix3d I; I<<p[0],p[1],p[2],p[1],p[3],p[4],p[2],p[4],p[5]; return I; }
// links of the source file, moved to the Denavit-Hartenberg frames of the table documented in the converter
// (the source frames follow the modified convention: frame i is left of the (a_i, alpha_i) step)
bool expected(const std::string&text,std::vector<Lk>&out){
  static const double h=std::acos(-1.0)/2; static const double A[7][3]={{0,-h,0},{0,h,0},{0.0825,h,0},{-0.0825,-h,0},{0,h,0},{0.088,h,0},{0,0,0.107}}; // a, alpha, flange offset
  try{ YAML::Node y=YAML::Load(text); if(!y.IsMap()) return false; int i=-1; std::vector<Lk> all; for(auto n:y){ if(i>=7) break; /* the hand is not used */ auto v=n.second; Lk l; l.name=n.first.as<std::string>(); l.m=v["mass"].as<double>(); double p[6]; static const char*k[6]={"xx","xy","xz","yy","yz","zz"}; for(int q=0;q<6;q++) p[q]=v["inertia"][k[q]].as<double>(); auto o=v["origin"]; double x[3],r[3]; { std::istringstream s(o["xyz"].as<std::string>()); if(!(s>>x[0]>>x[1]>>x[2])) return false; } { std::istringstream s(o["rpy"].as<std::string>()); if(!(s>>r[0]>>r[1]>>r[2])) return false; }
      Eigen::Matrix3d R=RZ(r[2])*RY(r[1])*RX(r[0]); l.c=Eigen::Vector3d(x[0],x[1],x[2]); l.I=R*sym6(p)*R.transpose(); i++; if(i>=1&&i<=7){ const double*t=A[i-1]; Eigen::Matrix3d T=RX(-t[1]); l.c=T*(l.c-Eigen::Vector3d(t[0],0,t[2])); l.I=T*l.I*T.transpose(); out.push_back(l); } }
    return i>=7; } catch(std::exception&){ return false; } }
std::string f17(double v){ char b[64]; snprintf(b,64,"%.17g",v); return b; }
std::string makeSource(uint64_t seed){ Rng r(seed); if(r.chance(0.15)){ std::string t=readFile("/repo/src/genYAML/yaml/inertial.yaml"); if(!t.empty()) return t; } std::ostringstream o; int style=r.below(4); if(style==1) for(int i=0;i<200;i++) o<<"# padding so that the file takes several reads .............................................\n"; bool hand=r.chance(0.6); int n=hand?9:8; bool originLast=r.chance(0.3); bool names=r.chance(0.3);
  for(int i=0;i<n;i++){ double d[10]; physicalInertia(r,d); o<<(i<8?(names?"body_"+std::string(1,'a'+i):"link"+std::to_string(i)):"hand")<<":\n"; double rpy[3]={0,0,0}; int rp=r.below(3); if(rp==1) for(auto&x:rpy) x=r.uni(-3,3); if(rp==2) rpy[r.below(3)]=angle(r); for(int k=0;k<3;k++) if(r.chance(0.2)) d[1+k]=0; if(r.chance(0.2)) d[1+r.below(9)]=tiny(r,-9,-3); if(r.chance(0.15)){ double sc=std::pow(10.,r.uni(-7,3)); d[0]*=sc; for(int k=4;k<10;k++) d[k]*=sc; } if(r.chance(0.15)) d[4+1]=d[4+2]=d[4+4]=0;
    auto org=[&]{ o<<"  origin:\n    xyz: "<<f17(d[1])<<" "<<f17(d[2])<<" "<<f17(d[3])<<"\n    rpy: "<<f17(rpy[0])<<" "<<f17(rpy[1])<<" "<<f17(rpy[2])<<"\n"; }; if(!originLast) org(); o<<"  mass: "<<f17(d[0])<<"\n  inertia:\n"; static const char*k[6]={"xx","xy","xz","yy","yz","zz"}; static const int ord[6]={0,3,5,1,2,4}; for(int q=0;q<6;q++) o<<"    "<<k[ord[q]]<<": "<<f17(d[4+ord[q]])<<"\n"; if(originLast) org(); if(style==2) o<<"\n"; }
  return o.str(); }
const char*const OUT[7]={"inertial_DH.yaml","inertial_DH_DYN.yaml","inertial_DH_REG.yaml","inertial_DH_REG_p2.yaml","inertial_DH_REG_p5.yaml","inertial_DH_REG_p10.yaml","inertial_DH_REG_p20.yaml"}; const int PCT[7]={0,0,0,2,5,10,20};
typedef std::map<std::string,std::string> Files; typedef std::vector<std::pair<std::string,std::array<double,10>>> Rows;
bool rows(const std::string&text,bool reg,Rows&out,std::string&why){ static const char*D[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"},*G[10]={"mass","m_CoM_x","m_CoM_y","m_CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"};
  try{ for(auto&doc:YAML::LoadAll(text)){ if(!doc.IsMap()){ if(doc.IsNull()) continue; why="it is not a map"; return false; } for(auto n:doc){ std::array<double,10> a; for(int k=0;k<10;k++) a[k]=n.second[(reg?G:D)[k]].as<double>(); out.push_back({n.first.as<std::string>(),a}); } } } catch(std::exception&e){ why=e.what(); return false; } return true; }
}
struct YamlWorld: World {
  Plan generate(uint64_t seed,int idx)override{ Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr("C15")); Plan p; p.world="C15"; p.knob["src"]=r.next()>>2; int n=r.pick(std::vector<int>{1,2,3}); bool gi=r.chance(0.35); p.knob["arm"]=idx;
    for(int i=0;i<n;i++){ Op o; o.k=gi?"gi":"conv"; o.a=r.chance(0.75)?0:r.range(1,4); double u=r.uni(); o.b=u<0.3?0:1+r.below(13); o.c=r.next()>>34; o.s=r.next()>>1; p.ops.push_back(o); }
    return p; }
  // faults of an operation, given what an undisturbed run does
  struct Fault { std::string src; bool cut=false,dmg=false; std::string how; bool nosrc=false,nodir=false,io=false; };
  static void setFault(CliJob&j,const Op&o,const DiskShared*ref,const Files&good,const std::string&src,Fault&f){ f.src=src; Rng r(o.s^0x55); auto nth=[&](int cls){ for(int k=0;k<DO_NCLS;k++){ int cl=(cls+k)%DO_NCLS; if(ref->byCls[cl]){ j.cfg.failCls=cl; j.cfg.failNth=o.c%ref->byCls[cl]; return; } } };
    auto torn=[&]{ std::vector<std::string> k; for(auto&x:good) if(!x.second.empty()) k.push_back(x.first); if(k.empty()) return; auto&n=r.pick(k); const std::string&t=good.at(n); std::vector<size_t> nl; for(size_t i=0;i+1<t.size();i++) if(t[i]=='\n') nl.push_back(i+1); j.cfg.quotaPath="/"+n; j.cfg.quota=r.chance(0.5)&&nl.size()?r.pick(nl):r.below(t.size()); };
    switch(o.b){ case 0: break; case 1: nth(r.below(DO_NCLS)); j.cfg.failSel=o.c%16; j.cfg.sticky=o.c&64; break; case 2: nth(DO_OPENW); j.cfg.failSel=o.c%16; break; case 3: torn(); break; case 4: j.cfg.budget=o.c%(ref->bytesW+1); break; case 5: j.cfg.pShort=0.4; j.cfg.pEintr=0.2; f.io=true; break; case 6: { j.cfg.crashAt=o.c%std::max(1L,ref->ops); j.cfg.crashPart=r.next()>>40; break; } case 7: f.nodir=true; break; case 8: f.nosrc=true; break; case 9: { f.cut=true; size_t n=src.size(); f.src=src.substr(0,o.c%3?n-1-(o.c/3)%std::min<size_t>(n-1,400):o.c%n); break; } case 11: case 12: case 13: { f.dmg=true; int n=r.chance(0.7)?1:2; for(int i=0;i<n;i++){ int k=r.below(NDMG); f.src=damage(f.src,k,r.next()>>1,makeSource(r.next()>>2)); f.how+=(i?", ":"")+std::string(DMG[k]); } break; }
      case 10: j.cfg.pShort=0.7; j.cfg.failCls=DO_READ; j.cfg.failNth=o.c%5; f.io=true; break; }
    j.cfg.seed=o.s; }
  static void account(Ctx&c,const DiskShared*s){ for(int k=0;k<FK_NK;k++) if(s->kinds[k]) c.hit(std::string("fault.")+faultKind[k],s->kinds[k]); c.hit("disk_ops",s->ops); c.cnt["sim_us"]+=s->ops; c.dig.u(s->hash); c.dig.u(s->ops); }
  // values against the source
  static void checkUnperturbed(Ctx&c,const std::string&name,const std::string&text,const std::vector<Lk>&ex,bool reg){ Rows R; std::string why; if(!rows(text,reg,R,why)) fail("content:"+name,name+" cannot be read: "+why); if(R.size()!=ex.size()) fail("content:"+name,name+" has "+std::to_string(R.size())+" links"); for(size_t i=0;i<ex.size();i++){ c.hit("assertions"); const Lk&l=ex[i]; if(R[i].first!=l.name) fail("content:"+name,name+": link "+std::to_string(i+1)+" is called "+R[i].first+" instead of "+l.name); Eigen::Matrix3d I=l.I; Eigen::Vector3d v=l.c; if(reg){ Eigen::Matrix3d H; H<<0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0; I+=l.m*H*H.transpose(); v*=l.m; } double w[10]={l.m,v[0],v[1],v[2],I(0,0),I(0,1),I(0,2),I(1,1),I(1,2),I(2,2)}; double sc=std::fabs(l.m)*(1+l.c.squaredNorm())+I.cwiseAbs().maxCoeff(); static const char*nm[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}; for(int k=0;k<10;k++) if(!(std::fabs(R[i].second[k]-w[k])<=1e-12*(sc+std::fabs(w[k])))) fail("content:"+name,name+": "+l.name+" "+nm[k]+" is "+f17(R[i].second[k])+", expected "+f17(w[k])); } }
  static void checkPerturbed(Ctx&c,const std::string&name,const std::string&text,const std::vector<Lk>&ex,int pct,bool independent,std::vector<double>&allF){ Rows R; std::string why; if(!rows(text,true,R,why)) fail("content:"+name,name+" cannot be read: "+why); if(R.size()!=ex.size()) fail("content:"+name,name+" has "+std::to_string(R.size())+" links"); double s1=0,s2=0; int n=0; std::vector<double> F;
    for(size_t i=0;i<ex.size();i++){ const Lk&l=ex[i]; c.hit("assertions"); if(R[i].first!=l.name) fail("content:"+name,name+": wrong link name "+R[i].first); auto&a=R[i].second; double m=a[0]; if(!(m>0)&&l.m!=0&&std::fabs(m)<1e-9) continue; Eigen::Vector3d v(a[1]/m,a[2]/m,a[3]/m); Eigen::Matrix3d H; H<<0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0; Eigen::Matrix3d P=m*H*H.transpose(); double got[10]={m,v[0],v[1],v[2],a[4]-P(0,0),a[5]-P(0,1),a[6]-P(0,2),a[7]-P(1,1),a[8]-P(1,2),a[9]-P(2,2)}; double w[10]={l.m,l.c[0],l.c[1],l.c[2],l.I(0,0),l.I(0,1),l.I(0,2),l.I(1,1),l.I(1,2),l.I(2,2)}; double iS=P.cwiseAbs().maxCoeff()+l.I.cwiseAbs().maxCoeff(),cS=l.c.cwiseAbs().maxCoeff()+0.1; static const char*nm[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"};
      for(int k=0;k<10;k++){ double sc=k==0?std::fabs(l.m):k<4?cS:iS; c.hit("assertions"); if(std::fabs(w[k])<=1e-13*sc){ if(!(std::fabs(got[k])<=1e-11*sc)) fail("perturb:zero",name+": "+l.name+" "+nm[k]+" is zero unperturbed but "+f17(got[k])+" perturbed"); continue; } double f=got[k]/w[k]-1,err=1e-13*sc/std::fabs(w[k]); if(!(std::fabs(f)<=8*pct/100.0+err)) fail("perturb:bound",name+": "+l.name+" "+nm[k]+" is scaled by "+f17(1+f)); if(err<1e-3*pct/100){ F.push_back(f); s1+=f; s2+=f*f; n++; } } }
    double sig=pct/100.0; if(independent&&n>=20){ c.hit("assertions",3); double mean=s1/n,sd=std::sqrt(std::max(0.0,s2/n-mean*mean)); if(std::fabs(mean)>6.5*sig/std::sqrt(n)) fail("perturb:level",name+": mean factor is off by "+f17(mean)); if(!(sd>sig*(1-5/std::sqrt(2.0*n)*1.4)&&sd<sig*(1+5/std::sqrt(2.0*n)*1.4))) fail("perturb:level",name+": standard deviation of the factors is "+f17(sd)+", labelled "+f17(sig)); std::vector<double> z=F; for(auto&x:z) x/=sig; std::sort(z.begin(),z.end()); for(size_t i=1;i<z.size();i++) if(z[i]-z[i-1]<1e-10*(1+1/sig*1e-3)) fail("perturb:independent",name+": two parameters are scaled by the same factor"); }
    for(auto x:F) allF.push_back(sig>0?x/sig:0); }
  void run(const Plan&p,Ctx&c)override{ alarm(170); std::string root=c.dir+"/w",wd=root+"/genYAML",gd=root+"/generatedFiles"; fs::create_directories(wd+"/yaml"); fs::create_directories(gd); std::string src=makeSource(p.kn("src")); bool nt=false; Arm arm; { Rng r(mix64(g_seed)^hashStr("giarm")^mix64(p.kn("arm"))); ArmOpt o; o.njMin=1; o.njMax=7; arm=genArm(r.next(),o,"gi"); for(auto&v:arm.val[G_DYN]) if(r.chance(0.2)) v=r.chance(0.5)?0:tiny(r,-9,-3); }
    std::string armTxt=armYaml(arm);
    for(size_t oi=0;oi<p.ops.size();oi++){ const Op&o=p.ops[oi]; bool gi=o.k=="gi"; std::string what="step "+std::to_string(oi+1)+" ("+o.k+")"; c.ev(o.str()); std::string out=c.dir+"/out"; std::string sfile=gi?wd+"/conf.yaml":wd+"/yaml/inertial.yaml"; const std::string&S=gi?armTxt:src;
      struct GiArg{ int nj; std::string conf,dyn,reg; } ga{arm.nj,sfile,gd+"/gi_DYN.yaml",gd+"/gi_REG.yaml"}; auto giBody=[](void*q)->int{ GiArg&a=*(GiArg*)q; int r=thunder_ns::genInertial_files("gi",a.nj,a.conf,a.dyn,a.reg); std::cout<<"returned "<<r<<std::endl; return r; };
      auto launch=[&](CliJob&j,Shm&s){ j.sh=s.s; j.cwd=wd; j.disk=true; j.cfg.roots={root}; int pid=gi?bodyStart(j,out,giBody,&ga):yamlStart(j,out,o.s,o.a); return cliWait(pid,out); };
      std::vector<std::string> names; if(gi) names={"gi_DYN.yaml","gi_REG.yaml"}; else names.assign(OUT,OUT+7);
      auto success=[&](const CliRun&r,const std::string&n){ if(gi) return r.out.find("returned 1")!=std::string::npos; return r.out.find(" path: ../generatedFiles/"+n+"\n")!=std::string::npos; };
      auto clean=[&]{ for(auto&n:names) fs::remove(gd+"/"+n); };
      // undisturbed execution with the same random numbers
      Files old; for(auto&n:names) if(fs::exists(gd+"/"+n)) old[n]=readFile(gd+"/"+n); clean(); writeFile(sfile,S); CliJob j0; Shm s0; CliRun r0=launch(j0,s0); Files good; for(auto&n:names){ good[n]=readFile(gd+"/"+n); c.dig.s(good[n]); } account(c,s0.s); c.hit("conversions"); if(s0.s->ops<4) throw Infra{"the simulated disk does not see the converter"};
      for(auto&n:names) if(!success(r0,n)) fail("refused",what+": an undisturbed conversion did not announce "+n+" ("+r0.how()+"): "+r0.out.substr(0,300));
      if(gi) checkGi(c,arm,good); else { std::vector<Lk> ex; if(!expected(S,ex)) throw Infra{"bad source"}; bool ind=o.a==0; std::vector<double> F; for(int k=0;k<7;k++){ if(PCT[k]==0) checkUnperturbed(c,OUT[k],good[OUT[k]],ex,k==2); else { std::vector<double> f; checkPerturbed(c,OUT[k],good[OUT[k]],ex,PCT[k],ind,f); if(ind) for(double x:f){ for(double z:F) if(std::fabs(x-z)<1e-9) fail("perturb:independent",std::string(OUT[k])+": a factor of another file is used again"); } F.insert(F.end(),f.begin(),f.end()); } } nt=true; c.hit("random_source_mode"+std::to_string(o.a)); }
      if(o.b==0){ nt=true; continue; }
      // the same with a fault, over what an earlier conversion may have left
      Fault f; CliJob j; setFault(j,o,s0.s,good,S,f); clean(); if(o.c&1) for(auto&k:old) writeFile(gd+"/"+k.first,k.second); if(o.c&2) for(auto&n:names) if(o.c>>3&1) writeFile(gd+"/"+n,"link1:\n  mass: 1\n"); writeFile(sfile,f.src); if(f.nosrc){ fs::remove(sfile); c.hit("fault.missing_source"); } if(f.nodir){ fs::rename(gd,root+"/moved"); c.hit("fault.missing_directory"); } if(f.cut) c.hit("fault.truncated_source"); if(f.dmg) c.hit("fault.damaged_source");
      Shm s; CliRun r=launch(j,s); account(c,s.s); c.hit("conversions"); if(f.nodir) fs::rename(root+"/moved",gd); c.ev(" -> "+r.how()); if(r.signaled&&r.sig==SIGXCPU) fail("hang",what+": does not terminate"); if(!f.nosrc&&readFile(sfile)!=f.src) fail("inputs",what+": the source file was modified"); if(s.s->injected||f.cut||f.dmg||f.nosrc||f.nodir) nt=true;
      Files now; for(auto&n:names) now[n]=fs::exists(gd+"/"+n)?readFile(gd+"/"+n):"<no file>";
      if(f.dmg){ std::string wh=what+": source damaged ("+f.how+")"; c.hit("assertions"); if(r.signaled&&r.sig!=SIGABRT) fail("crash",wh+": the converter died ("+r.how()+")");
        if(gi){ if(success(r,names[0])){ c.hit("announced"); Arm a2; std::string why; Verdict v=readCfg(f.src,a2,why); if(v==INVALID&&!giComplete(f.src,arm)) fail("announced:damaged",wh+": success was reported"); if(v==VALID&&a2.nj==arm.nj&&finite(a2)) try{ checkGi(c,a2,now); } catch(Violation&x){ fail(x.cls,wh+": "+x.detail); } } }
        else { std::vector<Lk> ex; bool ok=expected(f.src,ex),fin=true; for(auto&l:ex) fin=fin&&std::isfinite(l.m)&&l.c.allFinite()&&l.I.allFinite()&&std::fabs(l.m)<1e12&&l.c.cwiseAbs().maxCoeff()<1e12&&l.I.cwiseAbs().maxCoeff()<1e12; for(int k=0;k<7;k++){ c.hit("assertions"); if(!success(r,OUT[k])) continue; c.hit("announced"); if(!ok) fail("announced:damaged",wh+": "+OUT[k]+" was announced"); if(PCT[k]==0&&fin) try{ checkUnperturbed(c,OUT[k],now[OUT[k]],ex,k==2); } catch(Violation&x){ fail(x.cls,wh+": "+x.detail); } } } }
      else if(f.cut){ if(gi){ bool all=true; std::string why; bool same=false; try{ same=YAML::Dump(YAML::Load(f.src))==YAML::Dump(YAML::Load(S)); }catch(std::exception&){ } for(auto&n:names) c.hit("assertions"); if(same){ if(success(r,names[0])) for(auto&n:names) if(now[n]!=good[n]) fail("announced",what+": success was reported but "+n+" is not the complete file"); } else if(success(r,names[0])&&!giComplete(f.src,arm)) fail("announced:cut",what+": success was reported for a configuration cut after "+std::to_string(f.src.size())+" bytes"); (void)all; }
        else { std::vector<Lk> ex; bool ok=expected(f.src,ex); for(int k=0;k<7;k++){ c.hit("assertions"); if(!success(r,OUT[k])) continue; if(!ok) fail("announced:cut",what+": "+OUT[k]+" was announced for a source cut after "+std::to_string(f.src.size())+" of "+std::to_string(S.size())+" bytes"); if(PCT[k]==0) checkUnperturbed(c,OUT[k],now[OUT[k]],ex,k==2); } } }
      else { bool quietRun=s.s->injected==s.s->kinds[FK_SHORT]+s.s->kinds[FK_EINTR]&&!f.nosrc&&!f.nodir; for(auto&n:names){ c.hit("assertions"); if(success(r,n)){ c.hit("announced"); if(now[n]!=good[n]) fail("announced:"+n,what+": "+n+" was announced ("+r.how()+") but it is not the file an undisturbed conversion writes: size "+std::to_string(now[n].size())+" instead of "+std::to_string(good[n].size())); } else if(quietRun) fail("refused",what+": no fault but "+n+" was not announced"); } } }
    c.cnt["nontrivial"]=nt; }
  static bool finite(const Arm&a){ for(double v:a.val[G_DYN]) if(!(std::fabs(v)<1e12)) return false; return true; }
  static bool giComplete(const std::string&t,const Arm&a){ try{ YAML::Node y=YAML::Load(t); int n=0; for(auto l:y["dynamics"]){ if(n==a.nj) break; for(auto k:{"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}) l.second["inertial"][k].as<double>(); if(a.Dlo) l.second["friction"]["Dl"].as<std::vector<double>>(); n++; } return n==a.nj; } catch(std::exception&){ return false; } }
  static void checkGi(Ctx&c,const Arm&a,const Files&f){ for(int reg=0;reg<2;reg++){ std::string n=reg?"gi_REG.yaml":"gi_DYN.yaml"; static const char*D[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"},*G[10]={"mass","m_CoM_x","m_CoM_y","m_CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}; try{ YAML::Node y=YAML::Load(f.at(n)); int i=0; for(auto l:y["dynamics"]){ if(i>=a.nj) fail("content:"+n,n+" has too many links"); double w[10]; if(reg) dyn2reg(&a.val[G_DYN][10*i],w); else for(int k=0;k<10;k++) w[k]=a.val[G_DYN][10*i+k]; const double*v=&a.val[G_DYN][10*i]; double sc=std::fabs(v[0])*(v[1]*v[1]+v[2]*v[2]+v[3]*v[3]); for(int k=4;k<10;k++) sc=std::max(sc,std::fabs(v[k])); for(int k=0;k<10;k++){ c.hit("assertions"); double x=l.second["inertial"][(reg?G:D)[k]].as<double>(); if(!(std::fabs(x-w[k])<=1e-12*(reg?sc+std::fabs(w[k]):std::fabs(w[k])))) fail("content:"+n,n+": link "+std::to_string(i+1)+" "+D[k]+" is "+f17(x)+", expected "+f17(w[k])); } if(a.Dlo){ auto d=l.second["friction"]["Dl"].as<std::vector<double>>(); if((int)d.size()<a.Dlo) fail("content:"+n,n+": wrong number of friction coefficients"); for(int k=0;k<a.Dlo;k++) if(d[k]!=a.val[G_DL][i*a.Dlo+k]) fail("content:"+n,n+": link "+std::to_string(i+1)+" friction is "+f17(d[k])); } i++; } if(i!=a.nj) fail("content:"+n,n+" has too few links"); } catch(YAML::Exception&e){ fail("content:"+n,n+" cannot be read: "+e.what()); } } }
};
World* makeYamlWorld(const std::string&){ return new YamlWorld(); }
}
