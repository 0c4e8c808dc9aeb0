// Strict reference reader of robot configurations, independent of the code under test: what arm does this text describe?
//  VALID: complete and unambiguous, `a` is the arm.  INVALID: something an arm needs is missing or contradictory.  GRAY: neither.
#pragma once
#include "armgen.h"
#include <yaml-cpp/yaml.h>
#include <set>
namespace sim {
enum Verdict { VALID, GRAY, INVALID };
struct CfgReader { Arm&a; std::string why; bool gray=false; struct Inv{ std::string w; };
  explicit CfgReader(Arm&x):a(x){}
  void odd(const std::string&w){ if(!gray) why=w; gray=true; }
  void dups(const YAML::Node&n,int depth=0){ if(depth>40) throw Inv{"too deep"}; if(n.IsMap()){ std::set<std::string> s; for(auto k:n){ if(!k.first.IsScalar()) odd("odd key"); else if(!s.insert(k.first.Scalar()).second) odd("duplicate key "+k.first.Scalar()); dups(k.second,depth+1); } } else if(n.IsSequence()) for(auto x:n) dups(x,depth+1); }
  static YAML::Node key(const YAML::Node&m,const std::string&k){ if(!m.IsMap()) throw Inv{"no "+k}; for(auto e:m) if(e.first.IsScalar()&&e.first.Scalar()==k) return e.second; return YAML::Node(YAML::NodeType::Undefined); }
  YAML::Node must(const YAML::Node&m,const std::string&k){ YAML::Node n=key(m,k); if(!n.IsDefined()) throw Inv{"no "+k}; return n; }
  YAML::Node map(const YAML::Node&m,const std::string&k){ YAML::Node n=must(m,k); if(!n.IsMap()) throw Inv{k+" is no map"}; return n; }
  double num(const YAML::Node&n,const std::string&w){ double d; if(!n.IsDefined()||!n.IsScalar()) throw Inv{w+" is no number"}; try{ d=n.as<double>(); } catch(std::exception&){ throw Inv{w+" is no number"}; } if(!std::isfinite(d)) odd(w+" is not finite"); return d; }
  int integer(const YAML::Node&n,const std::string&w){ if(n.IsDefined()&&n.IsScalar()) try{ return n.as<int>(); } catch(std::exception&){} double d=num(n,w); { odd(w+" is no integer"); return std::fabs(d)<1e6?(int)d:0; } }
  std::vector<double> list(const YAML::Node&n,size_t k,const std::string&w,bool more=false){ if(!n.IsDefined()||!n.IsSequence()) throw Inv{w+" is no list"}; std::vector<double> v; for(auto x:n) v.push_back(num(x,w)); if(more?v.size()<k:v.size()!=k) throw Inv{w+" has "+std::to_string(v.size())+" elements"}; v.resize(k); return v; }
  // adjustable-parameter flags; lists of links and joints may be shorter (missing: fixed) or longer
  bool flags(const YAML::Node&m,const std::string&k,size_t n,std::vector<int>&out,bool any,bool unused=false){ YAML::Node y=key(m,k); out.assign(n,0); if(!y.IsDefined()) return false; try{ if(!y.IsSequence()) throw Inv{k+" is no list"}; std::vector<int> v; for(auto x:y){ v.push_back(integer(x,k)); if(v.back()!=0&&v.back()!=1) odd(k+" is neither 0 nor 1"); } if(!any&&v.size()!=n) throw Inv{k+" has "+std::to_string(v.size())+" elements"}; v.resize(n,0); out=v; } catch(Inv&){ if(!unused) throw; odd(k+" is unused"); } return true; }
  static void app(std::vector<double>&x,const std::vector<double>&y){ x.insert(x.end(),y.begin(),y.end()); } static void appi(std::vector<int>&x,const std::vector<int>&y){ x.insert(x.end(),y.begin(),y.end()); }
  void read(const std::string&text){
    YAML::Node y; try{ y=YAML::Load(text); } catch(std::exception&e){ throw Inv{"no YAML"}; } if(!y.IsMap()) throw Inv{"no map"}; dups(y);
    a.nj=integer(must(y,"num_joints"),"num_joints"); YAML::Node t=must(y,"type_joints"); if(!t.IsSequence()) throw Inv{"type_joints is no list"}; a.types.clear(); for(auto x:t){ if(!x.IsScalar()) throw Inv{"type_joints"}; a.types.push_back(x.Scalar()); } if(a.nj<1||(int)a.types.size()!=a.nj) throw Inv{"num_joints and type_joints disagree"}; for(auto&s:a.types) if(s!="R"&&s!="P"&&s!="R_SEA"&&s!="P_SEA") throw Inv{"joint type "+s};
    int n=a.nj,e=a.nej(); for(auto&v:a.val) v.clear(); for(auto&v:a.symb) v.clear(); a.symbGiven={}; a.quirk=0;
    auto order=[&](const YAML::Node&x,const char*w){ int o=integer(x,w); if(o<0) throw Inv{std::string(w)+" is negative"}; return o; };
    YAML::Node d=key(y,"Dl_order"); a.Dlo=d.IsDefined()?order(d,"Dl_order"):0;
    a.elastic=false; a.Ko=a.Do=a.Dmo=0; YAML::Node em=key(y,"ELASTIC_MODEL"); if(em.IsDefined()){ try{ a.elastic=em.as<bool>(); } catch(std::exception&){ throw Inv{"ELASTIC_MODEL is no truth value"}; } } if(!a.elastic&&e) odd("elastic joints of a rigid arm"); if(a.elastic&&!e) odd("elastic arm without elastic joints");
    YAML::Node E; if(a.elastic){ E=map(y,"elastic"); a.Ko=order(must(E,"K_order"),"K_order"); a.Do=order(must(E,"D_order"),"D_order"); a.Dmo=order(must(E,"Dm_order"),"Dm_order"); }
    YAML::Node k=map(y,"kinematics"); a.val[G_DH]=list(must(k,"DH"),4*n,"DH"); a.symbGiven[G_DH]=flags(k,"symb",4*n,a.symb[G_DH],false);
    for(int g:{G_BASE,G_EE}){ const char*f=g==G_BASE?"Base_to_L0":"Ln_to_EE"; YAML::Node b=map(y,f); a.val[g]=list(must(b,"tr"),3,std::string(f)+" tr"); app(a.val[g],list(must(b,"ypr"),3,std::string(f)+" ypr")); a.symbGiven[g]=flags(b,"symb",6,a.symb[g],false); }
    YAML::Node gr=key(y,"gravity"); a.gravGiven=gr.IsDefined(); a.val[G_GRAV]={0,0,0}; a.symb[G_GRAV]={0,0,0}; if(a.gravGiven){ if(!gr.IsMap()) throw Inv{"gravity is no map"}; a.val[G_GRAV]=list(must(gr,"value"),3,"gravity"); a.symbGiven[G_GRAV]=flags(gr,"symb",3,a.symb[G_GRAV],false); }
    YAML::Node D=map(y,"dynamics"); int l=0; static const char*ik[10]={"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"};
    for(auto x:D){ if(l++==n) break; if(!x.first.IsScalar()) odd("link name"); YAML::Node in=map(x.second,"inertial"); for(auto q:ik) a.val[G_DYN].push_back(num(must(in,q),q)); std::vector<int> f; YAML::Node s=key(in,"symb"); if(s.IsDefined()&&s.IsSequence()&&s.size()>10) odd("more than 10 flags"); flags(in,"symb",10,f,true); appi(a.symb[G_DYN],f); a.symbGiven[G_DYN]=1;
      YAML::Node fr=key(x.second,"friction"); if(!fr.IsDefined()){ if(a.Dlo) odd("no friction"); app(a.val[G_DL],std::vector<double>(a.Dlo,0)); appi(a.symb[G_DL],std::vector<int>(a.Dlo,0)); continue; }
      try{ app(a.val[G_DL],list(must(fr,"Dl"),a.Dlo,"Dl",true)); } catch(Inv&){ if(a.Dlo) throw; odd("friction without order"); } if(fr.IsMap()){ flags(fr,"symb",a.Dlo,f,true,!a.Dlo); appi(a.symb[G_DL],f); a.symbGiven[G_DL]=1; } }
    if(l<n) throw Inv{"dynamics of "+std::to_string(l)+" links"};
    if(a.elastic){ if(e||key(E,"joints").IsDefined()){ YAML::Node J=must(E,"joints"); if(e&&!J.IsMap()) throw Inv{"joints is no map"}; if(!e&&!J.IsMap()) odd("joints"); int i=0; if(J.IsMap()) for(auto x:J){ if(i++==e) break; if(!x.second.IsMap()) throw Inv{"elastic joint is no map"}; if(!x.first.IsScalar()) odd("joint name");
        struct G{ int g; const char*k,*f; int o; } gs[3]={{G_K,"K","K_symb",a.Ko},{G_D,"D","D_symb",a.Do},{G_DM,"Dm","Dm_symb",a.Dmo}}; for(auto&q:gs){ if(q.o) app(a.val[q.g],list(must(x.second,q.k),q.o,q.k,true)); std::vector<int> f; flags(x.second,q.f,q.o,f,true,!q.o); appi(a.symb[q.g],f); a.symbGiven[q.g]=1; }
        a.val[G_MM].push_back(num(must(x.second,"Mm"),"Mm")); YAML::Node s=key(x.second,"Mm_symb"); int f=s.IsDefined()?integer(s,"Mm_symb"):0; if(f!=0&&f!=1) odd("Mm_symb is neither 0 nor 1"); a.symb[G_MM].push_back(f); a.symbGiven[G_MM]=1; }
      if(e&&i<e) throw Inv{"too few elastic joints"}; } } }
};
inline Verdict readCfg(const std::string&text,Arm&a,std::string&why){ CfgReader r(a); try{ r.read(text); } catch(CfgReader::Inv&i){ why=i.w; return INVALID; } why=r.why; return r.gray?GRAY:VALID; }
}
