// PyApi over the registered bindings of a generated arm (PY_MODULE, PY_CLASS, PY_NEW) ...
#include "pyapi.h"
#ifdef PY_NEW
namespace { using namespace sim; namespace py=pybind11;
struct Bound: PyApi { py::klass*k; std::shared_ptr<void> self; Bound(py::klass*k_):k(k_),self(k_->make()){}
  PV call(const std::string&n,const PVs&pos,const PKw&kw)override{ return py::call(*k,self.get(),n,pos,kw); }
  PyApi*fresh()override{ return new Bound(k); }
  int overloads(const std::string&n)override{ auto i=k->methods.find(n); return i==k->methods.end()?0:i->second.size(); }
  std::vector<std::string> names()override{ std::vector<std::string> v; for(auto&m:k->methods) v.push_back(m.first); return v; } }; }
// null with an explanation if the module cannot be imported
extern "C" sim::PyApi* PY_NEW(std::string&why){ auto&g=py::registry::get(); if(g.count[PY_MODULE]!=1){ why="there is no module " PY_MODULE; return nullptr; } py::module_*m=g.import(PY_MODULE); auto c=m->classes.find(PY_CLASS); if(c==m->classes.end()){ why="module " PY_MODULE " has no class " PY_CLASS; return nullptr; } if(!c->second.make){ why=PY_CLASS " has no constructor"; return nullptr; } return new Bound(&c->second); }
#endif
#ifdef DIRECT_NEW
// ... and over the class itself
namespace { using namespace sim;
struct Direct: PyApi { ARM r;
  static const std::vector<std::string>* sig(const std::string&n){ static const std::map<std::string,std::vector<std::string>> s=[]{ std::map<std::string,std::vector<std::string>> s; s["setArguments"]={"q","dq","dqr","ddqr"}; for(auto x:{"q","dq","ddq","d3q","d4q","dqr","ddqr","x","dx","ddx","ddxr","w"}) s[std::string("set_")+x]={x}; for(auto x:{"K","D","Dm","Mm","Dl","DHtable","gravity","world2L0","Ln2EE"}) s[std::string("set_par_")+x]={"par"}; s["set_par_REG"]={"par","update_DYN"}; s["set_par_DYN"]={"par","update_REG"}; s["load_par_REG"]={"file_path","update_DYN"}; s["load_conf"]={"file_path","update_REG"}; for(auto x:{"save_par_REG","save_par_DYN","save_par"}) s[x]={"file_path"}; return s; }(); auto i=s.find(n); return i==s.end()?nullptr:&i->second; }
  static Vec vec(const PV&v){ Mat m=v.m; if(m.cols()!=1) m=m.transpose().eval(); return m; }
  PV call(const std::string&n,const PVs&pos,const PKw&kw)override{
    PVs a(pos); if(auto p=sig(n)) for(size_t i=pos.size();i<p->size();i++){ auto k=kw.find((*p)[i]); if(k!=kw.end()) a.push_back(k->second); }
#define S(x) if(n=="set_" #x){ r.set_##x(vec(a[0])); return PV(); }
    S(q)S(dq)S(ddq)S(d3q)S(d4q)S(dqr)S(ddqr)S(x)S(dx)S(ddx)S(ddxr)S(w)S(par_K)S(par_D)S(par_Dm)S(par_Mm)S(par_Dl)S(par_gravity)S(par_world2L0)S(par_Ln2EE)
#undef S
    if(n=="set_par_DHtable"){ r.set_par_DHtable(a[0].m); return PV(); } if(n=="setArguments"){ r.setArguments(vec(a[0]),vec(a[1]),vec(a[2]),vec(a[3])); return PV(); }
#define S(x) if(n=="set_par_" #x){ if(a.size()>1) r.set_par_##x(vec(a[0]),a[1].i); else r.set_par_##x(vec(a[0])); return PV(); }
    S(REG)S(DYN)
#undef S
#define S(x) if(n=="get_par_" #x) return PV(r.get_par_##x());
    S(DYN)S(REG)S(K)S(D)S(Dm)S(Mm)S(Dl)S(DHtable)S(gravity)S(world2L0)S(Ln2EE)
#undef S
    if(n=="load_par_REG"){ if(a.size()>1) return PV(r.load_par_REG(a[0].s,a[1].i)); return PV(r.load_par_REG(a[0].s)); } if(n=="load_conf"){ if(a.size()>1) r.load_conf(a[0].s,a[1].i); else r.load_conf(a[0].s); return PV(); }
    if(n=="save_par_REG"){ r.save_par_REG(a[0].s); return PV(); } if(n=="save_par_DYN"){ r.save_par_DYN(a[0].s); return PV(); } if(n=="save_par") return PV(r.save_par(a[0].s));
    if(n=="get_numJoints") return PV(r.get_numJoints()); if(n=="get_numParDYN") return PV(r.get_numParDYN()); if(n=="get_numParREG") return PV(r.get_numParREG()); if(n=="resizeVariables"){ r.resizeVariables(); return PV(); }
    if(n.rfind("get_",0)==0) for(auto&e:QT) if(n.substr(4)==e.n) return PV(e.f(r));
    throw std::logic_error("no "+n); }
  PyApi*fresh()override{ return new Direct(); } int overloads(const std::string&)override{ return 1; }
  std::vector<std::string> names()override{ std::vector<std::string> v; for(auto&e:QT) v.push_back(std::string("get_")+e.n); return v; } }; }
extern "C" sim::PyApi* DIRECT_NEW(){ return new Direct(); }
#endif
