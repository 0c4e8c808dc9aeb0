// VRobot over a generated class; included by the per-arm adapter that check.py writes (defines ARM and the query table).
#include "vrobot.h"
#include <functional>
// Everything here is local to its translation unit: the adapters of several arms are linked into one object.
namespace { using namespace sim; typedef VRobot::Mat Mat; typedef VRobot::Vec Vec;
struct QE { const char*n; Mat(*f)(ARM&); };
extern const std::vector<QE> QT;
struct GenArm: VRobot { ARM r;
  GenArm(){} GenArm(const GenArm&o):r(o.r){}
  VRobot* clone()override{ return new GenArm(*this); }
  VRobot* fresh()override{ return new GenArm(); }
  bool assign(VRobot&)override{ return false; } bool resync(bool)override{ return false; }
  bool generated()override{ return true; }
  bool setState(const std::string&n,const Vec&v)override{
#define S(x) if(n==#x){ r.set_##x(v); return true; }
    S(q)S(dq)S(ddq)S(d3q)S(d4q)S(dqr)S(ddqr)S(x)S(dx)S(ddx)S(ddxr)S(w)
#undef S
    return false; }
  bool setArguments(const Vec&a,const Vec&b,const Vec&c,const Vec&d)override{ r.setArguments(a,b,c,d); return true; }
  bool setPar(const std::string&g,const Vec&v,bool sync)override{
    if(g=="par_DYN"){ r.set_par_DYN(v,sync); return true; } if(g=="par_REG"){ r.set_par_REG(v,sync); return true; }
#define S(x) if(g=="par_"#x){ r.set_par_##x(v); return true; }
    S(K)S(D)S(Dm)S(Mm)S(Dl)S(DHtable)S(gravity)S(world2L0)S(Ln2EE)
#undef S
    return false; }
  bool setDH(const Mat&m)override{ r.set_par_DHtable(m); return true; }
  Vec getPar(const std::string&g)override{
#define S(x) if(g=="par_"#x) return r.get_par_##x();
    S(DYN)S(REG)S(K)S(D)S(Dm)S(Mm)S(Dl)S(DHtable)S(gravity)S(world2L0)S(Ln2EE)
#undef S
    return Vec(); }
  std::vector<std::string> queries()override{ std::vector<std::string> q; for(auto&e:QT) q.push_back(e.n); return q; }
  bool has(const std::string&n)override{ for(auto&e:QT) if(n==e.n) return true; return false; }
  Mat get(const std::string&n)override{ for(auto&e:QT) if(n==e.n) return e.f(r); throw std::runtime_error("no query "+n); }
  int load(const std::string&w,const std::string&p,bool sync,const std::vector<std::string>&)override{ if(w=="conf"){ r.load_conf(p,sync); return -1; } if(w=="par_REG"){ r.load_par_REG(p,sync); return -1; } return -2; }
  int save(const std::string&w,const std::string&p,const std::vector<std::string>&)override{ if(w=="par_REG"){ r.save_par_REG(p); return -1; } if(w=="par_DYN"){ r.save_par_DYN(p); return -1; } if(w=="par") return r.save_par(p); return -2; }
  std::map<std::string,int> info()override{ std::map<std::string,int> m; for(int i=0;i<r.n_joints;i++) m["elastic"+std::to_string(i)]=r.isElasticJoint[i]; m["numParDYN"]=r.get_numParDYN(); m["numParREG"]=r.get_numParREG(); m["numJoints"]=r.get_numJoints(); for(auto&k:std::map<std::string,int>{{"n_joints",r.n_joints},{"ELASTIC",(int)r.ELASTIC},{"numElasticJoints",r.numElasticJoints},{"K_order",r.K_order},{"D_order",r.D_order},{"Dl_order",r.Dl_order},{"Dm_order",r.Dm_order}}) m.insert(k); return m; }
};
}
extern "C" sim::VRobot* VR_NEW(){ return new GenArm(); }
