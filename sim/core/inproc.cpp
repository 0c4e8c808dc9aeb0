// VRobot over the library's own in-process Robot (real code, no generation step)
#include "inproc.h"
#include "robot.h"
#include "utils.h"
#include <sstream>
#include <iostream>
namespace sim {
using thunder_ns::Robot;
Quiet::Quiet(){ o=std::cout.rdbuf(out.rdbuf()); e=std::cerr.rdbuf(err.rdbuf()); }
Quiet::~Quiet(){ std::cout.rdbuf(o); std::cerr.rdbuf(e); }
std::string Quiet::text(){ return out.str()+err.str(); }
struct InProc: VRobot { std::shared_ptr<const Robot> proto; Robot r;
  InProc(std::shared_ptr<const Robot> p):proto(p),r(*p){}
  InProc(const InProc&o):proto(o.proto),r(o.r){}
  VRobot* clone()override{ return new InProc(*this); }
  VRobot* fresh()override{ return new InProc(proto); }
  bool assign(VRobot&o)override{ auto x=dynamic_cast<InProc*>(&o); if(!x) return false; proto=x->proto; r=x->r; return true; }
  bool resync(bool toReg)override{ if(toReg) r.update_inertial_REG(); else r.update_inertial_DYN(); return true; }
  bool generated()override{ return false; }
  bool setState(const std::string&n,const Vec&v)override{
    if(n=="q") status=r.set_q(v); else if(n=="dq") status=r.set_dq(v); else if(n=="dqr") status=r.set_dqr(v); else if(n=="ddqr") status=r.set_ddqr(v); else if(n=="x") status=r.set_x(v); else if(n=="dx") status=r.set_dx(v); else if(n=="ddx") status=r.set_ddx(v); else if(n=="ddxr") status=r.set_ddxr(v); else status=r.set_arg(n,v); return true; }
  bool setArguments(const Vec&,const Vec&,const Vec&,const Vec&)override{ return false; }
  bool setPar(const std::string&g,const Vec&v,bool)override{ status=g=="par_DYN"?r.set_par_DYN(v):g=="par_REG"?r.set_par_REG(v):r.set_arg(g,v); return true; }
  bool setDH(const Mat&)override{ return false; }
  Vec getPar(const std::string&g)override{ if(g=="par_DYN") return r.get_par_DYN(); if(g=="par_REG") return r.get_par_REG(); return r.get_arg(g); }
  std::vector<std::string> queries()override{ std::vector<std::string> q; for(auto&f:r.get_functions()) q.push_back(f.name); return q; }
  bool has(const std::string&q)override{ for(auto&f:r.get_functions()) if(f.name==q) return true; return false; }
  Mat get(const std::string&q)override{ return r.get(q); }
  int load(const std::string&w,const std::string&p,bool sync,const std::vector<std::string>&l)override{ if(w=="conf") return r.load_conf_par(p,sync); if(w=="par_REG"){ r.load_par_REG(p,sync); return -1; } if(w=="par") return r.load_par(p,l); return -2; }
  int save(const std::string&w,const std::string&p,const std::vector<std::string>&l)override{ if(w=="par_REG") return r.save_par_REG(p); if(w=="par") return r.save_par(p,l); if(w=="conf") return r.save_conf(p); return -2; }
  std::map<std::string,int> info()override{ std::map<std::string,int> m; auto e=r.get_isElasticJoint(); for(int i=0;i<(int)e.size();i++) m["elastic"+std::to_string(i)]=e[i]; m["numParDYN"]=r.get_numParDYN(); m["numParREG"]=r.get_numParREG(); m["numJoints"]=r.get_numJoints(); m["name"]=hashStr(r.robotName)&0xffffff; for(auto&k:std::map<std::string,int>{{"n_joints",r.get_numJoints()},{"ELASTIC",(int)r.get_ELASTIC()},{"numElasticJoints",r.get_numElasticJoints()},{"K_order",r.get_K_order()},{"D_order",r.get_D_order()},{"Dl_order",r.get_Dl_order()},{"Dm_order",r.get_Dm_order()}}) m.insert(k); return m; }
};
VRobot* makeInProc(const std::string&name,const std::string&yaml,bool compute,bool bare){ Quiet q; auto r=std::make_shared<Robot>(thunder_ns::robot_from_file(name,yaml,compute)); if(bare){ r->init_symb_parameters(); r->update_symb_parameters(); } return new InProc(r); }
thunder_ns::Robot& robotOf(VRobot*v){ return dynamic_cast<InProc*>(v)->r; }
}
