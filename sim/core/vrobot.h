// Uniform access to an arm model under test: a generated library class (through a per-arm adapter .so)
// or the library's own in-process Robot.
#pragma once
#include <eigen3/Eigen/Dense>
#include <string>
#include <vector>
#include <map>
#include "rng.h"
namespace sim {
struct VRobot {
  typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
  virtual ~VRobot(){}
  virtual VRobot* clone()=0;
  virtual VRobot* fresh()=0;                                   // a newly constructed instance of the same arm ("restart")
  virtual bool assign(VRobot&o)=0;                             // *this = o; false if the model cannot be assigned
  virtual bool resync(bool toReg)=0;                           // recompute one inertial set from the other; false if not offered
  virtual bool generated()=0;
  // inputs; names: q dq ddq d3q d4q dqr ddqr x dx ddx ddxr w.  returns false if the model has no such input
  virtual bool setState(const std::string&n,const Vec&v)=0;
  virtual bool setArguments(const Vec&,const Vec&,const Vec&,const Vec&)=0;
  // groups: par_DHtable par_world2L0 par_Ln2EE par_gravity par_DYN par_Dl par_K par_D par_Dm par_Mm par_REG
  virtual bool setPar(const std::string&g,const Vec&v,bool sync)=0;
  // the kinematic table in any shape
  virtual bool setDH(const Mat&)=0;
  int status=-1;                                               // of the last input: 1 accepted, 0 refused, -1 not reported by value
  virtual Vec getPar(const std::string&g)=0;
  virtual std::vector<std::string> queries()=0;
  virtual bool has(const std::string&q)=0;
  virtual Mat get(const std::string&q)=0;
  // files.  which: load: conf, par_REG, par   save: par_REG, par_DYN, par, conf.  return: 1 ok, 0 failure, -1 no status, -2 unsupported
  virtual int load(const std::string&which,const std::string&path,bool sync,const std::vector<std::string>&list)=0;
  virtual int save(const std::string&which,const std::string&path,const std::vector<std::string>&list)=0;
  virtual std::map<std::string,int> info()=0;                 // n_joints, ELASTIC, numElasticJoints, K_order, ...
};
}
