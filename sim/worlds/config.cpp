// World C19: configuration files that were damaged by editing or by an interrupted write, read by a process that already has an
// arm, and by the real command line.  A configuration is obeyed as a whole or refused as a whole.
#include "bench.h"
#include "../core/cfgref.h"
#include "damage.h"
#include "../core/cli.h"
#include "../core/simdisk.h"
#include "robot.h"
#include <filesystem>
#include <signal.h>
#include <algorithm>
namespace fs=std::filesystem;
namespace sim {
extern std::string g_template;
namespace {
Arm small(uint64_t s){ Rng r(s); ArmOpt o; o.njMin=1; o.njMax=r.chance(0.2)?3:2; o.symAll=0.2; o.symSome=0.5; return genArm(r.next(),o,"x"); }
bool tame(const Arm&a){ for(auto&g:a.val) for(double v:g) if(!(std::fabs(v)<=100)) return false; return a.Ko<=6&&a.Do<=6&&a.Dmo<=6&&a.Dlo<=6; }
std::string diffArm(const Arm&a,const Arm&b){ if(a.nj!=b.nj||a.types!=b.types) return "joints"; if(a.elastic!=b.elastic||a.Ko!=b.Ko||a.Do!=b.Do||a.Dlo!=b.Dlo||a.Dmo!=b.Dmo) return "orders"; for(int g=0;g<NGRP;g++){ if(a.val[g]!=b.val[g]) return std::string("values of ")+grpName(g); if(a.symb[g]!=b.symb[g]) return std::string("flags of ")+grpName(g); } return ""; }
struct Got { std::unique_ptr<VRobot> m; bool refused=false; std::string msg; };
}
struct CfgWorld: World {
  Plan generate(uint64_t seed,int idx)override{ Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr("C19")); Plan p; p.world="C19"; p.knob["arm0"]=idx/6; auto S=[&]{ return r.next()>>1; };
    int n=r.range(2,6); for(int i=0;i<n;i++){ if(i==0||r.chance(0.7)) p.ops.push_back({"text",(long)r.chance(0.6),0,0,S()}); int k=r.pick(std::vector<int>{0,1,1,1,1,2,3}); for(int j=0;j<k;j++) p.ops.push_back({"damage",(long)r.below(NDMG),0,0,S()}); double u=r.uni(); if(u<0.12) p.ops.push_back({"cli",0,0,0,S()}); else p.ops.push_back({"new",(long)r.chance(0.2),r.chance(0.35)?1+(long)r.below(2):0,0,S()}); }
    return p; }
  void prepare(const Plan&p)override{ armEntry(false,p.kn("arm0")); }
  static Got build(const std::string&name,const std::string&path){ Got g; try{ g.m.reset(makeInProc(name,path)); } catch(std::exception&e){ g.refused=true; g.msg=e.what(); } return g; }
  // the arm that was made answers as the configured one
  static void obeyed(Ctx&c,ArmEntry&e,uint64_t seed){ Bench b(c,e); b.boot(); b.structure(); if(!tame(e.arm)){ c.hit("untamed"); return; } Rng r(seed);
    for(int round=0;round<2;round++){ for(int v=0;v<12;v++){ Vec x(stSize(e.arm,v)); for(int i=0;i<x.size();i++) x[i]=r.uni(-2,2); if(v>=7&&v<=10&&!e.arm.elastic) continue; b.setState(v,x); } RefEval ref=b.ref(); for(auto&f:b.names) b.check(ref,f);
      for(int g=0;g<NGRP;g++) b.setPar(g,b.genPar(g,r)); } c.hit("obeyed"); }
  void run(const Plan&p,Ctx&c)override{ alarm(170); ArmEntry&base=armEntry(false,p.kn("arm0")); Bench old(c,base); old.boot(); { Rng r(p.kn("arm0")+3); for(int v=0;v<12;v++){ if(v>=7&&v<=10&&!base.arm.elastic) continue; Vec x(stSize(base.arm,v)); for(int i=0;i<x.size();i++) x[i]=r.uni(-2,2); old.setState(v,x); } }
    std::map<std::string,Mat> was; for(auto&f:old.names) was[f]=old.ask(f);
    std::string text=armYaml(base.arm),prev=text; int nInv=0,nVal=0,att=0; 
    for(auto&o:p.ops){ c.ev(o.str());
      if(o.k=="text"){ prev=text; text=o.a?armYaml(small(o.s)):armYaml(base.arm); continue; }
      if(o.k=="damage"){ text=damage(text,o.a,o.s,prev.size()>40?prev:armYaml(base.arm)); c.hit(std::string("fault.config: ")+DMG[o.a%NDMG]); continue; }
      Arm a; a.name="cfg"+std::to_string(++att); std::string why; Verdict v=readCfg(text,a,why); c.hit(v==VALID?"config_valid":v==GRAY?"config_gray":"config_invalid"); (v==INVALID?nInv:nVal)++; std::string what="attempt "+std::to_string(att)+" ("+(v==VALID?"valid":v==GRAY?"gray: "+why:"invalid: "+why)+")"; c.ev(" "+what); std::string excerpt="\n"+(text.size()>2500?text.substr(0,2500)+"...":text);
      std::string path=c.dir+"/"+a.name+".yaml"; writeFile(path,text);
      if(o.k=="new"){ Got g; long faults=0; if(o.a){ Quiet q; try{ thunder_ns::Robot R(YAML::Load(text)); } catch(std::exception&e){ g.refused=true; g.msg=e.what(); } c.hit("from_node"); }
        else { DiskShared*sh=newShared(); if(!sh) throw Infra{"mmap"}; DiskCfg d; d.roots={c.dir}; if(o.b){ d.seed=o.s|1; d.pShort=0.3; d.pEintr=0.2; } if(o.b==2){ d.failAt=(o.s>>8)%14; d.failSel=(o.s>>16)%16; } diskStart(d,sh); g=build(a.name,path); diskStop(); for(int k=0;k<FK_NK;k++) if(sh->kinds[k]){ c.hit(std::string("fault.")+faultKind[k],sh->kinds[k]); if(k!=FK_SHORT&&k!=FK_EINTR) faults+=sh->kinds[k]; } c.hit("disk_ops",sh->ops); freeShared(sh); }
        c.hit("assertions"); c.dig.u(g.refused); c.log.push_back(g.refused?" -> refused: "+g.msg.substr(0,100):" -> accepted");
        if(g.refused&&g.msg.empty()) fail("refused:silent",what+" was refused without a reason"+excerpt);
        bool partial=o.a; /* a bare node: only what the structure needs is read */
        if(v==INVALID&&!g.refused&&!partial) fail("accepted:invalid",what+" was accepted"+excerpt);
        if(v==VALID&&g.refused&&!faults) fail("refused:valid",what+" was refused: "+g.msg+excerpt);
        if(v==VALID&&g.m){ ArmEntry e; e.arm=a; e.yaml=path; e.confFile=path; e.proto=g.m.get(); try{ obeyed(c,e,o.s); } catch(Violation&x){ fail(x.cls,what+": "+x.detail+excerpt); } } }
      else if(o.k=="cli"){ std::string w=c.dir+"/cli"+std::to_string(att); fs::create_directories(w); CliJob j; j.args={"gen","-n",a.name,path}; j.cwd=w; j.disk=true; j.cfg.roots={c.dir}; j.cfg.redirect={{"/usr/local/share/thunder_dynamics/thunder_robot_template",g_template}}; DiskShared*sh=newShared(); if(!sh) throw Infra{"mmap"}; j.sh=sh; CliRun r=cliRun(j,w+"/out"); c.hit("disk_ops",sh->ops); freeShared(sh); bool ok=r.out.find("Library generated!")!=std::string::npos; c.hit("command_lines"); c.ev(" -> "+r.how()+(ok?" Library generated!":"")); c.hit("assertions",2);
        if(r.signaled&&r.sig==SIGXCPU) fail("hang",what+": the generator does not terminate"+excerpt); if(r.signaled&&(r.sig!=SIGABRT||v==VALID)) fail("crash:generator",what+": the generator died ("+r.how()+")"+excerpt);
        if(v==INVALID&&ok) fail("accepted:invalid",what+": the generator announced success"+excerpt); if(v==VALID&&!ok) fail("refused:valid",what+": the generator refused it: "+r.out.substr(0,600)+excerpt);
        Got g=build(a.name,path); if(g.refused==ok) fail("accepted:differently",what+": the generator "+(ok?"accepted":"refused")+" what the library "+(ok?"refused: "+g.msg:"accepted")+excerpt);
        if(v==VALID&&ok){ Arm b; std::string wb; Verdict vb=readCfg(readFile(w+"/"+a.name+"_generatedFiles/"+a.name+"_conf.yaml"),b,wb); if(vb!=VALID) fail("conf",what+": the generated configuration is not usable: "+wb+excerpt); std::string d=diffArm(a,b); if(!d.empty()) fail("conf",what+": the generated configuration has other "+d+excerpt); } }
      // the arm that was there before is not affected
      for(auto&f:old.names){ Mat m=old.ask(f),&x=was[f]; c.hit("assertions"); bool same=m.rows()==x.rows()&&m.cols()==x.cols(); for(int i=0;same&&i<m.size();i++) same=memcmp(&m.data()[i],&x.data()[i],8)==0; if(!same) fail("bystander",what+" changed "+f+" of another arm"+excerpt); } }
    c.cnt["nontrivial"]=nInv>0||att>1; }
};
World* makeCfgWorld(){ return new CfgWorld; }
}
