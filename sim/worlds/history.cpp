// Worlds C05..C07: fleets of live model instances fed by an unreliable message bus.
//  C05: every answer equals (bit for bit) the answer of a fresh instance given only the last accepted inputs.
//  C06: the two inertial parameter sets against a small reference ledger.
//  C07: an arm with runtime parameters against the same arm with those values fixed in its configuration.
#include "bench.h"
namespace sim {
struct Slot { std::unique_ptr<Bench> b; int lastI=0; Vec lastDyn,lastReg; std::array<Vec,NGRP> raw; // raw: last accepted vectors per group
  Vec dyn,reg; bool alive(){ return (bool)b; } };
static bool sameBits(const Mat&x,const Mat&y){ if(x.rows()!=y.rows()||x.cols()!=y.cols()) return false; for(int i=0;i<x.size();i++){ double a=x.data()[i],b=y.data()[i]; if(a!=b&&!(std::isnan(a)&&std::isnan(b))) return false; } return true; }
static bool sameV(const Vec&x,const Vec&y){ return sameBits(Mat(x),Mat(y)); }

struct HistWorld: World {
  std::string P; HistWorld(const std::string&p):P(p){}
  static const int NS=4;
  bool farmOf(const Plan&p,int k){ return p.kn(k?"farm1":"farm0"); } long armOf(const Plan&p,int k){ return p.kn(k?"arm1":"arm0"); }
  Plan generate(uint64_t seed,int idx)override{
    Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr(P)); Plan p; p.world=P; bool f0=g_farmN>0&&idx%3==2,f1=g_farmN>0&&r.chance(0.6); p.knob["farm0"]=f0; p.knob["arm0"]=f0?(long)r.below(g_farmN):idx/6; p.knob["farm1"]=P=="C07"?f0:f1; p.knob["arm1"]=P=="C07"?p.knob["arm0"]:(f1?(long)r.below(g_farmN):idx/6); p.knob["seed"]=idx;
    double bad=r.chance(0.6)?r.uni(0.05,0.3):0,dup=r.chance(0.4)?0.2:0; bool rs=r.chance(0.5),cp=r.chance(0.6); int n=P=="C07"?r.range(6,20):r.range(12,45); bool longRun=idx%40==37; if(longRun) n=P=="C07"?80:400; std::vector<Op> hist;
    auto S=[&]{ return r.next()>>1; };
    for(int i=0;i<n;i++){ long sl=P=="C07"?0:(long)r.below(NS); double u=r.uni(); Op o;
      if(P=="C05"){
        if(u<0.06&&cp) o={"copy",sl,(long)r.below(NS),0,S()}; else if(u<0.1&&rs) o={"restart",sl,0,0,S()}; else if(u<0.1+bad*0.5) o={"bad",sl,(long)r.below(12),0,S()}; else if(u<0.1+bad) o={"badpar",sl,(long)r.below(NGRP+1),0,S()};
        else if(u<0.55) o={"set",sl,(long)r.below(12),0,S()}; else if(u<0.7) o={"par",sl,(long)r.below(NGRP),0,S()}; else if(u<0.74) o={"reg",sl,0,0,S()}; else if(u<0.77) o={"args",sl,(long)r.below(4),0,S()}; else if(u<0.83) o={"peek",sl,0,0,S()}; else if(u<0.88) o={"sens",sl,(long)r.below(12),0,S()}; else if(u<0.91) o={"senspar",sl,(long)r.below(NGRP),0,S()}; else if(u<0.93) o={"burst",sl,0,0,S()}; else if(longRun&&r.chance(0.9)) o={"peek",sl,0,0,S()}; else o={"ask",sl,0,0,S()};
      } else if(P=="C06"){
        if(u<0.06&&cp) o={"copy",sl,(long)r.below(NS),0,S()}; else if(u<0.1&&rs) o={"restart",sl,0,0,S()}; else if(u<0.1+bad*0.5) o={"bad",sl,(long)r.below(2),0,S()}; else if(u<0.1+bad*0.7) o={"loadbad",sl,(long)r.below(4),(long)r.below(2),S()};
        else if(u<0.45) o={"dyn",sl,(long)r.chance(0.8),0,S()}; else if(u<0.72) o={"reg",sl,(long)r.chance(0.8),0,S()}; else if(u<0.82) o={"loadconf",sl,(long)r.chance(0.75),0,S()}; else if(u<0.92) o={"loadreg",sl,(long)r.chance(0.75),0,S()}; else if(u<0.96) o={"peek",sl,0,0,S()}; else o={"resync",sl,(long)r.chance(0.5),0,S()};
      } else {
        if(u<0.5) o={"par",0,(long)r.below(NGRP),0,S()}; else if(u<0.6) o={"reg",0,0,0,S()}; else if(u<0.75) o={"set",0,(long)r.below(12),0,S()}; else if(u<0.85) o={"loadconf",0,0,0,S()}; else if(u<0.9) o={"loadpar",0,(long)r.below(NGRP),0,S()}; else if(u<0.94&&rs) o={"restart",0,0,0,S()}; else o={"bad",0,(long)r.below(12),0,S()};
      }
      if(r.chance(dup)&&hist.size()){ p.ops.push_back(hist[r.below(hist.size())]); p.knob["duplicated"]++; }
      p.ops.push_back(o); hist.push_back(o); }
    if(P=="C05") for(int s=0;s<NS;s++) p.ops.push_back({"ask",s,1,0,S()}); if(P=="C07"){ p.ops.push_back({"burst",0,0,0,S()}); p.ops.push_back({"baked",0,0,0,S()}); }
    // faulty transport: some neighbouring messages change places
    if(r.chance(0.4)) for(size_t i=0;i+2<p.ops.size();i++) if(r.chance(0.2)){ std::swap(p.ops[i],p.ops[i+1]); p.knob["reordered"]++; }
    return p; }
  void prepare(const Plan&p)override{ armEntry(farmOf(p,0),armOf(p,0)); armEntry(farmOf(p,1),armOf(p,1)); }

  static Vec rnd(const Arm&a,int v,Rng&r){ int n=stSize(a,v); Vec x(n); double sc=r.chance(0.1)?0:(r.chance(0.1)?30:3); for(int i=0;i<n;i++) x[i]=r.uni(-sc,sc); return x; }
  // an input that differs from the current one only slightly, in one entry, in its sign or in its order
  static Vec near(Vec v,Rng&r){ int n=v.size(); if(!n) return v; double e=std::pow(10.,-r.uni(2,16)); switch(r.below(6)){ case 0: for(int i=0;i<n;i++) v[i]*=1+e*r.uni(-1,1); break; case 1: { int k=r.below(n); v[k]=std::nextafter(v[k],1e300); break; } case 2: v[r.below(n)]+=e; break; case 3: v=-v; break; case 4: std::swap(v[0],v[n-1]); break; default: for(int i=0;i<n;i++) v[i]+=e*r.uni(-1,1); } return v; }
  Vec rndIn(Bench&b,int v,Rng&r){ if(P=="C05"&&r.chance(0.2)) return near(b.acc.by(ST[v]),r); return rnd(b.a,v,r); }
  bool hasVar(Bench&b,int v){ return !(v>=7&&v<11&&!b.a.elastic)&&stSize(b.a,v)>0; }
  std::unique_ptr<Slot> boot(Ctx&c,const Plan&p,int s){ std::unique_ptr<Slot> x(new Slot); x->b.reset(new Bench(c,armEntry(farmOf(p,s%2),armOf(p,s%2)))); x->b->boot(); x->b->structure(); x->dyn=dynConf(*x->b); x->reg=Bench::regOf(x->b->eff.v[G_DYN]); return x; }
  static Vec dynConf(Bench&b){ auto&v=b.a.val[G_DYN]; return Eigen::Map<const Vec>(v.data(),v.size()); }
  // the ways to hand a model over: copy construction, assignment to a model in use, to itself
  bool assign(Slot&to,Slot&from){ if(&to.b->ent!=&from.b->ent||!to.b->m->assign(*from.b->m)) return false; if(&to!=&from){ to.b->acc=from.b->acc; to.b->eff=from.b->eff; to.lastI=from.lastI; to.lastDyn=from.lastDyn; to.lastReg=from.lastReg; to.raw=from.raw; to.dyn=from.dyn; to.reg=from.reg; } return true; }
  std::unique_ptr<Slot> clone(Slot&o){ std::unique_ptr<Slot> x(new Slot); x->b.reset(new Bench(o.b->c,o.b->ent)); x->b->m.reset(o.b->m->clone()); x->b->acc=o.b->acc; x->b->eff=o.b->eff; x->lastI=o.lastI; x->lastDyn=o.lastDyn; x->lastReg=o.lastReg; x->raw=o.raw; x->dyn=o.dyn; x->reg=o.reg; return x; }

  // ---------- C05 ----------
  void setPar(Slot&s,int g,Rng&r){ Bench&b=*s.b; if(b.a.full(g)==0) return; Vec v=b.genPar(g,r); if(r.chance(0.2)&&s.raw[g].size()==v.size()) v=near(s.raw[g],r); if(g==G_DYN&&b.gen()) keepFixed(b,v); b.setPar(g,v); s.raw[g]=v; if(g==G_DYN) s.lastI=1; }
  static void keepFixed(Bench&b,Vec&v){ for(int i=0;i<(int)v.size();i++) if(!b.a.symb[G_DYN][i]) v[i]=b.a.val[G_DYN][i]; }
  void setReg(Slot&s,Rng&r){ Bench&b=*s.b; Vec d=b.genPar(G_DYN,r); if(b.gen()) keepFixed(b,d); std::vector<double> dv(d.data(),d.data()+d.size()); Vec g=Bench::regOf(dv); b.setReg(g); s.lastReg=g; s.lastI=2; }
  // a fresh instance that was told only the last accepted inputs, in an order of its own
  std::unique_ptr<Bench> canonical(Slot&s,Rng&r){ Bench&b=*s.b; std::unique_ptr<Bench> x(new Bench(b.c,b.ent)); x->boot(); std::vector<int> o; for(int i=0;i<12+NGRP;i++) o.push_back(i); for(int i=o.size()-1;i>0;i--) std::swap(o[i],o[r.below(i+1)]);
    for(int i:o){ if(i<12){ if(hasVar(b,i)) x->setState(i,b.acc.by(ST[i])); } else { int g=i-12; if(g==G_DYN){ if(s.lastI==1) x->setPar(g,s.raw[g]); else if(s.lastI==2) x->setReg(s.lastReg); } else if(s.raw[g].size()) x->setPar(g,s.raw[g]); } }
    return x; }
  void ask(Slot&s,Rng&r,bool all,const char*why){ Bench&b=*s.b; auto x=canonical(s,r); int k=0; std::vector<std::string> nm=b.names; for(int i=nm.size()-1;i>0;i--) std::swap(nm[i],nm[r.below(i+1)]); for(auto&n:nm){ if(!all&&k++>=7) break; Mat m=b.ask(n),y=x->ask(n); b.c.hit("assertions"); if(!sameBits(m,y)) fail("history:"+Bench::cls(n),n+" does not answer from the last accepted inputs ("+why+"): got "+mstr(m)+", a fresh instance given the same inputs answers "+mstr(y)); Mat z=b.ask(n); if(!sameBits(m,z)) fail("repeat:"+Bench::cls(n),n+" answers differently when asked twice"); }
    for(int g=0;g<NGRP;g++){ if(b.a.full(g)==0) continue; Vec p=b.m->getPar(grpName(g)),q=x->m->getPar(grpName(g)); if(!sameV(p,q)) fail("readback:"+std::string(grpName(g)),std::string(grpName(g))+" reads back differently from a fresh instance with the same inputs: "+mstr(p)+" / "+mstr(q)); }
    b.c.hit("probe.canonical"); }
  void sens(Slot&s,Rng&r,int v){ Bench&b=*s.b; if(!hasVar(b,v)) return; Vec nv=rnd(b.a,v,r); RefEval r0=b.ref(); std::map<std::string,Mat> old,ref0; std::vector<std::string> nm; for(auto&n:b.names) if(r.chance(0.5)) nm.push_back(n); for(auto&n:nm){ old[n]=b.ask(n); ref0[n]=r0.eval(n); } b.setState(v,nv); depend(s,nm,old,ref0,ST[v]); }
  void sensPar(Slot&s,Rng&r,int g){ Bench&b=*s.b; if(b.a.noSym(g)||b.a.full(g)==0) return; RefEval r0=b.ref(); std::map<std::string,Mat> old,ref0; std::vector<std::string> nm; for(auto&n:b.names) if(r.chance(0.5)) nm.push_back(n); for(auto&n:nm){ old[n]=b.ask(n); ref0[n]=r0.eval(n); } setPar(s,g,r); depend(s,nm,old,ref0,grpName(g)); }
  // an input the query physically depends on must show in the answer; one it cannot depend on must not
  void depend(Slot&s,const std::vector<std::string>&nm,std::map<std::string,Mat>&old,std::map<std::string,Mat>&ref0,const std::string&what){ Bench&b=*s.b; RefEval r1=b.ref(); for(auto&n:nm){ Mat now=b.ask(n),y=r1.eval(n); double d=relErr(y,ref0[n]); b.c.hit("assertions"); if(d>1e-5&&d<1e200&&sameBits(now,old[n])) fail("stale:"+Bench::cls(n),n+" did not react to a change of "+what); if(d==0&&relErr(now,old[n])>1e-9) fail("spurious:"+Bench::cls(n),n+" changed when "+what+" changed, which it cannot depend on"); } b.c.hit("probe.dependence"); }
  void bad(Slot&s,Rng&r,int v){ Bench&b=*s.b; if(!hasVar(b,v)) return; int n=stSize(b.a,v); static const int dl[]={-1,1,0,0,2}; int w=r.below(5); int k=w==2?0:(w==3?2*n:n+dl[w]); if(k==n||k<0) k=n+1; Vec y(k); for(int i=0;i<k;i++) y[i]=r.uni(-9,9); Quiet q; b.m->setState(ST[v],y); b.refused(q,ST[v]); b.c.hit("fault.malformed"); }
  void badPar(Slot&s,Rng&r,int g){ Bench&b=*s.b; std::string nm=g<NGRP?grpName(g):"par_REG"; Vec cur=b.m->getPar(nm); if(g<NGRP&&b.a.full(g)==0) return; bool kin=g<=G_GRAV; if((kin||!b.gen())&&g<NGRP&&g!=G_DYN&&b.a.noSym(g)) return; int n=cur.size(); int k=r.chance(0.3)?n-1:(r.chance(0.2)?0:(r.chance(0.2)?1:n+1)); if(k==n||k<0) k=n+1; Vec y(k); for(int i=0;i<k;i++) y[i]=r.uni(0.1,9); Quiet q; if(g==G_DH&&b.gen()&&n>1&&r.chance(0.5)){ /* as many values as needed, but not as a column */ int d; do d=r.range(2,n); while(n%d); Mat M(n/d,d); for(int i=0;i<n;i++) M.data()[i]=r.uni(0.1,9); b.m->setDH(M); } else b.m->setPar(nm,y,true); b.refused(q,nm); b.c.hit("fault.malformed"); }
  void burst(Slot&s,Rng&r){ Bench&b=*s.b; for(int v=0;v<12;v++) if(hasVar(b,v)) b.setState(v,rnd(b.a,v,r)); }

  // ---------- C06 ----------
  static bool partial(Bench&b){ return !b.a.allSym(G_DYN); }
  Vec newDyn(Bench&b,Rng&r){ Vec v=b.genPar(G_DYN,r); if(P=="C06"&&r.chance(0.2)){ Vec c=b.m->getPar("par_DYN"); if(c.size()==v.size()){ v=c; if(r.chance(0.5)){ int l=r.below(b.a.nj); v[10*l+r.below(10)]*=1+std::pow(10.,-r.uni(1,14)); } else for(int i=0;i<v.size();i++) v[i]*=1+std::pow(10.,-r.uni(6,15)); } } if(r.chance(0.1)) for(int i=0;i<v.size();i+=10){ v[i+1]=v[i+2]=v[i+3]=0; } if(r.chance(0.4)) scaleLinks(r,v,b.a); if(b.gen()) keepFixed(b,v); return v; }
  Vec regFrom(const Vec&d){ return Bench::regOf(std::vector<double>(d.data(),d.data()+d.size())); }
  void applyDyn(Slot&s,const Vec&v,bool sync){ Bench&b=*s.b; for(int i=0;i<v.size();i++) if(b.a.symb[G_DYN][i]||b.gen()) s.dyn[i]=v[i]; if(sync) s.reg=regFrom(s.dyn); synced(s,1,sync); }
  void applyReg(Slot&s,const Vec&g,bool sync){ Bench&b=*s.b; s.reg=g; if(sync){ for(int i=0;i<b.a.nj;i++){ double d[10]; reg2dyn(g.data()+10*i,d); for(int k=0;k<10;k++) if(b.gen()||b.a.symb[G_DYN][10*i+k]) s.dyn[10*i+k]=d[k]; } if(!b.gen()&&partial(b)) s.reg=regFrom(s.dyn); } synced(s,2,sync); }
  bool isSync=true; std::map<Slot*,bool> syncOf; void synced(Slot&s,int,bool y){ syncOf[&s]=y; }
  void ledger(Slot&s,const Vec&d0,const Vec&r0,int addressed,bool sync,const std::string&what,const Vec&val){ // addressed: 0 none, 1 DYN, 2 REG
    Bench&b=*s.b; Vec d=b.m->getPar("par_DYN"),g=b.m->getPar("par_REG"); b.c.hit("assertions"); for(int i=0;i<d.size();i++) b.c.dig.d(d[i]); for(int i=0;i<g.size();i++) b.c.dig.d(g[i]);
    if(addressed!=1&&!(addressed==2&&sync)&&!sameV(d,d0)) fail("ledger:par_DYN",what+" changed par_DYN from "+mstr(d0)+" to "+mstr(d));
    if(addressed!=2&&!(addressed==1&&sync)&&!sameV(g,r0)) fail("ledger:par_REG",what+" changed par_REG from "+mstr(r0)+" to "+mstr(g));
    if(addressed==1) for(int i=0;i<d.size();i++) if(b.a.symb[G_DYN][i]&&d[i]!=val[i]) fail("ledger:par_DYN",what+fmt(": entry %d is %.17g instead of the accepted %.17g",i,d[i],val[i]));
    if(addressed==2&&!(sync&&partial(b)&&!b.gen())&&!sameV(g,val)) fail("ledger:par_REG",what+": par_REG is "+mstr(g)+" instead of the accepted "+mstr(val));
    if(linkDiff(d,s.dyn,true)>1e-9) fail("value:par_DYN",what+": par_DYN is "+mstr(d)+" expected "+mstr(s.dyn)); if(linkDiff(g,s.reg,false)>1e-9) fail("value:par_REG",what+": par_REG is "+mstr(g)+" expected "+mstr(s.reg));
    if(addressed&&sync){ if(linkDiff(g,regFrom(d),false)>1e-9) fail("disagree",what+": the two sets describe different bodies: par_DYN "+mstr(d)+" par_REG "+mstr(g)); b.c.hit("probe.agreement"); } }
  static std::string regYaml(const Arm&a,const Vec&g,Rng&r,const double*dl){ static const char*k[10]={"mass","m_CoM_x","m_CoM_y","m_CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}; std::ostringstream o; if(r.chance(0.5)) o<<"# parameters\n"; o<<"dynamics:\n"; int off=r.below(10); for(int i=0;i<a.nj;i++){ o<<"  link"<<i+1<<":\n    inertial:\n"; for(int j=0;j<10;j++){ int q=(j*3+off)%10; o<<"      "<<k[q]<<": "<<num(g[10*i+q])<<"\n"; } if(a.Dlo&&dl) o<<"    friction:\n      Dl: "<<lst(dl+i*a.Dlo,a.Dlo)<<"\n"; } return o.str(); }
  std::string confYaml(const Arm&a,const std::array<std::vector<double>,NGRP>&v,Rng&r){ Arm b=a; b.val=v; b.styl=r.range(0,3); if(b.styl==1) for(auto&t:b.types) (void)t; return armYaml(b); }

  // ---------- C07 ----------
  void baked(Slot&s,Rng&r){ Bench&b=*s.b; Arm k=sim::baked(b.a,b.eff); k.gravGiven=true; std::string f=b.c.dir+"/baked.yaml"; writeFile(f,armYaml(k)); std::unique_ptr<VRobot> m; try{ m.reset(makeInProc(k.name,f)); } catch(std::exception&x){ fail("baked:build",std::string("the arm with these values fixed cannot be built: ")+x.what()); }
    for(int v=0;v<12;v++) if(hasVar(b,v)){ Quiet q; m->setState(ST[v],b.acc.by(ST[v])); }
    int n=0; for(auto&nm:b.names){ if(!m->has(nm)){ bool reg=nm.rfind("reg_",0)==0; if(!reg) fail("baked:missing","the arm with fixed values has no "+nm); continue; } Mat x=b.ask(nm); Mat y; { Quiet q; y=m->get(nm); } double tol=nm.find("dot")!=std::string::npos?1e-6:1e-8; b.close(x,y,"baked:"+Bench::cls(nm),nm+" with runtime parameters against the same values fixed at generation",tol); n++; }
    if(n<10) throw Infra{"too few common queries"}; b.c.hit("probe.baked"); b.c.hit("baked_answers",n); }

  void run(const Plan&p,Ctx&c)override{
    std::vector<std::unique_ptr<Slot>> sl(NS); for(int s=0;s<(P=="C07"?1:NS);s++) sl[s]=boot(c,p,s);
    c.hit("fault.duplicated",p.kn("duplicated")); c.hit("fault.reordered",p.kn("reordered")); c.hit("farm_runs",p.kn("farm0"));
    int fileNo=0;
    for(auto&o:p.ops){ Slot&s=*sl[o.a%NS]; Bench&b=*s.b; Rng r(o.s); c.ev(o.str()); c.hit("ops"); c.cnt["sim_us"]+=1000;
      if(o.k=="set"){ if(hasVar(b,o.b)) b.setState(o.b,rndIn(b,o.b,r)); }
      else if(o.k=="restart"){ sl[o.a%NS]=boot(c,p,o.a%NS); c.hit("fault.restart"); }
      else if(o.k=="copy"){ int to=o.b%NS; if(o.s&2&&sl[to]&&assign(*sl[to],s)) c.hit("assignments"); else if(to!=o.a%NS&&(to%2)==((o.a%NS)%2)){ sl[to]=clone(s); c.hit("copies"); } }
      else if(P=="C05"){
        if(o.k=="par") setPar(s,o.b,r); else if(o.k=="reg"){ if(b.gen()||true) setReg(s,r); } else if(o.k=="bad") bad(s,r,o.b); else if(o.k=="badpar") badPar(s,r,o.b);
        else if(o.k=="burst") burst(s,r);
        else if(o.k=="args"){ int w=o.b; Vec v[4]; for(int i=0;i<4;i++){ static const int vi[4]={0,1,5,6}; v[i]=rndIn(b,vi[i],r); } bool wrong=r.chance(0.4); if(wrong) v[w].conservativeResize(b.a.nj+1),v[w][b.a.nj]=1; Quiet q; if(b.m->setArguments(v[0],v[1],v[2],v[3])&&!wrong){ b.acc.q=v[0]; b.acc.dq=v[1]; b.acc.dqr=v[2]; b.acc.ddqr=v[3]; } if(wrong) c.hit("fault.malformed"); }
        else if(o.k=="peek"){ for(int i=0;i<3&&!b.names.empty();i++) b.ask(b.names[r.below(b.names.size())]); }
        else if(o.k=="sens") sens(s,r,o.b); else if(o.k=="senspar") sensPar(s,r,o.b); else if(o.k=="ask") ask(s,r,o.b,"history"); }
      else if(P=="C06"){ Vec d0=b.m->getPar("par_DYN"),r0=b.m->getPar("par_REG"); bool sync=o.b; std::string f=c.dir+"/f"+std::to_string(fileNo++)+".yaml";
        if(o.k=="dyn"){ if(!b.gen()) sync=true; Vec v=newDyn(b,r); { Quiet q; b.m->setPar("par_DYN",v,sync); } applyDyn(s,v,sync); ledger(s,d0,r0,1,sync,"setting par_DYN",v); }
        else if(o.k=="reg"){ if(!b.gen()) sync=true; Vec v=regFrom(newDyn(b,r)); { Quiet q; b.m->setPar("par_REG",v,sync); } applyReg(s,v,sync); ledger(s,d0,r0,2,sync,"setting par_REG",v); }
        else if(o.k=="bad"){ int n=10*b.a.nj; int k=r.chance(0.4)?n-1:(r.chance(0.3)?n+10:(r.chance(0.5)?0:n-10)); if(k==n) k=n+1; Vec v=Vec::Constant(k,2.5); { Quiet q; b.m->setPar(o.b?"par_REG":"par_DYN",v,true); } c.hit("fault.malformed"); ledger(s,d0,r0,0,false,"a refused update",v); }
        else if(o.k=="loadbad"){ static const char*bd[]={"","dynamics: [\n","dynamics:\n  link1:\n    inertial:\n      mass: 1\n","nothing: here\n"}; if(o.b) writeFile(f,bd[o.b%4]); { Quiet q; b.m->load(o.c?"par_REG":"conf",f,true,{}); } c.hit("fault.badfile"); ledger(s,d0,r0,0,false,"a failed load",Vec()); }
        else if(o.k=="loadconf"){ Vec v=newDyn(b,r); auto all=b.eff.v; all[G_DYN].assign(v.data(),v.data()+v.size()); writeFile(f,confYaml(b.a,all,r)); int rc; std::string t; { Quiet q; rc=b.m->load("conf",f,sync,{}); t=b.gen()?q.text():""; } if(rc==0||!t.empty()) fail("load","loading a valid configuration failed: "+t); applyDyn(s,v,sync); ledger(s,d0,r0,1,sync,"loading a configuration",v); c.hit("file_loads"); }
        else if(o.k=="loadreg"){ Vec v=regFrom(newDyn(b,r)); writeFile(f,regYaml(b.a,v,r,r.chance(0.5)?b.a.val[G_DL].data():nullptr)); std::string t; { Quiet q; b.m->load("par_REG",f,sync,{}); t=q.text(); } if(!t.empty()) fail("load","loading a valid par_REG file failed: "+t); applyReg(s,v,sync); ledger(s,d0,r0,2,sync,"loading par_REG",v); c.hit("file_loads"); }
        else if(o.k=="resync"){ Quiet q; if(b.m->resync(o.b)){ if(o.b){ s.reg=regFrom(s.dyn); ledger(s,d0,r0,2,true,"recomputing par_REG",b.m->getPar("par_REG")); } else { Vec g=s.reg; applyReg(s,g,true); ledger(s,d0,r0,1,true,"recomputing par_DYN",b.m->getPar("par_DYN")); } c.hit("resyncs"); } }
        else if(o.k=="peek"){ for(int i=0;i<3&&!b.names.empty();i++) b.ask(b.names[r.below(b.names.size())]); ledger(s,d0,r0,0,false,"a query",Vec()); }
        // nobody else's sets moved
        for(int t=0;t<NS;t++) if(sl[t]&&t!=o.a%NS){ Slot&z=*sl[t]; if(linkDiff(z.b->m->getPar("par_DYN"),z.dyn,true)>1e-9||linkDiff(z.b->m->getPar("par_REG"),z.reg,false)>1e-9) fail("isolation","an operation on one instance changed the inertial parameters of another"); } }
      else { // C07
        if(o.k=="par"){ int g=o.b; if(b.a.full(g)) { Vec v=b.genPar(g,r); if(g==G_DYN&&r.chance(0.5)) keepFixed(b,v); b.setPar(g,v); c.hit("param_updates"); } }
        else if(o.k=="reg"){ Vec d=b.genPar(G_DYN,r); if(partial(b)) keepFixed(b,d); b.setReg(regFrom(d)); c.hit("param_updates"); }
        else if(o.k=="burst") burst(s,r);
        else if(o.k=="bad") bad(s,r,o.b);
        else if(o.k=="loadconf"){ // a configuration with other values everywhere: only the adjustable ones may take effect
          std::array<std::vector<double>,NGRP> all=b.a.val; for(int g=0;g<NGRP;g++) if(b.a.full(g)&&(g!=G_GRAV||b.a.gravGiven)){ Vec v=b.genPar(g,r); all[g].assign(v.data(),v.data()+v.size()); } std::string f=c.dir+"/c"+std::to_string(fileNo++)+".yaml"; writeFile(f,confYaml(b.a,all,r)); int rc; std::string t; { Quiet q; rc=b.m->load("conf",f,true,{}); t=b.gen()?q.text():""; } if(rc==0||!t.empty()) fail("load","loading a valid configuration failed: "+t);
          for(int g=0;g<NGRP;g++){ if(!b.gen()&&g<=G_GRAV) continue; /* Robot::load_conf_par reads dynamics and elastic sections */ if(g==G_GRAV&&!b.a.gravGiven) continue; for(int i=0;i<b.a.full(g);i++) if(b.a.symb[g][i]) b.eff.v[g][i]=all[g][i]; } c.hit("file_loads"); }
        else if(o.k=="loadpar"){ if(!b.gen()){ int g=o.b; if(b.a.full(g)&&!b.a.noSym(g)){ Vec v=b.genPar(g,r); Vec pk=b.pack(g,v); std::string f=c.dir+"/p"+std::to_string(fileNo++)+".yaml"; writeFile(f,std::string(grpName(g))+": "+lst(pk.data(),pk.size())+"\n"); int rc; { Quiet q; rc=b.m->load("par",f,true,{}); } if(rc!=1) fail("load","loading a valid parameter file failed"); for(int i=0;i<b.a.full(g);i++) if(b.a.symb[g][i]) b.eff.v[g][i]=v[i]; c.hit("file_loads"); } } }
        else if(o.k=="baked") baked(s,r); }
    }
    c.cnt["nontrivial"]=1; }
};
World* makeHistory(const std::string&n){ return new HistWorld(n); }
}
