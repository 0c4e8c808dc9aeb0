// Worlds C01..C04: a robot cell in simulated time.  A sensor/parameter/command network (losing, repeating, delaying,
// reordering, truncating messages), a model node holding the arm under test (crashing and restarting), a plant and controllers.
#include "bench.h"
#include <queue>
namespace sim {
struct LoopWorld: World {
  std::string P; LoopWorld(const std::string&p):P(p){}
  // --- schedule: every op carries its send time a (microseconds) and network delay b ---
  Plan generate(uint64_t seed,int idx)override{
    Rng r(mix64(seed)^mix64(idx*977+3)^hashStr(P)); Plan p; p.world=P; bool farm=g_farmN>0&&idx%3==2; p.knob["farm"]=farm; p.knob["arm"]=farm?(long)r.below(g_farmN):idx/6; p.knob["traj"]=r.next()>>2; p.knob["seed"]=idx;
    // swarm: which fault kinds are active in this run
    double drop=r.chance(0.5)?r.uni(0,0.4):0,dup=r.chance(0.5)?r.uni(0,0.3):0,jit=r.chance(0.6)?r.uni(0,40000):0,bad=r.chance(0.4)?r.uni(0,0.2):0; bool restarts=r.chance(0.4),params=r.chance(0.8);
    long T=0; int ticks=P=="C01"||P=="C04"?r.range(3,8):r.range(2,6); p.knob["horizon"]=ticks;
    auto emit=[&](Op o){ if(r.chance(drop)){ p.knob["dropped"]++; return; } o.b=(long)r.uni(0,jit); p.ops.push_back(o); if(r.chance(dup)){ Op d=o; d.b=(long)r.uni(0,2*jit+5000); p.ops.push_back(d); p.knob["duplicated"]++; } };
    for(int k=0;k<ticks;k++){ T+=r.range(2000,30000);
      for(int v=0;v<12;v++) if(k==0||r.chance(0.8)){ Op o{"st",T+(long)r.below(800),0,v,r.next()>>1}; if(r.chance(bad)){ Op b=o; b.k="bad"; b.s=r.next()>>1; emit(b); } emit(o); }
      if(params&&r.chance(0.5)) for(int g=0;g<NGRP;g++) if(r.chance(0.4)){ Op o{g==G_DYN&&r.chance(0.4)?"reg":"par",T+(long)r.below(800),0,g,r.next()>>1}; emit(o); }
      if(restarts&&r.chance(0.25)) p.ops.push_back({"restart",T+(long)r.below(2000),0,0,r.next()>>1});
      p.ops.push_back({"ask",T+900+(long)jit/2,0,(long)r.below(1000),r.next()>>1});
      if(P=="C01"&&r.chance(0.3)) p.ops.push_back({"move",T+950,0,0,r.next()>>1});
      if(P=="C02"&&k==ticks-1) p.ops.push_back({"sim",T+950,0,r.range(10,40),r.next()>>1});
      if(P=="C03"&&k==ticks-1) p.ops.push_back({"adapt",T+950,0,r.range(20,60),r.next()>>1});
      if(P=="C04"&&k==ticks-1) p.ops.push_back({"osc",T+950,0,r.range(20,80),r.next()>>1});
    }
    return p; }
  std::vector<std::string> watch(const Bench&b){ std::vector<std::string> w; for(auto&n:b.names){ char c0=n[0]; bool kin=n.rfind("T_",0)==0||n.rfind("J_",0)==0; bool reg=n.rfind("reg_",0)==0||n=="Yr"; bool el=!kin&&!reg&&(c0=='d'||c0=='k'||c0=='K'||c0=='D'||n=="Mm"); bool dyn=!kin&&!reg&&!el;
      bool fr=n=="reg_dl"||n=="reg_k"||n=="reg_d"||n=="reg_dm"||n=="reg_Mm";
      if((P=="C01"&&kin)||(P=="C02"&&dyn)||(P=="C03"&&reg)||(P=="C04"&&(el||fr))) w.push_back(n); } return w; }
  void prepare(const Plan&p)override{ armEntry(p.kn("farm"),p.kn("arm")); }
  void run(const Plan&p,Ctx&c)override{
    ArmEntry&e=armEntry(p.kn("farm"),p.kn("arm")); Bench b(c,e); b.boot(); auto w=watch(b); c.hit("farm_runs",p.kn("farm")); c.hit("fault.dropped",p.kn("dropped")); 
    Motion mo(p.kn("traj"),b.a.nj),mr(p.kn("traj")^77,b.a.nj),mx(p.kn("traj")^99,std::max(1,b.a.nej()));
    typedef std::tuple<long,long,const Op*> Ev; std::priority_queue<Ev,std::vector<Ev>,std::greater<Ev>> q; long seq=0; for(auto&o:p.ops) q.push({o.a+o.b,seq++,&o});
    long now=0; std::map<long,long> lastSent;
    while(!q.empty()){ auto[at,s,op]=q.top(); q.pop(); now=at; const Op&o=*op; Rng r(o.s); double ts=o.a*1e-6; c.ev(o.str());
      if(o.k=="st"||o.k=="bad"){ int v=o.c; int n=stSize(b.a,v); if(v>=7&&v<11&&!b.a.elastic) continue; if(n==0) continue; Vec x(n);
        if(v<5) x=mo.at(ts,v); else if(v==5||v==6) x=mr.at(ts,v-4); else if(v<10) x=mx.at(ts,v-7).head(n); else for(int i=0;i<n;i++) x[i]=r.uni(-3,3);
        if(v==11) for(int i=0;i<6;i++) x[i]=r.uni(-5,5);
        if(r.chance(0.05)&&v<5) x.setZero();
        if(o.k=="bad"){ if(!b.gen()&&(v==2||v==3||v==4||v==11)) continue; int k=n+(r.chance(0.5)?1:-1); if(r.chance(0.2)) k=0; Vec y=Vec::Constant(k,7.5); Quiet qq; b.m->setState(ST[v],y); c.hit("fault.malformed"); continue; }
        if(o.b>0) c.hit("fault.delayed"); auto&l=lastSent[v]; if(o.a<l) c.hit("fault.reordered"); l=std::max(l,o.a); b.setState(v,x); c.hit("msgs"); }
      else if(o.k=="par"){ b.setPar(o.c,b.genPar(o.c,r)); c.hit("param_updates"); }
      else if(o.k=="reg"){ if(!b.a.allSym(G_DYN)) continue; Vec d=b.genPar(G_DYN,r); std::vector<double> dv(d.data(),d.data()+d.size()); b.setReg(Bench::regOf(dv)); c.hit("param_updates"); }
      else if(o.k=="restart"){ b.boot(); c.hit("fault.restart"); }
      else if(o.k=="ask") ask(b,w,r);
      else if(o.k=="move") moveCheck(b,mo,r,ts);
      else if(o.k=="sim") energySim(b,r,b.a.nj>4?std::min<int>(o.c,6):o.c);
      else if(o.k=="adapt") adaptSim(b,r,b.a.nj>4?std::min<int>(o.c,8):o.c,c);
      else if(o.k=="osc") oscSim(b,r,o.c);
    }
    c.cnt["nontrivial"]=1; c.cnt["sim_us"]+=now; }
  void ask(Bench&b,const std::vector<std::string>&w,Rng&r){ if(w.empty()) return; RefEval ref=b.ref(); bool all=r.chance(0.35); for(auto&n:w) if(all||r.chance(0.4)) check(b,ref,n); if(P=="C02") dynIdent(b,ref,r); if(P=="C03") regIdent(b,ref,r); if(P=="C04") fricIdent(b,r); }
  std::map<std::string,int> dummy;
  bool christoffel(Bench&b,RefEval&ref){ return relErr(b.ask("C"),ref.C())<1e-7; }
  void check(Bench&b,RefEval&ref,const std::string&n){
    if(n=="C"||n=="C_std"){ Mat x=b.ask(n); Vec f=x*b.acc.dq; b.close(f,ref.C()*b.acc.dq,"value:"+n,n+" times dq (velocity-dependent force)"); Mat Md=ref.eval("M_dot"); double pw=b.acc.dq.dot((Md-2*x)*b.acc.dq); double sc=1+b.acc.dq.squaredNorm()*(Md.norm()+x.norm()); b.require(std::fabs(pw)<=1e-8*sc,"work:"+n,n+" does work: "+std::to_string(pw)); if(n=="C"){ Mat S=Md-2*x; b.close(S,-S.transpose(),"work:C","Mdot-2C is not skew-symmetric"); } return; }
    if(n=="C_dot"||n=="C_ddot"){ if(christoffel(b,ref)) b.check(ref,n); return; }
    if(n=="reg_C"){ if(christoffel(b,ref)) b.check(ref,n); return; } if(n=="Yr"){ if(christoffel(b,ref)) b.check(ref,n); return; }
    b.check(ref,n); }
  // C01: the frame really moves as the Jacobian says - measured from the model's own poses along simulated motion
  void moveCheck(Bench&b,const Motion&mo,Rng&r,double t){ const double h=2e-4; int n=b.a.nj; auto at=[&](double tt){ b.setState(0,mo.at(tt,0)); }; std::string f=r.chance(0.4)?"ee":std::to_string(r.range(1,n)); std::string T=f=="ee"?"T_0_ee":"T_0_"+f,J="J_"+f;
    auto vel=[&](Mat p2,Mat p1,Mat m1,Mat m2,double*out){ Mat D=(-p2+8*p1-8*m1+m2)/(12*h); return D; };
    at(t+2*h); Mat p2=b.ask(T),J2=b.ask("J_ee"); at(t+h); Mat p1=b.ask(T),J1=b.ask("J_ee"); at(t-h); Mat m1=b.ask(T),K1=b.ask("J_ee"); at(t-2*h); Mat m2=b.ask(T),K2=b.ask("J_ee"); at(t); b.setState(1,mo.at(t,1)); Mat X=b.ask(T); Mat D=vel(p2,p1,m1,m2,nullptr);
    Eigen::Matrix3d W=D.topLeftCorner(3,3)*X.topLeftCorner(3,3).transpose(); Vec tw(6); tw<<D(0,3),D(1,3),D(2,3),W(2,1),W(0,2),W(1,0); Vec jv=b.ask(J)*mo.at(t,1); b.close(jv,tw,"motion:J","Jacobian "+J+" does not give the velocity of frame "+f,1e-6);
    Mat Jd=(-J2+8*J1-8*K1+K2)/(12*h); b.close(b.ask("J_ee_dot"),Jd,"motion:J_ee_dot","J_ee_dot is not the rate of change of J_ee",1e-6);
    b.require((X.topLeftCorner(3,3)*X.topLeftCorner(3,3).transpose()-Mat::Identity(3,3)).norm()<1e-9,"motion:rotation","pose has no proper rotation"); b.c.hit("probe.motion"); }
  void dynIdent(Bench&b,RefEval&ref,Rng&r){ Mat M=b.ask("M"); b.close(M,M.transpose(),"M:symmetric","mass matrix not symmetric"); Eigen::SelfAdjointEigenSolver<Mat> es(0.5*(M+M.transpose())); b.require(es.eigenvalues().minCoeff()>0,"M:posdef","mass matrix not positive definite: "+mstr(M));
    Vec dq=b.acc.dq; double K=0.5*dq.dot(M*dq),K2=ref.energyKinBodies(); b.require(std::fabs(K-K2)<=1e-8*(1+K2),"energy:kinetic",fmt("kinetic energy %.12g but bodies move with %.12g",K,K2));
    // power balance: dq'(M a + C dq + G) = d/dt(K+U) for any acceleration a
    Vec a(b.a.nj); for(int i=0;i<b.a.nj;i++) a[i]=r.uni(-5,5); Mat C=b.ask(r.chance(0.5)?"C":"C_std"),G=b.ask("G"); double Pw=dq.dot(M*a+C*dq+G); JState s2=b.acc; s2.ddq=a; RefEval r2(b.a,b.eff,s2); Mat Md=r2.eval("M_dot"); double dK=dq.dot(ref.M()*a)+0.5*dq.dot(Md*dq),dU=dq.dot(Vec(ref.G())); double sc=1+std::fabs(dK)+std::fabs(dU)+dq.norm()*(M*a+C*dq+G).norm(); b.require(std::fabs(Pw-dK-dU)<=1e-8*sc,"energy:power",fmt("power %.12g but energy changes at %.12g",Pw,dK+dU)); }
  void regIdent(Bench&b,RefEval&ref,Rng&r){ // model's own regressors against the model's own terms
    Vec reg=Bench::regOf(b.eff.v[G_DYN]); Mat M=b.ask("M"),C=b.ask("C"),G=b.ask("G"),Y=b.ask("Yr"); Vec t=M*b.acc.ddqr+C*b.acc.dqr+G; b.close(Y*reg,t,"ident:Yr","Yr*par_REG differs from M*ddqr+C*dqr+G"); b.close(b.ask("reg_M")*reg,M*b.acc.ddqr,"ident:reg_M","reg_M"); b.close(b.ask("reg_C")*reg,C*b.acc.dqr,"ident:reg_C","reg_C"); b.close(b.ask("reg_G")*reg,G,"ident:reg_G","reg_G");
    if(b.a.allSym(G_DYN)){ Vec rb=b.m->getPar("par_REG"); b.close(Y*rb,t,"ident:par_REG","Yr times the reported par_REG differs from the dynamics"); } }
  void fricIdent(Bench&b,Rng&r){ auto h=[&](const char*n){ return b.fn.count(n)>0; };
    if(h("dl")){ Vec d=b.ask("dl"); for(int i=0;i<b.a.nj;i++) b.require(d[i]*b.acc.dq[i]>=-1e-12,"dissipation:dl",fmt("link friction drives joint %d: torque %g at velocity %g",i+1,d[i],b.acc.dq[i])); Vec s=Vec::Zero(b.a.nj); for(int o=1;o<=b.a.Dlo;o++){ Mat D=b.ask("Dl"+std::to_string(o)); for(int i=0;i<b.a.nj;i++) s[i]+=D(i,i)*sgnpow(b.acc.dq[i],o); } b.close(d,s,"coeff:dl","dl differs from the sum of its order matrices"); }
    auto sea=b.a.sea(); int e=sea.size();
    if(h("dm")){ Vec d=b.ask("dm"); for(int i=0;i<e;i++) b.require(d[i]*b.acc.dx[i]>=-1e-12,"dissipation:dm","motor friction drives its motor"); Vec s=Vec::Zero(e); for(int o=1;o<=b.a.Dmo;o++){ Mat D=b.ask("Dm"+std::to_string(o)); for(int i=0;i<e;i++) s[i]+=D(i,i)*sgnpow(b.acc.dx[i],o);} b.close(d,s,"coeff:dm","dm differs from the sum of its order matrices"); }
    if(h("d")){ Vec d=b.ask("d"); for(int i=0;i<e;i++) b.require(d[i]*(b.acc.dx[i]-b.acc.dq[sea[i]])>=-1e-12,"dissipation:d","coupling damping adds energy"); Vec s=Vec::Zero(e); for(int o=1;o<=b.a.Do;o++){ Mat D=b.ask("D"+std::to_string(o)); for(int i=0;i<e;i++) s[i]+=D(i,i)*sgnpow(b.acc.dx[i]-b.acc.dq[sea[i]],o);} b.close(d,s,"coeff:d","d differs from the sum of its order matrices"); }
    if(h("k")){ Vec k=b.ask("k"); Vec s=Vec::Zero(e); for(int o=0;o<b.a.Ko;o++){ Mat K=b.ask("K"+std::to_string(2*o+1)); for(int i=0;i<e;i++) s[i]+=K(i,i)*std::pow(b.acc.x[i]-b.acc.q[sea[i]],2*o+1);} b.close(k,s,"coeff:k","k differs from the sum of its order matrices");
      JState old=b.acc; Vec x2=b.acc.x; for(int i=0;i<e;i++) x2[i]=2*b.acc.q[sea[i]]-b.acc.x[i]; b.setState(7,x2); Vec k2=b.ask("k"); b.close(k2,-k,"odd:k","mirrored deflection does not mirror the elastic torque"); b.setState(7,old.x); } }
  // C02: plant integrated with the reported terms; energy bookkeeping against body-by-body energies.
  // A drift only counts if it does not shrink with the integration step.
  void energySim(Bench&b,Rng&r,int steps){ int n=b.a.nj; Vec q0=b.acc.q,v0=b.acc.dq; if(v0.norm()>6) v0*=6/v0.norm(); std::string cn=r.chance(0.5)?"C":"C_std"; bool stalled=r.chance(0.3); JState sv=b.acc; std::vector<Vec> tq; Vec tau=Vec::Zero(n); for(int k=0;k<steps;k+=7){ if(r.chance(0.3)) b.c.hit("fault.cmd_lost"); else if(!stalled) for(int i=0;i<n;i++) tau[i]=r.uni(-3,3); tq.push_back(tau); }
    std::string msg; auto sim=[&](int sub)->double{ double dt=5e-4/sub,work=0,worst=0; Vec q=q0,dq=v0,tau;
      auto acc=[&](const Vec&Q,const Vec&V)->Vec{ b.setState(0,Q); b.setState(1,V); Mat M=b.ask("M"); return M.llt().solve(tau-b.ask(cn)*V-b.ask("G")); };
      auto en=[&](){ b.setState(0,q); b.setState(1,dq); RefEval e=b.ref(); return e.energyKinBodies()+e.energyPot(); };
      double E0=en(),maxE=std::fabs(E0);
      for(int k=0;k<steps;k++){ tau=tq[k/7]; for(int h=0;h<sub;h++){
          Vec k1q=dq,k1v=acc(q,dq),k2q=dq+dt/2*k1v,k2v=acc(q+dt/2*k1q,k2q),k3q=dq+dt/2*k2v,k3v=acc(q+dt/2*k2q,k3q),k4q=dq+dt*k3v,k4v=acc(q+dt*k3q,k4q);
          Vec q2=q+dt/6*(k1q+2*k2q+2*k3q+k4q),v2=dq+dt/6*(k1v+2*k2v+2*k3v+k4v); work+=tau.dot(q2-q); q=q2; dq=v2; }
        if(!q.allFinite()||dq.norm()>60) return worst; if(k%5==4||k==steps-1){ double E=en(); maxE=std::max(maxE,std::fabs(E)); double d=std::fabs(E-E0-work)/(1+maxE+b.a.nj*dq.squaredNorm()); if(d>worst){ worst=d; msg=fmt("energy changed by %.10g but applied torques did work %.10g after %d steps",E-E0,work,k+1); } } }
      return worst; };
    double d1=sim(1); b.c.hit("assertions"); if(d1>2e-6){ double d4=sim(4); b.c.hit("refined_integrations"); if(d4>2e-6&&d4>0.3*d1) fail("energy:drift",msg); }
    b.c.cnt["sim_us"]+=steps*500; b.c.hit("plant_steps",steps); b.setState(0,sv.q); b.setState(1,sv.dq); }
  // C03: adaptive controller (Slotine-Li) with a faulty network and controller restarts
  void adaptSim(Bench&b,Rng&r,int steps,Ctx&c){ int n=b.a.nj; double dt=1e-3; Eff truth=b.eff; Rng r2=r.fork(1); // plant: reference physics with the model's kinematics
    std::vector<double> preg(10*n); for(int i=0;i<n;i++){ double d[10]; physicalInertia(r2,d); for(int k=0;k<10;k++) truth.v[G_DYN][10*i+k]=d[k]; dyn2reg(d,&preg[10*i]); } Vec pi=Eigen::Map<Vec>(preg.data(),10*n);
    Vec ah(10*n); for(int i=0;i<10*n;i++) ah[i]=pi[i]*r2.uni(0.3,1.7); double gam=r2.uni(0.2,2),lam=r2.uni(1,4); Vec Kd(n); for(int i=0;i<n;i++) Kd[i]=r2.uni(1,6);
    Motion des(r2.next(),n,0.6); Vec q=des.at(0,0),dq=des.at(0,1); for(int i=0;i<n;i++){ q[i]+=r2.uni(-.3,.3); dq[i]+=r2.uni(-.5,.5);} int f0=r2.range(0,steps/2),f1=f0+r2.range(0,steps/3); int fk=r2.range(0,3); Vec tau=Vec::Zero(n),saved=ah; bool anyFault=false;
    auto ctl=[&](const Vec&Q,const Vec&V,double t,Vec&s,Mat&Y,Vec&dqr,Vec&ddqr){ Vec qd=des.at(t,0),vd=des.at(t,1),ad=des.at(t,2); dqr=vd-lam*(Q-qd); ddqr=ad-lam*(V-vd); s=V-dqr; b.setState(0,Q); b.setState(1,V); b.setState(5,dqr); b.setState(6,ddqr); Y=b.ask("Yr"); return Vec(Y*ah-Kd.cwiseProduct(s)); };
    for(int k=0;k<steps;k++){ double t=k*dt; bool faulty=k>=f0&&k<f1; Vec s,dqr,ddqr; Mat Y; JState js; js.zero(n,b.a.nej()); js.q=q; js.dq=dq;
      if(k%10==0) saved=ah;
      if(faulty&&fk==1&&k==f0){ Eff keep=b.eff; b.boot(); for(int g=0;g<NGRP;g++){ Vec f=Eigen::Map<Vec>(keep.v[g].data(),keep.v[g].size()); b.setPar(g,f); } ah=saved; c.hit("fault.restart"); anyFault=true; }
      if(faulty&&fk==2){ c.hit("fault.state_lost"); anyFault=true; /* torque held */ } else if(faulty&&fk==3){ if(k%3==0) tau=ctl(q,dq,t,s,Y,dqr,ddqr); c.hit("fault.stall"); anyFault=true; }
      else { tau=ctl(q,dq,t,s,Y,dqr,ddqr); RefEval R(b.a,truth,js); Mat M=R.M(),C=R.C(),G=R.G(); Vec qdd=M.llt().solve(tau-C*dq-Vec(G)); JState j2=js; j2.ddq=qdd; RefEval R2(b.a,truth,j2); Mat Md=R2.eval("M_dot"); Vec sd=qdd-ddqr; Vec at=ah-pi; Vec ahd=-gam*(Y.transpose()*s); // Lyapunov identity: Vdot = -s'Kd s
        double Vd=s.dot(M*sd)+0.5*s.dot(Md*s)+at.dot(ahd)/gam; double ex=-s.dot(Kd.cwiseProduct(s)); double sc=1+std::fabs(ex)+s.norm()*(tau.norm()+(M*qdd).norm()+(C*dq).norm()); b.require(std::fabs(Vd-ex)<=1e-7*sc,"lyapunov",fmt("adaptive loop: dV/dt = %.10g, must be %.10g (step %d%s)",Vd,ex,k,anyFault?", after faults":"")); if(anyFault&&!faulty) c.hit("probe.recovered"); ah+=dt*ahd; }
      RefEval R(b.a,truth,js); Vec qdd=R.M().llt().solve(tau-R.C()*dq-Vec(R.G())); dq+=dt*qdd; q+=dt*dq; if(!q.allFinite()||dq.norm()>50) return; }
    c.cnt["sim_us"]+=steps*dt*1e6; c.hit("plant_steps",steps); }
  // C04: motor / link pairs coupled by the reported torques; energy bookkeeping (same step-size rule)
  void oscSim(Bench&b,Rng&r,int steps){ auto sea=b.a.sea(); int e=sea.size(),n=b.a.nj; if(!b.a.elastic||e==0){ if(b.a.Dlo==0) return; }
    JState sv=b.acc; Vec q0=Vec::Zero(n),v0=Vec::Zero(n),x0=Vec::Zero(e),xv0=Vec::Zero(e); for(int i=0;i<n;i++){ q0[i]=r.uni(-.5,.5); v0[i]=r.uni(-2,2);} for(int i=0;i<e;i++){ x0[i]=r.uni(-.5,.5); xv0[i]=r.uni(-2,2);} bool el=b.a.elastic&&e>0; Vec mot=Vec::Ones(e); if(el){ Mat Mm=b.ask("Mm"); for(int i=0;i<e;i++){ b.require(Mm(i,i)>0,"value:Mm","motor inertia not positive"); mot[i]=Mm(i,i)+0.3; } }
    auto tq=[&](const char*nm,int sz)->Vec{ return b.fn.count(nm)?Vec(b.ask(nm)):Vec::Zero(sz); };
    struct D{Vec q,v,x,xv; double w;}; auto f=[&](const Vec&Q,const Vec&V,const Vec&X,const Vec&XV){ b.setState(0,Q); b.setState(1,V); if(el){ b.setState(7,X); b.setState(8,XV);} Vec dl=tq("dl",n),k=el?tq("k",e):Vec::Zero(e),d=el?tq("d",e):Vec::Zero(e),dm=el?tq("dm",e):Vec::Zero(e); D o; o.q=V; o.v=-dl; o.x=XV; o.xv=Vec::Zero(e); o.w=dl.dot(V); if(el) for(int i=0;i<e;i++){ o.v[sea[i]]+=k[i]+d[i]; o.xv[i]=(-k[i]-d[i]-dm[i])/mot[i]; o.w+=d[i]*(XV[i]-V[sea[i]])+dm[i]*XV[i]; } return o; };
    std::string msg; auto sim=[&](int sub)->double{ double dt=1e-3/sub,worst=0,diss=0; Vec q=q0,v=v0,x=x0,xv=xv0;
      auto energy=[&]{ double E=0; for(int i=0;i<n;i++) E+=0.5*v[i]*v[i]; if(el) for(int i=0;i<e;i++){ E+=0.5*mot[i]*xv[i]*xv[i]; double d=x[i]-q[sea[i]]; for(int o=0;o<b.a.Ko;o++) E+=b.eff.v[G_K][i*b.a.Ko+o]*std::pow(d,2*o+2)/(2*o+2);} return E; }; double E0=energy();
      for(int s=0;s<steps*sub;s++){ D a=f(q,v,x,xv),b2=f(q+dt/2*a.q,v+dt/2*a.v,x+dt/2*a.x,xv+dt/2*a.xv),c2=f(q+dt/2*b2.q,v+dt/2*b2.v,x+dt/2*b2.x,xv+dt/2*b2.xv),d2=f(q+dt*c2.q,v+dt*c2.v,x+dt*c2.x,xv+dt*c2.xv); q+=dt/6*(a.q+2*b2.q+2*c2.q+d2.q); v+=dt/6*(a.v+2*b2.v+2*c2.v+d2.v); x+=dt/6*(a.x+2*b2.x+2*c2.x+d2.x); xv+=dt/6*(a.xv+2*b2.xv+2*c2.xv+d2.xv); diss+=dt/6*(a.w+2*b2.w+2*c2.w+d2.w);
        b.require(a.w>=-1e-12,"dissipation:total","friction adds energy"); double E=energy(); double w=std::fabs(E0-diss-E)/(1+E0); if(!(w<1e3)) return worst; if(w>worst){ worst=w; msg=fmt("motor/link energy %.9g, expected %.9g",E,E0-diss); } }
      return worst; };
    double d1=sim(1); b.c.hit("assertions"); if(d1>1e-5){ double d4=sim(4); b.c.hit("refined_integrations"); if(d4>1e-5&&d4>0.3*d1) fail("energy:spring",msg); }
    b.c.cnt["sim_us"]+=steps*1000; b.c.hit("plant_steps",steps); b.setState(0,sv.q); b.setState(1,sv.dq); if(el){ b.setState(7,sv.x); b.setState(8,sv.dx);} }
};
World* makeLoop(const std::string&n){ return new LoopWorld(n); }
}
