// Small executable reference model of a serial arm (written from the DH convention and Newton-Euler,
// independent of the code under test).  Templated on the scalar so that truncated Taylor series give exact
// time derivatives and parameter sensitivities.
#pragma once
#include <eigen3/Eigen/Dense>
#include <vector>
#include <string>
#include <array>
#include <stdexcept>
#include <memory>
#include "rng.h"
namespace sim {
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;

// ---- truncated Taylor series c0 + c1 t + c2 t^2 ----
template<int K> struct Tay {
  double c[K+1];
  Tay(double v=0){ c[0]=v; for(int i=1;i<=K;i++) c[i]=0; }
  Tay operator-()const{ Tay r; for(int i=0;i<=K;i++) r.c[i]=-c[i]; return r; }
  Tay& operator+=(const Tay&o){ for(int i=0;i<=K;i++) c[i]+=o.c[i]; return *this; }
  Tay& operator-=(const Tay&o){ for(int i=0;i<=K;i++) c[i]-=o.c[i]; return *this; }
};
template<int K> Tay<K> operator+(Tay<K>a,const Tay<K>&b){ return a+=b; }
template<int K> Tay<K> operator-(Tay<K>a,const Tay<K>&b){ return a-=b; }
template<int K> Tay<K> operator*(const Tay<K>&a,const Tay<K>&b){ Tay<K> r; for(int i=0;i<=K;i++){ double s=0; for(int j=0;j<=i;j++) s+=a.c[j]*b.c[i-j]; r.c[i]=s; } return r; }
template<int K> Tay<K> operator*(double a,const Tay<K>&b){ Tay<K> r; for(int i=0;i<=K;i++) r.c[i]=a*b.c[i]; return r; }
template<int K> void sincosT(const Tay<K>&a,Tay<K>&s,Tay<K>&c){
  s=Tay<K>(std::sin(a.c[0])); c=Tay<K>(std::cos(a.c[0]));
  for(int n=1;n<=K;n++){ double ss=0,cc=0; for(int k=1;k<=n;k++){ ss+=k*a.c[k]*c.c[n-k]; cc+=k*a.c[k]*s.c[n-k]; } s.c[n]=ss/n; c.c[n]=-cc/n; }
}
inline void sincosT(double a,double&s,double&c){ s=std::sin(a); c=std::cos(a); }

template<class S> struct V3 { S v[3]; S&operator[](int i){return v[i];} const S&operator[](int i)const{return v[i];} V3(){ v[0]=S(0);v[1]=S(0);v[2]=S(0);} V3(S a,S b,S c){v[0]=a;v[1]=b;v[2]=c;} };
template<class S> V3<S> operator+(const V3<S>&a,const V3<S>&b){ return V3<S>(a[0]+b[0],a[1]+b[1],a[2]+b[2]); }
template<class S> V3<S> operator-(const V3<S>&a,const V3<S>&b){ return V3<S>(a[0]-b[0],a[1]-b[1],a[2]-b[2]); }
template<class S> V3<S> operator*(const S&s,const V3<S>&b){ return V3<S>(s*b[0],s*b[1],s*b[2]); }
template<class S> V3<S> cross(const V3<S>&a,const V3<S>&b){ return V3<S>(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
template<class S> S dot(const V3<S>&a,const V3<S>&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
template<class S> struct M3 { S m[3][3]; M3(){ for(auto&r:m) for(auto&x:r) x=S(0);} };
template<class S> M3<S> operator*(const M3<S>&a,const M3<S>&b){ M3<S> r; for(int i=0;i<3;i++)for(int j=0;j<3;j++){ S s(0); for(int k=0;k<3;k++) s+=a.m[i][k]*b.m[k][j]; r.m[i][j]=s;} return r; }
template<class S> V3<S> operator*(const M3<S>&a,const V3<S>&b){ V3<S> r; for(int i=0;i<3;i++){ S s(0); for(int k=0;k<3;k++) s+=a.m[i][k]*b[k]; r[i]=s;} return r; }
template<class S> M3<S> tr(const M3<S>&a){ M3<S> r; for(int i=0;i<3;i++)for(int j=0;j<3;j++) r.m[i][j]=a.m[j][i]; return r; }
template<class S> M3<S> rot(int axis,const S&a){ M3<S> R; S s,c; sincosT(a,s,c); int i=axis,j=(axis+1)%3,k=(axis+2)%3; R.m[i][i]=S(1); R.m[j][j]=c; R.m[j][k]=-s; R.m[k][j]=s; R.m[k][k]=c; return R; }
template<class S> V3<S> col(const M3<S>&a,int j){ return V3<S>(a.m[0][j],a.m[1][j],a.m[2][j]); }

// ---- arm description ----
// parameter groups that can be adjustable at run time
static const int G_DH=0,G_BASE=1,G_EE=2,G_GRAV=3,G_DYN=4,G_DL=5,G_K=6,G_D=7,G_DM=8,G_MM=9,NGRP=10;
inline const char* grpName(int g){ static const char*n[]={"par_DHtable","par_world2L0","par_Ln2EE","par_gravity","par_DYN","par_Dl","par_K","par_D","par_Dm","par_Mm"}; return n[g]; }

struct Arm {
  std::string name="arm";
  int nj=1; std::vector<std::string> types;
  bool elastic=false; int Ko=0,Do=0,Dlo=0,Dmo=0;
  std::array<std::vector<double>,NGRP> val;   // configured values (full length)
  std::array<std::vector<int>,NGRP> symb;     // adjustable flags (full length)
  std::array<int,NGRP> symbGiven{};           // flags written in the config (else absent = all fixed)
  bool gravGiven=true;
  int styl=0, quirk=0; // notation of the configuration file, see armYaml
  bool isP(int j)const{ return types[j][0]=='P'; }
  bool isSEA(int j)const{ return types[j].size()>1; }
  std::vector<int> sea()const{ std::vector<int> r; for(int j=0;j<nj;j++) if(isSEA(j)) r.push_back(j); return r; }
  int nej()const{ return (int)sea().size(); }
  int nsym(int g)const{ int n=0; for(int v:symb[g]) n+=v?1:0; return n; }
  bool allSym(int g)const{ return nsym(g)==(int)symb[g].size() && !symb[g].empty(); }
  bool noSym(int g)const{ return nsym(g)==0; }
  int full(int g)const{ return (int)val[g].size(); }
};
// effective values of all parameters = configured, overridden by the adjustable entries' current values
struct Eff { std::array<std::vector<double>,NGRP> v; };

struct JState { Vec q,dq,ddq,d3q,d4q,dqr,ddqr,x,dx,ddx,ddxr,w;
  void zero(int n,int e){ q=dq=ddq=d3q=d4q=dqr=ddqr=Vec::Zero(n); x=dx=ddx=ddxr=Vec::Zero(e); w=Vec::Zero(6); }
  Vec& by(const std::string&s){ if(s=="q")return q; if(s=="dq")return dq; if(s=="ddq")return ddq; if(s=="d3q")return d3q; if(s=="d4q")return d4q; if(s=="dqr")return dqr; if(s=="ddqr")return ddqr; if(s=="x")return x; if(s=="dx")return dx; if(s=="ddx")return ddx; if(s=="ddxr")return ddxr; return w; } };

inline void dyn2reg(const double*d,double*r){ // [m,c,Ixx,Ixy,Ixz,Iyy,Iyz,Izz] about com -> [m,mc,I about origin]
  double m=d[0],x=d[1],y=d[2],z=d[3]; r[0]=m; r[1]=m*x; r[2]=m*y; r[3]=m*z;
  r[4]=d[4]+m*(y*y+z*z); r[5]=d[5]-m*x*y; r[6]=d[6]-m*x*z; r[7]=d[7]+m*(x*x+z*z); r[8]=d[8]-m*y*z; r[9]=d[9]+m*(x*x+y*y); }
inline void reg2dyn(const double*r,double*d){ double m=r[0],x=m?r[1]/m:0,y=m?r[2]/m:0,z=m?r[3]/m:0; d[0]=m; d[1]=x; d[2]=y; d[3]=z;
  d[4]=r[4]-m*(y*y+z*z); d[5]=r[5]+m*x*y; d[6]=r[6]+m*x*z; d[7]=r[7]-m*(x*x+z*z); d[8]=r[8]+m*y*z; d[9]=r[9]-m*(x*x+y*y); }

template<class S> struct Pose { M3<S> R; V3<S> p; };
template<class S> Pose<S> mul(const Pose<S>&a,const Pose<S>&b){ Pose<S> r; r.R=a.R*b.R; r.p=a.p+a.R*b.p; return r; }
template<class S> Pose<S> frame6(const std::vector<S>&f){ Pose<S> r; r.R=rot(2,f[3])*rot(1,f[4])*rot(0,f[5]); r.p=V3<S>(f[0],f[1],f[2]); return r; }

template<class S> struct Model {   // kinematic/dynamic model over scalar S
  int n; std::vector<char> P; std::vector<S> DH,base,ee,grav; std::vector<S> reg,dyn; // reg: 10*n
  Model(const Arm&a,const Eff&e){ n=a.nj; for(int j=0;j<n;j++) P.push_back(a.isP(j));
    cp(e.v[G_DH],DH); cp(e.v[G_BASE],base); cp(e.v[G_EE],ee); cp(e.v[G_GRAV],grav); cp(e.v[G_DYN],dyn);
    reg.assign(10*n,S(0)); for(int i=0;i<n;i++){ double r[10]; dyn2reg(&e.v[G_DYN][10*i],r); for(int k=0;k<10;k++) reg[10*i+k]=S(r[k]); } }
  static void cp(const std::vector<double>&a,std::vector<S>&b){ b.clear(); for(double x:a) b.push_back(S(x)); }
  Pose<S> rel(int i,const S&q)const{ // T_i : frame i-1 -> i  (i from 0)
    S a=DH[4*i],al=DH[4*i+1],d=DH[4*i+2],th=DH[4*i+3]; if(P[i]) d=d+q; else th=th+q;
    Pose<S> A; A.R=rot(0,al); A.p=V3<S>(a,S(0),S(0)); Pose<S> B; B.R=rot(2,th); B.p=V3<S>(S(0),S(0),d); return mul(A,B); }
  // frames[0]=base, frames[i]=joint i, frames[n+1]=ee
  std::vector<Pose<S>> fk(const std::vector<S>&q)const{ std::vector<Pose<S>> f; f.push_back(frame6(base)); for(int i=0;i<n;i++) f.push_back(mul(f.back(),rel(i,q[i]))); f.push_back(mul(f.back(),frame6(ee))); return f; }
  // Jacobian (6 x n, column-major list of (v,w)) of a point p moving with link `link` (0-based)
  void jac(const std::vector<Pose<S>>&f,int link,const V3<S>&p,std::vector<V3<S>>&Jv,std::vector<V3<S>>&Jw)const{
    Jv.assign(n,V3<S>()); Jw.assign(n,V3<S>());
    for(int j=0;j<=link;j++){ V3<S> z=col(f[j+1].R,2); if(P[j]) Jv[j]=z; else { Jv[j]=cross(z,p-f[j+1].p); Jw[j]=z; } } }
  // inverse dynamics by recursive Newton-Euler in world coordinates, linear in reg
  std::vector<S> rnea(const std::vector<Pose<S>>&f,const std::vector<S>&dq,const std::vector<S>&ddq,bool withG,const std::vector<S>&rg)const{
    std::vector<V3<S>> F(n),N(n); V3<S> w,al,a; if(withG) a=V3<S>(-grav[0],-grav[1],-grav[2]);
    for(int i=0;i<n;i++){ V3<S> r=f[i+1].p-f[i].p, z=col(f[i+1].R,2);
      a=a+cross(al,r)+cross(w,cross(w,r));
      if(P[i]){ a=a+ddq[i]*z+S(2)*cross(w,dq[i]*z); } else { al=al+ddq[i]*z+cross(w,dq[i]*z); w=w+dq[i]*z; }
      const S*g=&rg[10*i]; V3<S> h=f[i+1].R*V3<S>(g[1],g[2],g[3]);
      M3<S> I; I.m[0][0]=g[4]; I.m[0][1]=I.m[1][0]=g[5]; I.m[0][2]=I.m[2][0]=g[6]; I.m[1][1]=g[7]; I.m[1][2]=I.m[2][1]=g[8]; I.m[2][2]=g[9];
      M3<S> Iw=f[i+1].R*I*tr(f[i+1].R);
      F[i]=g[0]*a+cross(al,h)+cross(w,cross(w,h)); N[i]=Iw*al+cross(w,Iw*w)+cross(h,a); }
    std::vector<S> tau(n,S(0)); V3<S> fs,ns;
    for(int i=n-1;i>=0;i--){ if(i<n-1) ns=ns+cross(f[i+2].p-f[i+1].p,fs); fs=fs+F[i]; ns=ns+N[i]; V3<S> z=col(f[i+1].R,2); tau[i]=P[i]?dot(z,fs):dot(z,ns); }
    return tau; }
  typedef std::vector<std::vector<S>> MM; // MM[r][c]
  MM mass(const std::vector<Pose<S>>&f,const std::vector<S>&rg)const{ MM m(n,std::vector<S>(n,S(0))); std::vector<S> z(n,S(0)); for(int j=0;j<n;j++){ auto e=z; e[j]=S(1); auto t=rnea(f,z,e,false,rg); for(int i=0;i<n;i++) m[i][j]=t[i]; } return m; }
  std::vector<S> grv(const std::vector<Pose<S>>&f,const std::vector<S>&rg)const{ std::vector<S> z(n,S(0)); return rnea(f,z,z,true,rg); }
  // Christoffel product  Gamma(q)(a,b), by polarisation of the quadratic velocity term
  std::vector<S> chr(const std::vector<Pose<S>>&f,const std::vector<S>&a,const std::vector<S>&b,const std::vector<S>&rg)const{
    std::vector<S> z(n,S(0)),ab(n); for(int i=0;i<n;i++) ab[i]=a[i]+b[i];
    auto x=rnea(f,ab,z,false,rg),y=rnea(f,a,z,false,rg),w=rnea(f,b,z,false,rg); std::vector<S> r(n); for(int i=0;i<n;i++) r[i]=S(0.5)*(x[i]-y[i]-w[i]); return r; }
  MM cor(const std::vector<Pose<S>>&f,const std::vector<S>&dq,const std::vector<S>&rg)const{ MM m(n,std::vector<S>(n,S(0))); for(int j=0;j<n;j++){ std::vector<S> e(n,S(0)); e[j]=S(1); auto t=chr(f,dq,e,rg); for(int i=0;i<n;i++) m[i][j]=t[i]; } return m; }
};
typedef Tay<2> T2; typedef Tay<1> T1;

struct FnInfo { std::string name; int rows,cols; };

inline std::vector<FnInfo> functionsOf(const Arm&a){
  std::vector<FnInfo> f; int n=a.nj,e=a.nej(); auto add=[&](std::string s,int r,int c){ f.push_back({s,r,c}); }; auto S=[](int i){return std::to_string(i);};
  add("T_0",4,4); add("T_0_0",4,4); for(int i=1;i<=n;i++){ add("T_"+S(i),4,4); add("T_0_"+S(i),4,4);} add("T_0_"+S(n+1),4,4); add("T_0_ee",4,4);
  for(int i=1;i<=n+1;i++) add("J_"+S(i),6,n); add("J_ee",6,n); add("J_ee_dot",6,n); add("J_ee_ddot",6,n); add("J_ee_pinv",n,6); for(int i=1;i<=n;i++) add("J_cm_"+S(i),6,n);
  add("M",n,n); add("C",n,n); add("C_std",n,n); add("G",n,1); for(auto s:{"M","C"}){ add(std::string(s)+"_dot",n,n); add(std::string(s)+"_ddot",n,n);} add("G_dot",n,1); add("G_ddot",n,1);
  add("Yr",n,10*n); add("reg_M",n,10*n); add("reg_C",n,10*n); add("reg_G",n,10*n);
  int ks=a.nsym(G_DH)+a.nsym(G_BASE)+a.nsym(G_EE); if(ks){ add("reg_Jdq",6,ks); add("reg_JTw",n,ks); }
  if(a.Dlo>0){ add("dl",n,1); for(int o=1;o<=a.Dlo;o++) add("Dl"+S(o),n,n); if(a.nsym(G_DL)) add("reg_dl",n,a.nsym(G_DL)); }
  if(a.elastic){ if(a.Ko>0){ add("k",e,1); for(int o=0;o<a.Ko;o++) add("K"+S(2*o+1),e,e); if(a.nsym(G_K)) add("reg_k",e,a.nsym(G_K)); }
    if(a.Do>0){ add("d",e,1); for(int o=1;o<=a.Do;o++) add("D"+S(o),e,e); if(a.nsym(G_D)) add("reg_d",e,a.nsym(G_D)); }
    if(a.Dmo>0){ add("dm",e,1); for(int o=1;o<=a.Dmo;o++) add("Dm"+S(o),e,e); if(a.nsym(G_DM)) add("reg_dm",e,a.nsym(G_DM)); }
    add("Mm",e,e); if(a.nsym(G_MM)) add("reg_Mm",e,a.nsym(G_MM)); }
  return f; }

// |v|v^ord-style friction polynomial: sum_o c_o * sign(v)|v|^(o+1)
inline double fric(double v,const double*c,int n){ double s=0,p=std::fabs(v); for(int o=0;o<n;o++){ s+=c[o]*(v<0?-p:p); p*=std::fabs(v);} return s; }
inline double sgnpow(double v,int k){ double p=std::pow(std::fabs(v),k); return v<0?-p:p; }

// Reference evaluation of a named query.  `scale` receives a magnitude for tolerance purposes.
class RefEval {
  const Arm&a; const Eff&e; const JState&s; Model<double> md; std::vector<Pose<double>> f; std::vector<double> q,dq;
  bool t2ok=false; std::vector<Pose<T2>> f2; std::vector<T2> q2,dq2; std::unique_ptr<Model<T2>> m2;
  static std::vector<double> sv(const Vec&v){ return std::vector<double>(v.data(),v.data()+v.size()); }
  void t2(){ if(t2ok) return; t2ok=true; m2.reset(new Model<T2>(a,e)); q2.assign(a.nj,T2()); dq2.assign(a.nj,T2());
    for(int i=0;i<a.nj;i++){ q2[i].c[0]=s.q[i]; q2[i].c[1]=s.dq[i]; q2[i].c[2]=s.ddq[i]/2; dq2[i].c[0]=s.dq[i]; dq2[i].c[1]=s.ddq[i]; dq2[i].c[2]=s.d3q[i]/2; } f2=m2->fk(q2); }
  static Mat m4(const Pose<double>&p){ Mat T=Mat::Zero(4,4); for(int i=0;i<3;i++){ for(int j=0;j<3;j++) T(i,j)=p.R.m[i][j]; T(i,3)=p.p[i]; } T(3,3)=1; return T; }
  template<class S> Mat jmat(const std::vector<V3<S>>&v,const std::vector<V3<S>>&w,int order)const{ Mat J(6,a.nj); double fct=order==2?2:1; for(int j=0;j<a.nj;j++) for(int i=0;i<3;i++){ J(i,j)=cf(v[j][i],order)*fct; J(i+3,j)=cf(w[j][i],order)*fct; } return J; }
  static double cf(double x,int){ return x; }
  template<int K> static double cf(const Tay<K>&x,int o){ return x.c[o]; }
  template<class X> Mat mm(const X&m,int order)const{ int r=m.size(),c=m[0].size(); Mat M(r,c); for(int i=0;i<r;i++)for(int j=0;j<c;j++) M(i,j)=cf(m[i][j],order)*(order==2?2:1); return M; }
  template<class X> Mat vv(const X&m,int order)const{ int r=m.size(); Mat M(r,1); for(int i=0;i<r;i++) M(i,0)=cf(m[i],order)*(order==2?2:1); return M; }
public:
  RefEval(const Arm&a_,const Eff&e_,const JState&s_):a(a_),e(e_),s(s_),md(a_,e_){ q=sv(s.q); dq=sv(s.dq); f=md.fk(q); }
  const std::vector<Pose<double>>& frames(){ return f; }
  Model<double>& model(){ return md; }
  Mat jac(int link,const V3<double>&p){ std::vector<V3<double>> v,w; md.jac(f,link,p,v,w); return jmat(v,w,0); }
  Mat M(){ return mm(md.mass(f,md.reg),0); }
  Mat C(){ return mm(md.cor(f,dq,md.reg),0); }
  Mat G(){ return vv(md.grv(f,md.reg),0); }
  Mat diagO(int g,int n,int ord,int o){ Mat m=Mat::Zero(n,n); for(int i=0;i<n;i++) m(i,i)=e.v[g][i*ord+o]; return m; }
  double energyKin(){ Vec v=s.dq; return 0.5*v.dot(M()*v); }
  double energyPot(){ double U=0; for(int i=0;i<a.nj;i++){ const double*d=&e.v[G_DYN][10*i]; V3<double> c=f[i+1].p+f[i+1].R*V3<double>(d[1],d[2],d[3]); for(int k=0;k<3;k++) U-=d[0]*e.v[G_GRAV][k]*c[k]; } return U; }
  // kinetic energy computed body by body from velocities (not via the mass matrix)
  double energyKinBodies(){ double K=0; for(int i=0;i<a.nj;i++){ const double*d=&e.v[G_DYN][10*i]; V3<double> c=f[i+1].p+f[i+1].R*V3<double>(d[1],d[2],d[3]); Mat J=jac(i,c); Vec v=J*s.dq; Eigen::Matrix3d R,I; for(int r=0;r<3;r++)for(int k=0;k<3;k++) R(r,k)=f[i+1].R.m[r][k]; I<<d[4],d[5],d[6],d[5],d[7],d[8],d[6],d[8],d[9]; Eigen::Vector3d w=R.transpose()*v.tail(3); K+=0.5*d[0]*v.head(3).squaredNorm()+0.5*w.dot(I*w);} return K; }
  Mat eval(const std::string&nm){
    int n=a.nj; auto sea=a.sea(); int ne=sea.size();
    auto num=[&](size_t k){ return std::stoi(nm.substr(k)); };
    if(nm=="T_0"||nm=="T_0_0") return m4(f[0]);
    if(nm=="T_0_ee") return m4(f[n+1]);
    if(nm.rfind("T_0_",0)==0) return m4(f[num(4)]);
    if(nm.rfind("T_",0)==0){ int i=num(2); return m4(md.rel(i-1,q[i-1])); }
    if(nm.rfind("J_cm_",0)==0){ int i=num(5); const double*d=&e.v[G_DYN][10*(i-1)]; return jac(i-1,f[i].p+f[i].R*V3<double>(d[1],d[2],d[3])); }
    if(nm=="J_ee") return jac(n-1,f[n+1].p);
    if(nm=="J_ee_dot"||nm=="J_ee_ddot"){ t2(); std::vector<V3<T2>> v,w; m2->jac(f2,n-1,f2[n+1].p,v,w); return jmat(v,w,nm=="J_ee_dot"?1:2); }
    if(nm=="J_ee_pinv"){ Mat J=jac(n-1,f[n+1].p); return J.transpose()*(J*J.transpose()+0.02*Mat::Identity(6,6)).inverse(); }
    if(nm.rfind("J_",0)==0){ int i=num(2); return i<=n? jac(i-1,f[i].p): jac(n-1,f[n+1].p); }
    if(nm=="M") return M(); if(nm=="C"||nm=="C_std") return C(); if(nm=="G") return G();
    if(nm=="M_dot"||nm=="M_ddot"){ t2(); return mm(m2->mass(f2,m2->reg),nm=="M_dot"?1:2); }
    if(nm=="C_dot"||nm=="C_ddot"){ t2(); return mm(m2->cor(f2,dq2,m2->reg),nm=="C_dot"?1:2); }
    if(nm=="G_dot"||nm=="G_ddot"){ t2(); return vv(m2->grv(f2,m2->reg),nm=="G_dot"?1:2); }
    if(nm=="Yr"||nm=="reg_M"||nm=="reg_C"||nm=="reg_G"){ Mat Y=Mat::Zero(n,10*n); std::vector<double> z(n,0.0),dqr=sv(s.dqr),ddqr=sv(s.ddqr);
      for(int p=0;p<10*n;p++){ std::vector<double> u(10*n,0.0); u[p]=1; Vec t=Vec::Zero(n);
        if(nm=="Yr"||nm=="reg_M"){ auto r=md.rnea(f,z,ddqr,false,u); for(int i=0;i<n;i++) t[i]+=r[i]; }
        if(nm=="Yr"||nm=="reg_C"){ auto r=md.chr(f,dq,dqr,u); for(int i=0;i<n;i++) t[i]+=r[i]; }
        if(nm=="Yr"||nm=="reg_G"){ auto r=md.grv(f,u); for(int i=0;i<n;i++) t[i]+=r[i]; }
        Y.col(p)=t; } return Y; }
    if(nm=="reg_Jdq"||nm=="reg_JTw"){ std::vector<Vec> cols; for(int g:{G_DH,G_BASE,G_EE}) for(int i=0;i<a.full(g);i++) if(a.symb[g][i]){
        Model<T1> m1(a,e); std::vector<T1>& P=g==G_DH?m1.DH:(g==G_BASE?m1.base:m1.ee); P[i].c[1]=1; std::vector<T1> q1; for(double x:q) q1.push_back(T1(x)); auto f1=m1.fk(q1); std::vector<V3<T1>> v,w; m1.jac(f1,n-1,f1[n+1].p,v,w); Mat dJ=jmat(v,w,1);
        cols.push_back(nm=="reg_Jdq"? Vec(dJ*s.dq): Vec(dJ.transpose()*s.w)); }
      Mat R(nm=="reg_Jdq"?6:n,cols.size()); for(size_t i=0;i<cols.size();i++) R.col(i)=cols[i]; return R; }
    // friction / elastic
    if(nm=="dl"){ Mat r(n,1); for(int i=0;i<n;i++) r(i,0)=fric(s.dq[i],&e.v[G_DL][i*a.Dlo],a.Dlo); return r; }
    if(nm=="k"){ Mat r(ne,1); for(int i=0;i<ne;i++){ double dl=s.x[i]-s.q[sea[i]],v=0; for(int o=0;o<a.Ko;o++) v+=e.v[G_K][i*a.Ko+o]*std::pow(dl,2*o+1); r(i,0)=v;} return r; }
    if(nm=="d"){ Mat r(ne,1); for(int i=0;i<ne;i++) r(i,0)=fric(s.dx[i]-s.dq[sea[i]],&e.v[G_D][i*a.Do],a.Do); return r; }
    if(nm=="dm"){ Mat r(ne,1); for(int i=0;i<ne;i++) r(i,0)=fric(s.dx[i],&e.v[G_DM][i*a.Dmo],a.Dmo); return r; }
    if(nm=="Mm") return diagO(G_MM,ne,1,0);
    if(nm=="reg_dl") return regPoly(G_DL,n,a.Dlo,[&](int i,int o){ return sgnpow(s.dq[i],o+1); });
    if(nm=="reg_k") return regPoly(G_K,ne,a.Ko,[&](int i,int o){ return std::pow(s.x[i]-s.q[sea[i]],2*o+1); });
    if(nm=="reg_d") return regPoly(G_D,ne,a.Do,[&](int i,int o){ return sgnpow(s.dx[i]-s.dq[sea[i]],o+1); });
    if(nm=="reg_dm") return regPoly(G_DM,ne,a.Dmo,[&](int i,int o){ return sgnpow(s.dx[i],o+1); });
    if(nm=="reg_Mm") return regPoly(G_MM,ne,1,[&](int i,int){ return s.ddx[i]; });
    if(nm.rfind("Dl",0)==0) return diagO(G_DL,n,a.Dlo,num(2)-1);
    if(nm.rfind("Dm",0)==0) return diagO(G_DM,ne,a.Dmo,num(2)-1);
    if(nm.rfind("K",0)==0) return diagO(G_K,ne,a.Ko,(num(1)-1)/2);
    if(nm.rfind("D",0)==0) return diagO(G_D,ne,a.Do,num(1)-1);
    throw std::runtime_error("reference: unknown query "+nm);
  }
  template<class F> Mat regPoly(int g,int rows,int ord,F fn){ int c=a.nsym(g); Mat R=Mat::Zero(rows,c); int k=0; for(int i=0;i<rows;i++) for(int o=0;o<ord;o++) if(a.symb[g][i*ord+o]) R(i,k++)=fn(i,o); return R; }
};
}
