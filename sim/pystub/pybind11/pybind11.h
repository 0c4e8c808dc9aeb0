// Stand-in for pybind11 (which is not installed): PYBIND11_MODULE, class_, init, def, arg with the documented calling
// rules - positional, keyword and default arguments, first matching overload, conversion errors - but recording into a
// C++ registry instead of a Python interpreter.
#pragma once
#include <eigen3/Eigen/Dense>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
namespace pybind11 {
struct value { enum K { none, boolean, integer, real, str, arr } k=none; double d=0; long i=0; std::string s; Eigen::MatrixXd m; bool oneD=false;
  value(){} value(bool b):k(boolean),i(b){} value(int x):k(integer),i(x){} value(long x):k(integer),i(x){} value(size_t x):k(integer),i((long)x){} value(double x):k(real),d(x){} value(const char*x):k(str),s(x){} value(const std::string&x):k(str),s(x){} value(const Eigen::VectorXd&x):k(arr),m(x),oneD(true){} value(const Eigen::MatrixXd&x):k(arr),m(x){}
  template<class D> value(const Eigen::MatrixBase<D>&x):k(arr),m(x),oneD(D::IsVectorAtCompileTime){}
  template<class T> value(const std::vector<T>&x):k(arr),m(x.size(),1),oneD(true){ for(size_t j=0;j<x.size();j++) m(j,0)=x[j]; } };
struct type_error: std::runtime_error { type_error(const std::string&s=""):std::runtime_error("TypeError: "+s){} };
struct object { value v; }; struct none:object{}; typedef object handle; struct str:object{ str(const char*s=""){ v=value(s);} }; struct dict:object{}; struct list:object{}; struct tuple:object{}; struct kwargs:object{}; struct args:object{};
namespace detail {
  template<class A,class=void> struct caster; // loads a C++ argument of (decayed) type A
  template<> struct caster<bool>{ bool h; bool load(const value&v){ if(v.k!=value::boolean) return false; h=v.i; return true; } bool&get(){ return h; } };
  template<class A> struct caster<A,std::enable_if_t<std::is_integral<A>::value&&!std::is_same<A,bool>::value>>{ A h; bool load(const value&v){ if(v.k!=value::integer&&v.k!=value::boolean) return false; h=(A)v.i; return true; } A&get(){ return h; } };
  template<class A> struct caster<A,std::enable_if_t<std::is_floating_point<A>::value>>{ A h; bool load(const value&v){ if(v.k==value::real) h=(A)v.d; else if(v.k==value::integer||v.k==value::boolean) h=(A)v.i; else return false; return true; } A&get(){ return h; } };
  template<> struct caster<std::string>{ std::string h; bool load(const value&v){ if(v.k!=value::str) return false; h=v.s; return true; } std::string&get(){ return h; } };
  template<> struct caster<const char*>{ std::string s; const char*h; bool load(const value&v){ if(v.k!=value::str) return false; s=v.s; h=s.c_str(); return true; } const char*&get(){ return h; } };
  template<class T> struct caster<std::vector<T>>{ std::vector<T> h; bool load(const value&v){ if(v.k!=value::arr||(v.m.cols()!=1&&v.m.size())) return false; h.resize(v.m.size()); for(size_t j=0;j<h.size();j++) h[j]=(T)v.m.data()[j]; return true; } std::vector<T>&get(){ return h; } };
  template<class A> struct plain { typedef A t; };
  template<class P,int O,class S> struct plain<Eigen::Ref<P,O,S>> { typedef std::remove_const_t<P> t; };
  template<class A> struct isEigen { template<class D> static std::true_type f(const Eigen::EigenBase<D>*); static std::false_type f(...); static constexpr bool value=decltype(f((A*)nullptr))::value; };
  template<class A> struct caster<A,std::enable_if_t<isEigen<A>::value>>{ typedef typename plain<A>::t P; P h; bool load(const value&v){ if(v.k!=value::arr) return false; Eigen::MatrixXd m=v.m; constexpr int R=P::RowsAtCompileTime,C=P::ColsAtCompileTime; if(P::IsVectorAtCompileTime){ if(m.cols()!=1&&m.rows()!=1&&m.size()) return false; if(C==1&&m.cols()!=1) m=m.transpose().eval(); if(R==1&&C!=1&&m.rows()!=1) m=m.transpose().eval(); if(!m.size()) m.resize(R==1?1:0,R==1?0:1); } if((R!=Eigen::Dynamic&&m.rows()!=R)||(C!=Eigen::Dynamic&&m.cols()!=C)) return false; h=m; return true; } P&get(){ return h; } };
  template<class R> value ret(R&&r){ return value(std::forward<R>(r)); }
  inline value ret(object&o){ return o.v; }
}
struct arg_v; struct arg { const char*name; explicit arg(const char*n):name(n){} template<class T> arg_v operator=(T&&x)const; arg&noconvert(bool=true){ return *this; } arg&none(bool=true){ return *this; } };
struct arg_v { const char*name; value v; std::string descr; template<class T> arg_v(const char*n,T&&x,const char* =nullptr):name(n),v(std::forward<T>(x)){} template<class T> arg_v(const arg&a,T&&x):name(a.name),v(std::forward<T>(x)){} arg_v&noconvert(bool=true){ return *this; } };
template<class T> arg_v arg::operator=(T&&x)const{ return arg_v(name,std::forward<T>(x)); }
inline namespace literals { inline arg operator""_a(const char*n,size_t){ return arg(n); } }
struct param { std::string name; bool hasDefault=false; value def; };
struct method { std::vector<param> par; size_t arity=0; std::function<bool(void*,std::vector<value>&,value&)> call; std::string doc; };
struct klass { std::string name; std::function<std::shared_ptr<void>()> make; std::map<std::string,std::vector<method>> methods; std::map<std::string,std::function<value(void*)>> attrs; };
struct module_ { std::string name,docs; std::map<std::string,klass> classes; std::string&doc(){ return docs; } module_&def_submodule(const char*,const char* ="") { return *this; } template<class...X> module_&def(const char*,X&&...){ return *this; } struct acc { template<class T> acc&operator=(T&&){ return *this; } }; acc attr(const char*){ return acc(); } };
typedef module_ module;
struct registry { typedef void(*Init)(module_&); std::map<std::string,Init> inits; std::map<std::string,std::unique_ptr<module_>> loaded; std::map<std::string,int> count; static registry&get(){ static registry r; return r; }
  module_*import(const std::string&n){ auto&l=loaded[n]; if(!l){ auto i=inits.find(n); if(i==inits.end()) return nullptr; l.reset(new module_); l->name=n; i->second(*l); } return l.get(); } };
struct registrar { registrar(const char*n,registry::Init f){ registry::get().inits[n]=f; registry::get().count[n]++; } };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template<class...> struct call_guard {}; struct gil_scoped_release {}; struct gil_scoped_acquire {}; struct scoped_ostream_redirect {}; struct scoped_estream_redirect {}; template<size_t,size_t> struct keep_alive {}; struct kw_only {}; struct pos_only {}; struct is_operator {}; struct dynamic_attr {}; struct module_local { module_local(bool=true){} }; struct options { options&disable_function_signatures(){ return *this; } options&disable_user_defined_docstrings(){ return *this; } options&enable_function_signatures(){ return *this; } };
struct is_method { template<class T> is_method(const T&){} }; struct sibling { template<class T> sibling(const T&){} }; struct doc_ { const char*s; }; typedef doc_ doc;
namespace detail {
  inline void extra(method&m,const arg&a){ m.par.push_back({a.name,false,value()}); }
  inline void extra(method&m,const arg_v&a){ m.par.push_back({a.name,true,a.v}); }
  inline void extra(method&m,const char*d){ m.doc=d; }
  inline void extra(method&m,const doc_&d){ m.doc=d.s; }
  template<class T,std::enable_if_t<!std::is_convertible<const T&,const char*>::value&&!std::is_base_of<arg,T>::value&&!std::is_base_of<arg_v,T>::value&&!std::is_base_of<doc_,T>::value,int> =0> void extra(method&,const T&){}
  template<class A> A pass(caster<std::decay_t<A>>&c){ return static_cast<A>(c.get()); }
  template<class C,class R,class...A> struct invoker { template<class F> static method make(F f){ method m; m.arity=sizeof...(A); m.call=[f](void*self,std::vector<value>&v,value&out){ return go(f,self,v,out,std::index_sequence_for<A...>()); }; return m; }
    template<class F,size_t...I> static bool go(const F&f,void*self,std::vector<value>&v,value&out,std::index_sequence<I...>){ std::tuple<caster<std::decay_t<A>>...> c; bool ok=true; (void)v; using x=int[]; (void)x{0,((ok=ok&&std::get<I>(c).load(v[I])),0)...}; if(!ok) return false; if constexpr(std::is_void<R>::value){ f((C*)self,pass<A>(std::get<I>(c))...); out=value(); } else { decltype(auto) r=f((C*)self,pass<A>(std::get<I>(c))...); out=ret(std::forward<decltype(r)>(r)); } return true; } };
  template<class T,class F> struct wrapLambda;
  template<class T,class L,class R,class S,class...A> method fromCall(L l,R(L::*)(S,A...)const){ return invoker<T,R,A...>::make([l](T*s,A...a)->R{ if constexpr(std::is_pointer<S>::value) return l(s,std::forward<A>(a)...); else return l(*s,std::forward<A>(a)...); }); }
  template<class T,class L,class R,class S,class...A> method fromCall(L l,R(L::*)(S,A...)){ return invoker<T,R,A...>::make([l](T*s,A...a)mutable->R{ if constexpr(std::is_pointer<S>::value) return l(s,std::forward<A>(a)...); else return l(*s,std::forward<A>(a)...); }); }
  template<class T,class L> method wrap(L l){ return fromCall<T>(l,&L::operator()); }
  template<class T,class C,class R,class...A> method wrap(R(C::*f)(A...)){ return invoker<T,R,A...>::make([f](T*s,A...a)->R{ return (static_cast<C*>(s)->*f)(std::forward<A>(a)...); }); }
  template<class T,class C,class R,class...A> method wrap(R(C::*f)(A...)const){ return invoker<T,R,A...>::make([f](T*s,A...a)->R{ return (static_cast<const C*>(s)->*f)(std::forward<A>(a)...); }); }
  template<class T,class R,class S,class...A> method wrap(R(*f)(S,A...)){ return invoker<T,R,A...>::make([f](T*s,A...a)->R{ if constexpr(std::is_pointer<S>::value) return f(s,std::forward<A>(a)...); else return f(*s,std::forward<A>(a)...); }); }
}
template<class...A> struct init_t { }; template<class...A> init_t<A...> init(){ return {}; } template<class F> struct init_f { F f; }; template<class F> init_f<F> init(F f){ return {f}; }
template<class...A> struct overload_cast_t { template<class R,class C> constexpr auto operator()(R(C::*f)(A...))const{ return f; } template<class R,class C> constexpr auto operator()(R(C::*f)(A...)const,std::true_type)const{ return f; } }; template<class...A> constexpr overload_cast_t<A...> overload_cast{};
template<class T,class...Opt> struct class_ { klass*k; 
  template<class...X> class_(module_&m,const char*n,const X&...){ k=&m.classes[n]; k->name=n; }
  template<class...A,class...X> class_&def(init_t<A...>,const X&...){ if constexpr(sizeof...(A)==0) k->make=[]{ return std::shared_ptr<void>(new T(),[](void*p){ delete (T*)p; }); }; return *this; }
  template<class F,class...X> class_&def(init_f<F> f,const X&...){ if constexpr(std::is_invocable<F>::value) k->make=[f]{ return std::shared_ptr<void>(new T(*std::unique_ptr<T>(new T(f.f()))),[](void*p){ delete (T*)p; }); }; return *this; }
  template<class F,class...X> class_&def(const char*n,F f,const X&...x){ method m=detail::wrap<T>(f); using e=int[]; (void)e{0,(detail::extra(m,x),0)...}; k->methods[n].push_back(m); return *this; }
  template<class M,class...X> class_&def_readonly(const char*n,M T::*p,const X&...){ k->attrs[n]=[p](void*s){ return detail::ret(((T*)s)->*p); }; return *this; }
  template<class M,class...X> class_&def_readwrite(const char*n,M T::*p,const X&...x){ return def_readonly(n,p,x...); }
  template<class G,class...X> class_&def_property_readonly(const char*n,G g,const X&...){ method m=detail::wrap<T>(g); k->attrs[n]=[m](void*s){ std::vector<value> a; value v; m.call(s,a,v); return v; }; return *this; }
  template<class G,class S,class...X> class_&def_property(const char*n,G g,S,const X&...x){ return def_property_readonly(n,g,x...); }
  template<class F,class...X> class_&def_static(const char*,F,const X&...){ return *this; }
  module_::acc attr(const char*){ return {}; } };
// a bound call as the interpreter resolves it
inline value call(klass&k,void*self,const std::string&n,const std::vector<value>&pos,const std::map<std::string,value>&kw={}){
  auto it=k.methods.find(n); if(it==k.methods.end()) throw std::runtime_error("AttributeError: "+n);
  for(auto&m:it->second){ if(!m.par.empty()&&m.par.size()!=m.arity) throw std::logic_error(n+": named arguments do not match its parameters"); if(pos.size()>m.arity) continue; std::vector<value> a(pos); bool ok=true; size_t used=0; for(size_t i=pos.size();i<m.arity&&ok;i++){ if(m.par.empty()){ ok=false; break; } auto q=kw.find(m.par[i].name); if(q!=kw.end()){ a.push_back(q->second); used++; } else if(m.par[i].hasDefault) a.push_back(m.par[i].def); else ok=false; } if(!ok||used!=kw.size()) continue; value out; if(m.call(self,a,out)) return out; }
  throw type_error(n+"(): incompatible arguments"); }
}
#define PYBIND11_MODULE(name,var,...) static void pybind11_init_##name(::pybind11::module_&); static ::pybind11::registrar pybind11_reg_##name(#name,&pybind11_init_##name); static void pybind11_init_##name(::pybind11::module_&var)
