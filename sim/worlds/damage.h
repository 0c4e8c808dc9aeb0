#pragma once
// Damage to a YAML file: what editing, merging and interrupted writing do to it.  Deterministic in (text, kind, seed).
#include "bench.h"
#include <cstring>
namespace sim { namespace {
const char*const DMG[]={"drop list element","add list element","drop line","repeat line","swap lines","flip bit","garbage number","zero block","torn write","cut","num_joints","order","misspell key","joint type","drop block","repeat block","retype value","indent","line ends","byte order mark","blank and comment lines","second document","drop two lines","no joints"}; const int NDMG=24;
struct Sel { uint64_t s; size_t operator()(size_t n){ s=mix64(s+0x9e37); return n?s%n:0; } };
std::vector<std::string> split(const std::string&t){ std::vector<std::string> v; size_t b=0; while(b<t.size()){ size_t e=t.find('\n',b); if(e==std::string::npos) e=t.size()-1; v.push_back(t.substr(b,e-b+1)); b=e+1; } return v; }
std::string join(const std::vector<std::string>&v){ std::string s; for(auto&x:v) s+=x; return s; }
size_t indentOf(const std::string&l){ size_t i=0; while(i<l.size()&&l[i]==' ') i++; return i; }
// [b,e): the block that starts at line i (the line and everything indented deeper)
size_t blockEnd(const std::vector<std::string>&v,size_t i){ size_t k=i+1; while(k<v.size()&&indentOf(v[k])>indentOf(v[i])) k++; return k; }
std::string damage(const std::string&t,int kind,uint64_t seed,const std::string&other){ Sel r{seed}; if(t.empty()) return t; std::vector<std::string> L=split(t); auto line=[&]{ return r(L.size()); };
  auto lists=[&]{ std::vector<std::pair<size_t,size_t>> v; for(size_t i=0;i<t.size();i++) if(t[i]=='['){ size_t e=t.find(']',i); if(e!=std::string::npos) v.push_back({i,e}); } return v; };
  auto numbers=[&]{ std::vector<std::pair<size_t,size_t>> v; for(size_t i=0;i<t.size();){ if((isdigit(t[i])||(t[i]=='-'&&i+1<t.size()&&isdigit(t[i+1])))&&(i==0||strchr(" [,",t[i-1]))){ size_t e=i+1; while(e<t.size()&&strchr("0123456789.e+-",t[e])) e++; v.push_back({i,e}); i=e; } else i++; } return v; };
  switch(kind%NDMG){
    case 0: case 1: { auto v=lists(); if(v.empty()) return t; auto p=v[r(v.size())]; std::vector<std::string> el; std::string cur; for(size_t i=p.first+1;i<p.second;i++) if(t[i]==','){ el.push_back(cur); cur.clear(); } else cur+=t[i]; if(!cur.empty()||!el.empty()) el.push_back(cur); if(kind%NDMG==0){ if(el.empty()) return t; el.erase(el.begin()+r(el.size())); } else { std::string n=el.empty()?"0.5":el[r(el.size())]; el.insert(el.begin()+r(el.size()+1),n); } std::string s; for(size_t i=0;i<el.size();i++) s+=(i?",":"")+el[i]; return t.substr(0,p.first+1)+s+t.substr(p.second); }
    case 2: L.erase(L.begin()+line()); return join(L);
    case 3: { size_t i=line(); L.insert(L.begin()+r(L.size()+1),L[i]); return join(L); }
    case 4: { size_t i=line(); std::swap(L[i],L[r(2)?line():std::min(L.size()-1,i+1)]); return join(L); }
    case 5: { std::string x=t; x[r(x.size())]^=1<<r(8); return x; }
    case 6: { auto v=numbers(); if(v.empty()) return t; auto p=v[r(v.size())]; static const char*g[]={"","abc","~","[1]","{a: 1}",".nan",".inf","1e400","-1","0","7","0x10","1_0","1,0","'2'","0.5.5","1e-300","3 4","+1","1.","true"}; return t.substr(0,p.first)+g[r(21)]+t.substr(p.second); }
    case 7: { std::string x=t; size_t b=r(x.size()),n=1+r(r(2)?512:40); for(size_t i=b;i<x.size()&&i<b+n;i++) x[i]=r(8)==0?' ':0; return x; }
    case 8: { size_t b=r(t.size()); if(r(2)){ size_t i=line(); b=0; for(size_t k=0;k<i;k++) b+=L[k].size(); } return t.substr(0,b)+(b<other.size()?other.substr(b):""); }
    case 9: { size_t b=r(t.size()); if(r(2)){ size_t i=line(); b=0; for(size_t k=0;k<=i;k++) b+=L[k].size(); } return t.substr(0,b); }
    case 10: case 11: { std::vector<size_t> c; for(size_t i=0;i<L.size();i++) if(kind%NDMG==10?L[i].find("num_joints:")==0:L[i].find("_order:")!=std::string::npos) c.push_back(i); if(c.empty()) return t; std::string&l=L[c[r(c.size())]]; size_t p=l.find(':'); int v=atoi(l.c_str()+p+1); static const int d[]={1,-1,1,-1,2,-2}; v=r(8)==0?-1-(int)r(2):(r(8)==0?0:v+d[r(6)]); l=l.substr(0,p+1)+" "+std::to_string(v)+"\n"; return join(L); }
    case 12: { std::vector<size_t> c; for(size_t i=0;i<L.size();i++) if(L[i].find(':')!=std::string::npos&&indentOf(L[i])<L[i].find(':')) c.push_back(i); if(c.empty()) return t; std::string&l=L[c[r(c.size())]]; size_t b=indentOf(l),e=l.find(':'); size_t p=b+r(e-b); switch(r(4)){ case 0: l.erase(p,1); break; case 1: l[p]=isupper(l[p])?tolower(l[p]):toupper(l[p]); break; case 2: l.insert(p,1,l[p]); break; default: l[p]=l[p]=='x'?'y':'x'; } return join(L); }
    case 13: { size_t b=t.find("type_joints: ["); if(b==std::string::npos) return t; size_t e=t.find(']',b); std::vector<size_t> c; for(size_t i=b+14;i<e;i++) if(t[i]=='R'||t[i]=='P') if(!isalpha(t[i-1])&&t[i-1]!='_') c.push_back(i); if(c.empty()) return t; size_t p=c[r(c.size())],q=p; while(q<e&&(isalpha(t[q])||t[q]=='_')) q++; static const char*g[]={"X","r","p","R_sea","RP","''","S","R_SEA","P_SEA","R","P","_SEA","R_SEA_","Rx"}; return t.substr(0,p)+g[r(14)]+t.substr(q); }
    case 14: { size_t i=line(); L.erase(L.begin()+i,L.begin()+blockEnd(L,i)); return join(L); }
    case 15: { size_t i=line(),e=blockEnd(L,i); std::vector<std::string> B(L.begin()+i,L.begin()+e); L.insert(L.begin()+(r(2)?e:r(L.size()+1)),B.begin(),B.end()); return join(L); }
    case 16: { std::vector<size_t> c; for(size_t i=0;i<L.size();i++){ size_t p=L[i].find(": "); if(p!=std::string::npos&&p+2<L[i].size()-1) c.push_back(i); } if(c.empty()) return t; std::string&l=L[c[r(c.size())]]; size_t p=l.find(": "); std::string v=l.substr(p+2,l.size()-p-3); switch(r(5)){ case 0: v="["+v+"]"; break; case 1: v="{v: "+v+"}"; break; case 2: v=""; break; case 3: v="~"; break; default: v="\""+v+"\""; } l=l.substr(0,p+2)+v+"\n"; return join(L); }
    case 17: { std::string&l=L[line()]; if(r(2)||l[0]!=' ') l=" "+l; else l=l.substr(1); return join(L); }
    case 18: { std::string x; for(char ch:t){ if(ch=='\n') x+='\r'; x+=ch; } return x; }
    case 19: return "\xEF\xBB\xBF"+t;
    case 20: { for(int i=0;i<4;i++) L.insert(L.begin()+line(),r(2)?"\n":"# note: [not, used]\n"); return join(L); }
    case 21: return r(2)?"---\n"+t:t+"---\n"+other;
    case 22: { L.erase(L.begin()+line()); if(!L.empty()) L.erase(L.begin()+line()); return join(L); }
    default: { for(auto&l:L){ if(l.find("num_joints:")==0) l="num_joints: 0\n"; if(l.find("type_joints:")==0) l="type_joints: []\n"; if(l.find("  DH:")==0) l="  DH: []\n"; } return join(L); } } }
} }
