#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simdisk.h"
#include "rng.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <algorithm>
namespace sim {
const char*const diskCls[DO_NCLS]={"open-read","open-write","read","write","close","stat","mkdir","sendfile","meta"};
const char*const faultKind[FK_NK]={"open_fail","read_eio","write_error","close_error","stat_error","mkdir_error","sendfile_error","short_io","eintr","disk_full","crash","meta_error"};
static bool on=false; static DiskCfg C; static DiskShared*S=nullptr; static Rng R(1); static long fullLeft=-1,quotaLeft=0; static uint64_t tick=0;
static std::string baseFrom,baseTo;
struct FdI{ bool used=false,wr=false; int path=-1; }; static FdI fds[1024];
static bool stickyHit[DO_NCLS][512];
struct Guard{ static int depth; bool in; Guard(){ in=depth++>0; } ~Guard(){ depth--; } }; int Guard::depth=0;
template<class F> static F real(F&f,const char*n){ if(!f) f=(F)dlsym(RTLD_NEXT,n); return f; }
static std::string redirectPath(const char*p){ std::string s(p?p:""); if(!baseFrom.empty()&&s.compare(0,baseFrom.size(),baseFrom)==0) s=baseTo+s.substr(baseFrom.size()); if(on) for(auto&r:C.redirect) if(s.compare(0,r.first.size(),r.first)==0){ s=r.second+s.substr(r.first.size()); break; } return s; }
static int track(const std::string&p0){ if(!on) return -1; std::string p=p0; if(p.empty()) return -1; if(p[0]!='/'){ char b[4096]; if(!getcwd(b,sizeof b)) return -1; p=std::string(b)+"/"+p; }
  // normalise // /./ and /../
  std::vector<std::string> part; size_t i=0; while(i<p.size()){ size_t j=p.find('/',i); if(j==std::string::npos) j=p.size(); std::string t=p.substr(i,j-i); i=j+1; if(t.empty()||t==".") continue; if(t==".."){ if(!part.empty()) part.pop_back(); continue; } part.push_back(t);} std::string n; for(auto&t:part) n+="/"+t;
  for(size_t k=0;k<C.roots.size();k++){ auto&r=C.roots[k]; if(n.compare(0,r.size(),r)==0&&(n.size()==r.size()||n[r.size()]=='/')){ std::string rel=std::to_string(k)+n.substr(r.size()); for(long x=0;x<S->npath;x++) if(rel==S->path[x]) return x; if(S->npath>=512||rel.size()>=240) return 511; strcpy(S->path[S->npath],rel.c_str()); return S->npath++; } }
  return -1; }
struct Dec{ int err=0; long n=-1; };   // err!=0: fail with it; n>=0: only n bytes
static void note(int cls,int path,bool wr,long n,int err){ if(S->nlog<8192) S->log[S->nlog]={(signed char)cls,(unsigned char)wr,(short)err,(int)n,path}; S->nlog++; S->hash=mix64(S->hash^((uint64_t)cls<<56^(uint64_t)path<<40^(uint64_t)err<<32^(uint64_t)(uint32_t)n)); }
static void inject(int k){ S->injected++; S->kinds[k]++; }
static void die(){ inject(FK_CRASH); _exit(137); }
static Dec decide(int cls,int path,bool wr,long len,int fd=-1,const char*data=nullptr){
  if(C.gateWr>=0){ char b='.'; static ssize_t(*rw)(int,const void*,size_t); static ssize_t(*rr)(int,void*,size_t); real(rw,"write"); real(rr,"read"); rw(C.gateWr,&b,1); if(rr(C.gateRd,&b,1)!=1) _exit(99); }
  long k=S->ops++; long kc=S->byCls[cls]++; Dec d; tick+=1000;
  if(k==C.crashAt){ if(cls==DO_WRITE&&data&&len>0){ long m=C.crashPart>=0?C.crashPart%(len+1):0; static ssize_t(*rw)(int,const void*,size_t); real(rw,"write"); long o=0; while(o<m){ ssize_t w=rw(fd,data+o,m-o); if(w<=0) break; o+=w; } } note(cls,path,wr,len,1000); die(); }
  bool hitNow=k==C.failAt||(cls==C.failCls&&kc==C.failNth); if(hitNow||(path>=0&&stickyHit[cls][path])){ if(hitNow&&C.sticky&&path>=0) stickyHit[cls][path]=true; static const int oe[]={EACCES,EMFILE,EIO,ENOENT},owe[]={EACCES,ENOSPC,EIO,EMFILE,EROFS},we[]={ENOSPC,EIO,EDQUOT,EFBIG}; long s=C.failSel;
    switch(cls){ case DO_OPENR: d.err=oe[s%4]; inject(FK_OPENFAIL); break; case DO_OPENW: d.err=owe[s%5]; inject(FK_OPENFAIL); break; case DO_READ: d.err=EIO; inject(FK_READEIO); break;
      case DO_WRITE: if((s/8)%2&&hitNow&&len>1){ d.n=s%len; stickyHit[cls][path]=true; if(d.n==0) d.err=we[s%4]; } else d.err=we[s%4]; inject(FK_WRITEERR); break;
      case DO_CLOSE: if(wr){ d.err=(s%2)?EIO:ENOSPC; inject(FK_CLOSEERR);} break; case DO_STAT: d.err=(s%2)?EIO:EACCES; inject(FK_STATERR); break; case DO_MKDIR: { static const int me[]={EACCES,ENOSPC,EROFS,EIO}; d.err=me[s%4]; inject(FK_MKDIRERR); break; }
      case DO_SENDFILE: if((s/8)%2&&len>1){ d.n=1+s%(len-1); stickyHit[cls][path]=true; } else { d.err=(s%2)?EIO:ENOSPC; } inject(FK_SENDERR); break; case DO_META: d.err=EPERM; inject(FK_METAERR); break; }
    if(d.err) note(cls,path,wr,len,d.err); else note(cls,path,wr,d.n,0); return d; }
  if((cls==DO_WRITE||cls==DO_SENDFILE)&&path>=0&&C.quota>=0){ std::string rel=S->path[path]; if(rel.size()>=C.quotaPath.size()&&rel.compare(rel.size()-C.quotaPath.size(),std::string::npos,C.quotaPath)==0){ if(len>quotaLeft){ inject(FK_FULL); if(quotaLeft==0) d.err=ENOSPC; else { d.n=quotaLeft; quotaLeft=0; } note(cls,path,wr,d.n,d.err); return d; } quotaLeft-=len; } }
  if(cls==DO_WRITE||cls==DO_SENDFILE){ if(fullLeft>=0){ if(len>fullLeft){ inject(FK_FULL); if(fullLeft==0) d.err=ENOSPC; else { d.n=fullLeft; fullLeft=0; } note(cls,path,wr,d.n,d.err); return d; } fullLeft-=len; } }
  else if(cls==DO_MKDIR&&fullLeft==0){ inject(FK_FULL); d.err=ENOSPC; note(cls,path,wr,len,d.err); return d; }
  if(cls==DO_READ||cls==DO_WRITE||cls==DO_SENDFILE){ if(C.pEintr>0&&R.chance(C.pEintr)&&cls!=DO_SENDFILE){ inject(FK_EINTR); d.err=EINTR; note(cls,path,wr,len,EINTR); return d; } if(C.pShort>0&&len>1&&R.chance(C.pShort)){ inject(FK_SHORT); d.n=1+R.below(len-1); note(cls,path,wr,d.n,0); return d; } }
  note(cls,path,wr,len,0); return d; }
void diskStart(const DiskCfg&c,DiskShared*s){ C=c; S=s; R=Rng(c.seed); fullLeft=c.budget; quotaLeft=c.quota; tick=0; memset(stickyHit,0,sizeof stickyHit); for(auto&f:fds) f=FdI(); on=true; }
void diskStop(){ on=false; if(S) S->ended=1; }
bool diskOn(){ return on; }
DiskShared* newShared(){ void*p=mmap(nullptr,sizeof(DiskShared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); return p==MAP_FAILED?nullptr:(DiskShared*)p; }
void freeShared(DiskShared*s){ munmap(s,sizeof *s); }
void setBaseRedirect(const std::string&f,const std::string&t){ baseFrom=f; baseTo=t; }
static void reg(int fd,int path,bool wr){ if(fd>=0&&fd<1024&&path>=0){ fds[fd].used=true; fds[fd].wr=wr; fds[fd].path=path; if(wr) S->written[path]=1; } }
static FdI* fi(int fd){ return on&&fd>=0&&fd<1024&&fds[fd].used&&Guard::depth==0?&fds[fd]:nullptr; }
static int openCommon(int dirfd,const char*path,int flags,mode_t mode,bool at){
  static int(*ro)(int,const char*,int,...); real(ro,"openat"); std::string p=redirectPath(path); int t=Guard::depth?-1:((!at||dirfd==AT_FDCWD||p[0]=='/')?track(p):-1); bool wr=(flags&O_ACCMODE)!=O_RDONLY; if(t>=0&&(flags&O_DIRECTORY)) t=-1;
  if(t>=0){ Dec d=decide(wr?DO_OPENW:DO_OPENR,t,wr,0); if(d.err){ errno=d.err; return -1; } }
  int fd=ro(dirfd,p.c_str(),flags,mode); if(t>=0) reg(fd,t,wr); return fd; }
static FILE* fopenCommon(const char*nm,const char*path,const char*mode){
  static FILE*(*rf)(const char*,const char*); real(rf,"fopen"); std::string p=redirectPath(path); int t=Guard::depth?-1:track(p); bool wr=strpbrk(mode,"wa+")!=nullptr; (void)nm;
  if(t>=0){ Dec d=decide(wr?DO_OPENW:DO_OPENR,t,wr,0); if(d.err){ errno=d.err; return nullptr; } }
  Guard g; FILE*f=rf(p.c_str(),mode); if(f&&t>=0) reg(fileno(f),t,wr); return f; }
static int closeDec(int fd){ FdI*f=fi(fd); if(!f){ if(fd>=0&&fd<1024) fds[fd].used=false; return 0; } Dec d=decide(DO_CLOSE,f->path,f->wr,0); f->used=false; return d.err; }
}
using namespace sim;
extern "C" {
int open(const char*p,int fl,...){ va_list v; va_start(v,fl); mode_t m=va_arg(v,int); va_end(v); return openCommon(AT_FDCWD,p,fl,m,false); }
int open64(const char*p,int fl,...){ va_list v; va_start(v,fl); mode_t m=va_arg(v,int); va_end(v); return openCommon(AT_FDCWD,p,fl,m,false); }
int openat(int d,const char*p,int fl,...){ va_list v; va_start(v,fl); mode_t m=va_arg(v,int); va_end(v); return openCommon(d,p,fl,m,true); }
int openat64(int d,const char*p,int fl,...){ va_list v; va_start(v,fl); mode_t m=va_arg(v,int); va_end(v); return openCommon(d,p,fl,m,true); }
int __open_2(const char*p,int fl){ return openCommon(AT_FDCWD,p,fl,0,false); }
int __openat_2(int d,const char*p,int fl){ return openCommon(d,p,fl,0,true); }
int creat(const char*p,mode_t m){ return openCommon(AT_FDCWD,p,O_CREAT|O_WRONLY|O_TRUNC,m,false); }
FILE*fopen(const char*p,const char*m){ return fopenCommon("fopen",p,m); }
FILE*fopen64(const char*p,const char*m){ return fopenCommon("fopen64",p,m); }
FILE*fdopen(int fd,const char*m){ static FILE*(*rf)(int,const char*); real(rf,"fdopen"); return rf(fd,m); }
int close(int fd){ static int(*rc)(int); real(rc,"close"); int e=closeDec(fd); int r=rc(fd); if(e){ errno=e; return -1; } return r; }
int fclose(FILE*f){ static int(*rc)(FILE*); real(rc,"fclose"); int e=on?closeDec(fileno(f)):0; Guard g; int r=rc(f); if(e){ errno=e; return EOF; } return r; }
ssize_t read(int fd,void*b,size_t n){ static ssize_t(*rr)(int,void*,size_t); real(rr,"read"); if(FdI*f=fi(fd)){ Dec d=decide(DO_READ,f->path,f->wr,n); if(d.err){ errno=d.err; return -1; } if(d.n>=0) n=d.n; } return rr(fd,b,n); }
ssize_t write(int fd,const void*b,size_t n){ static ssize_t(*rw)(int,const void*,size_t); real(rw,"write"); if(FdI*f=fi(fd)){ Dec d=decide(DO_WRITE,f->path,true,n,fd,(const char*)b); if(d.err){ errno=d.err; return -1; } if(d.n>=0) n=d.n; ssize_t r=rw(fd,b,n); if(r>0) S->bytesW+=r; return r; } return rw(fd,b,n); }
ssize_t writev(int fd,const struct iovec*v,int c){ static ssize_t(*rw)(int,const struct iovec*,int); real(rw,"writev"); if(fi(fd)){ std::string s; for(int i=0;i<c;i++) s.append((const char*)v[i].iov_base,v[i].iov_len); return write(fd,s.data(),s.size()); } return rw(fd,v,c); }
size_t fread(void*p,size_t s,size_t n,FILE*f){ static size_t(*rf)(void*,size_t,size_t,FILE*); real(rf,"fread"); if(FdI*i=on?fi(fileno(f)):nullptr){ Dec d=decide(DO_READ,i->path,i->wr,s*n); if(d.err&&d.err!=EINTR) { errno=d.err; return 0; } } return rf(p,s,n,f); }
size_t fwrite(const void*p,size_t s,size_t n,FILE*f){ static size_t(*rf)(const void*,size_t,size_t,FILE*); real(rf,"fwrite"); if(FdI*i=on?fi(fileno(f)):nullptr){ fflush(f); int fd=fileno(f); (void)i; size_t tot=s*n,o=0; while(o<tot){ ssize_t w=write(fd,(const char*)p+o,tot-o); if(w<0){ if(errno==EINTR) continue; break; } o+=w; } return s?o/s:0; } return rf(p,s,n,f); }
ssize_t sendfile(int o,int i,off_t*off,size_t n){ static ssize_t(*rs)(int,int,off_t*,size_t); real(rs,"sendfile"); if(FdI*f=fi(o)){ struct stat st; long avail=n; if(::fstat(i,&st)==0){ long pos=off?*off:lseek(i,0,SEEK_CUR); avail=std::min<long>(n,std::max<long>(0,st.st_size-pos)); } Dec d=decide(DO_SENDFILE,f->path,true,avail); if(d.err){ errno=d.err; return -1; } if(d.n>=0) n=d.n; ssize_t r=rs(o,i,off,n); if(r>0) S->bytesW+=r; return r; } return rs(o,i,off,n); }
ssize_t copy_file_range(int i,off64_t*io,int o,off64_t*oo,size_t n,unsigned fl){ static ssize_t(*rs)(int,off64_t*,int,off64_t*,size_t,unsigned); real(rs,"copy_file_range"); if(FdI*f=fi(o)){ Dec d=decide(DO_SENDFILE,f->path,true,n); if(d.err){ errno=d.err; return -1; } if(d.n>=0) n=d.n; } return rs(i,io,o,oo,n,fl); }
int mkdir(const char*p,mode_t m){ static int(*rm)(const char*,mode_t); real(rm,"mkdir"); std::string q=redirectPath(p); int t=Guard::depth?-1:track(q); if(t>=0){ Dec d=decide(DO_MKDIR,t,true,0); if(d.err){ errno=d.err; return -1; } } return rm(q.c_str(),m); }
static int statDec(const std::string&q){ int t=Guard::depth?-1:track(q); if(t<0) return 0; return decide(DO_STAT,t,false,0).err; }
int stat(const char*p,struct stat*s){ static int(*r)(const char*,struct stat*); real(r,"stat"); std::string q=redirectPath(p); if(int e=statDec(q)){ errno=e; return -1; } return r(q.c_str(),s); }
int stat64(const char*p,struct stat64*s){ static int(*r)(const char*,struct stat64*); real(r,"stat64"); std::string q=redirectPath(p); if(int e=statDec(q)){ errno=e; return -1; } return r(q.c_str(),s); }
int lstat(const char*p,struct stat*s){ static int(*r)(const char*,struct stat*); real(r,"lstat"); std::string q=redirectPath(p); if(int e=statDec(q)){ errno=e; return -1; } return r(q.c_str(),s); }
int rename(const char*a,const char*b){ static int(*r)(const char*,const char*); real(r,"rename"); std::string x=redirectPath(a),y=redirectPath(b); int t=Guard::depth?-1:track(y); if(t>=0){ S->written[t]=1; Dec d=decide(DO_META,t,true,0); if(d.err){ errno=d.err; return -1; } } return r(x.c_str(),y.c_str()); }
int unlink(const char*a){ static int(*r)(const char*); real(r,"unlink"); std::string x=redirectPath(a); int t=Guard::depth?-1:track(x); if(t>=0){ Dec d=decide(DO_META,t,true,0); if(d.err){ errno=d.err; return -1; } } return r(x.c_str()); }
int remove(const char*a){ static int(*r)(const char*); real(r,"remove"); std::string x=redirectPath(a); int t=Guard::depth?-1:track(x); if(t>=0){ Dec d=decide(DO_META,t,true,0); if(d.err){ errno=d.err; return -1; } } Guard g; return r(x.c_str()); }
int fchmod(int fd,mode_t m){ static int(*r)(int,mode_t); real(r,"fchmod"); if(FdI*f=fi(fd)){ Dec d=decide(DO_META,f->path,true,0); if(d.err){ errno=d.err; return -1; } } return r(fd,m); }
static uint64_t vclock(){ tick+=1+(C.pJump>0&&R.chance(C.pJump)?R.below(7200ull*1000000000ull):0); return C.clock0+tick; }
int clock_gettime(clockid_t id,struct timespec*t){ static int(*r)(clockid_t,struct timespec*); real(r,"clock_gettime"); if(on&&C.clock){ uint64_t c=vclock(); t->tv_sec=c/1000000000ull; t->tv_nsec=c%1000000000ull; return 0; } return r(id,t); }
int gettimeofday(struct timeval*t,void*z){ static int(*r)(struct timeval*,void*); real(r,"gettimeofday"); if(on&&C.clock){ uint64_t c=vclock(); t->tv_sec=c/1000000000ull; t->tv_usec=c/1000%1000000; return 0; } return r(t,z); }
time_t time(time_t*t){ static time_t(*r)(time_t*); real(r,"time"); if(on&&C.clock){ time_t c=vclock()/1000000000ull; if(t) *t=c; return c; } return r(t); }
}
