#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simsched.h"
#include "rng.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
namespace sim {
thread_local bool t_inQuery=false;
namespace {
struct Thr { pthread_t th; sem_t sem; bool done=false,ended=false; int seg=0; };
bool on=false; thread_local int me=-1; int cur=-1; long left=0; size_t pos=0; std::vector<Switch> plan; std::vector<Thr> T; sem_t mainSem; SchedStats st; const std::function<bool(int,int)>*bodyF=nullptr; int pendingNext=-1; long stuck=0;
void semWait(sem_t*s){ while(sem_wait(s)&&errno==EINTR){} }
void arm(){ left=pos<plan.size()?plan[pos].gap:-1; if(left==0) left=1; }
int pickFrom(int want,int self,bool other){ int n=T.size(); for(int k=0;k<n;k++){ int t=((want%n)+n+k)%n; if(T[t].done) continue; if(other&&t==self) continue; return t; } return -1; }
void handTo(int t){ int self=me; st.switches++; if(t_inQuery) st.insideQuery++; st.hash=mix64(st.hash^(uint64_t)st.accesses*31^(uint64_t)t); cur=t; sem_post(&T[t].sem); semWait(&T[self].sem); }
void preempt(){ int want=plan[pos].to; pos++; arm(); int t=pickFrom(want,me,true); if(t>=0) handTo(t); }
void yieldBlocked(){ st.lockWaits++; if(++stuck>200000){ st.deadlock=true; static const char m[]="simulated threads are deadlocked\n"; if(write(2,m,sizeof m-1)<0){} _exit(77); } int t=pickFrom(me+1,me,true); if(t>=0) handTo(t); }
void*threadMain(void*p){ int t=(int)(long)p; me=t; semWait(&T[t].sem); bool more=(*bodyF)(t,T[t].seg++); me=-1; t_inQuery=false; T[t].ended=true; T[t].done=!more; sem_post(&mainSem); return nullptr; }
}
static inline void access(){ if(me<0) return; st.accesses++; stuck=0; if(left<0) return; if(--left>0) return; preempt(); }
SchedStats runThreads(int n,const std::vector<Switch>&p,const std::function<bool(int,int)>&body){
  plan=p; pos=0; st=SchedStats(); bodyF=&body; T=std::vector<Thr>(n); sem_init(&mainSem,0,0); on=true; arm(); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,8<<20);
  for(int t=0;t<n;t++){ sem_init(&T[t].sem,0,0); if(pthread_create(&T[t].th,&at,threadMain,(void*)(long)t)) _exit(78); }
  int next=plan.size()?pickFrom(plan[0].to,-1,false):0;
  while(next>=0){ cur=next; sem_post(&T[next].sem); semWait(&mainSem); int f=cur; pthread_join(T[f].th,nullptr); if(!T[f].done){ T[f].ended=false; sem_destroy(&T[f].sem); sem_init(&T[f].sem,0,0); if(pthread_create(&T[f].th,&at,threadMain,(void*)(long)f)) _exit(78); }
    int want=f+1; if(pos<plan.size()&&plan[pos].to>=0) want=plan[pos].to; next=pickFrom(want,-1,false); st.hash=mix64(st.hash^0x77^(uint64_t)next); }
  on=false; for(auto&t:T) sem_destroy(&t.sem); sem_destroy(&mainSem); pthread_attr_destroy(&at); return st; }
static bool simThread(){ return on&&me>=0; }
template<class F> static F realf(F&f,const char*n){ if(!f) f=(F)dlsym(RTLD_NEXT,n); return f; }
}
using namespace sim;
extern "C" {
// ---- locks used by the code under test: blocking is a scheduling decision ----
int pthread_mutex_lock(pthread_mutex_t*m){ static int(*r)(pthread_mutex_t*); realf(r,"pthread_mutex_lock"); if(!simThread()) return r(m); access(); for(;;){ int e=pthread_mutex_trylock(m); if(e!=EBUSY) return e; yieldBlocked(); } }
int pthread_rwlock_rdlock(pthread_rwlock_t*m){ static int(*r)(pthread_rwlock_t*); realf(r,"pthread_rwlock_rdlock"); if(!simThread()) return r(m); access(); for(;;){ int e=pthread_rwlock_tryrdlock(m); if(e!=EBUSY) return e; yieldBlocked(); } }
int pthread_rwlock_wrlock(pthread_rwlock_t*m){ static int(*r)(pthread_rwlock_t*); realf(r,"pthread_rwlock_wrlock"); if(!simThread()) return r(m); access(); for(;;){ int e=pthread_rwlock_trywrlock(m); if(e!=EBUSY) return e; yieldBlocked(); } }
int __cxa_guard_acquire(uint64_t*g){ char*b=(char*)g; for(;;){ if(__atomic_load_n(b,__ATOMIC_ACQUIRE)) return 0; if(!b[1]){ b[1]=1; if(simThread()) access(); return 1; } if(simThread()) yieldBlocked(); else usleep(50); } }
void __cxa_guard_release(uint64_t*g){ char*b=(char*)g; b[1]=0; __atomic_store_n(b,1,__ATOMIC_RELEASE); if(simThread()) access(); }
void __cxa_guard_abort(uint64_t*g){ ((char*)g)[1]=0; }
// ---- instrumentation entry points ----
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void*){ access(); } void __tsan_write##n(void*){ access(); } void __tsan_unaligned_read##n(void*){ access(); } void __tsan_unaligned_write##n(void*){ access(); } void __tsan_volatile_read##n(void*){ access(); } void __tsan_volatile_write##n(void*){ access(); } void __tsan_unaligned_volatile_read##n(void*){ access(); } void __tsan_unaligned_volatile_write##n(void*){ access(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*,size_t){ access(); } void __tsan_write_range(void*,size_t){ access(); } void __tsan_vptr_update(void**,void*){ access(); } void __tsan_vptr_read(void**){ access(); }
#define AT(b,t) \
 t __tsan_atomic##b##_load(const volatile t*a,int){ access(); return __atomic_load_n(a,__ATOMIC_SEQ_CST); } \
 void __tsan_atomic##b##_store(volatile t*a,t v,int){ access(); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_exchange(volatile t*a,t v,int){ access(); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_fetch_add(volatile t*a,t v,int){ access(); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_fetch_sub(volatile t*a,t v,int){ access(); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_fetch_and(volatile t*a,t v,int){ access(); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_fetch_or(volatile t*a,t v,int){ access(); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_fetch_xor(volatile t*a,t v,int){ access(); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_fetch_nand(volatile t*a,t v,int){ access(); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t*a,t*c,t v,int,int){ access(); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile t*a,t*c,t v,int,int){ access(); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
 t __tsan_atomic##b##_compare_exchange_val(volatile t*a,t c,t v,int,int){ access(); __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){ access(); } void __tsan_atomic_signal_fence(int){}
}
