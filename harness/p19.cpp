// Thread pool under a controlled scheduler: the pthread primitives are interposed, exactly one thread of the
// program runs at a time and every synchronisation operation is a scheduling decision.
// own copy of the decision sequence makes every execution reproducible.
#include "driver.h"
#include "AmpGen/ThreadPool.h"
#include "AmpGen/OptionsParser.h"
#include <dlfcn.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <set>
int verif_chunk=50;

namespace sch {
enum St { Run, Mtx, Cond, CondTimed, Join, Pred, Yield, Done };
struct T { int id; sem_t sem; St st=Run; void* obj=nullptr; void* mtx=nullptr; std::function<bool()> pred; pthread_t h; void*(*fn)(void*)=nullptr; void* arg=nullptr; bool timedout=false; };
static bool on=false; static std::vector<T*> ts; static thread_local T* me=nullptr; static std::map<void*,int> owner;
static std::vector<J> trace; static int outfd=-1;
// decisions
static std::vector<int> hints; static size_t hpos=0; static bool byIndex=false; static unsigned long long rng; static int pswitch=100; static int spurious=0; static int steps=0; static int last=0;
static std::vector<std::pair<int,int>> taken;   // (number of choices, index taken)
static std::vector<int> curIdx;
static unsigned rnd(){ rng=rng*6364136223846793005ULL+1442695040888963407ULL; return unsigned(rng>>33); }
static void die(const char* why){
  J r=J::mkarr(); trace.push_back(J::list({"end",why})); for(auto&e:trace) r.push(e);
  J d=J::mkarr(); for(size_t i=0;i<taken.size();++i) d.push(J::list({taken[i].first,taken[i].second,curIdx[i]}));
  std::string s=J::list({r,d}).dump(); const char* p=s.data(); size_t n=s.size(); while(n){ ssize_t k=::write(outfd,p,n); if(k<=0) break; p+=k; n-=k; }
  _exit(0);
}
static bool enabled(T* t){
  switch(t->st){ case Run: return true; case Yield: return true; case Mtx: return owner.count(t->obj)==0; case Cond: return false; case CondTimed: return false;
    case Join: return ((T*)t->obj)->st==Done; case Pred: return t->pred(); case Done: return false; }
  return false;
}
// give control to the thread chosen next; returns when the caller is chosen again
static void sched(){
  if(++steps>20000) die("livelock");
  T* self=me; std::vector<T*> en; 
  for(auto t: ts) if(enabled(t) && t->st!=Yield) en.push_back(t);
  if(en.empty()) for(auto t: ts) if(t->st==Yield) en.push_back(t);
  if(en.empty()) for(auto t: ts) if(t->st==CondTimed) en.push_back(t);      // only a time-out can make progress
  if(spurious>0){ for(auto t: ts) if(t->st==Cond && owner.count(t->mtx)==0 && rnd()%8==0){ en.push_back(t); } }
  if(en.empty()) die("deadlock");
  int ci=-1; for(size_t i=0;i<en.size();++i) if(en[i]==self) ci=i;
  int pick=-1;
  if(byIndex){ // systematic search: index within the enabled set, current thread first
    if(ci>0) std::swap(en[0],en[ci]); if(ci>=0) ci=0;
    pick = hpos<hints.size()? std::min<int>(hints[hpos],en.size()-1) : 0; ++hpos;
  } else {
    if(hpos<hints.size()){ int want=hints[hpos++]; for(size_t i=0;i<en.size();++i) if(en[i]->id==want) pick=i; }
    if(pick<0){ if(ci>=0 && int(rnd()%100)>=pswitch) pick=ci; else pick=rnd()%en.size(); }
  }
  taken.emplace_back(en.size(),pick); curIdx.push_back(ci);
  T* nx=en[pick];
  if(nx->st==Cond){ --spurious; owner[nx->mtx]=nx->id; nx->st=Run; }
  else if(nx->st==CondTimed){ if(owner.count(nx->mtx)){ nx->st=Mtx; nx->obj=nx->mtx; nx->timedout=true; sched(); return; } nx->timedout=true; owner[nx->mtx]=nx->id; nx->st=Run; }
  else if(nx->st==Mtx){ owner[nx->obj]=nx->id; nx->st=Run; }
  else nx->st=Run;
  if(nx==self) return;
  sem_post(&nx->sem);
  if(self->st==Done) return;
  while(sem_wait(&self->sem)){}
}
static void point(){ if(on&&me) sched(); }
static void* boot(void* p){ T* t=(T*)p; me=t; while(sem_wait(&t->sem)){} void* r=t->fn(t->arg); t->st=Done; T* self=t; (void)self; sched(); return r; }
static void lockM(void* m){ me->obj=m; me->st=Mtx; sched(); }
static void unlockM(void* m){ auto it=owner.find(m); if(it!=owner.end()) owner.erase(it); me->st=Run; sched(); }
static bool waitC(void* c,void* m,bool timed){ me->st=Run; sched(); /* a thread may be preempted on its way into the wait */
  owner.erase(m); me->st=timed?CondTimed:Cond; me->obj=c; me->mtx=m; me->timedout=false; sched(); return me->timedout; }
static void notify(void* c,bool all){ me->st=Run; sched(); std::vector<T*> w; for(auto t: ts) if((t->st==Cond||t->st==CondTimed)&&t->obj==c) w.push_back(t);
  if(w.empty()) return;
  if(!all){ T* k=w[rnd()%w.size()]; w={k}; }
  for(auto t: w){ t->st=Mtx; t->obj=t->mtx; } 
  me->st=Run; sched(); }
static void waitPred(std::function<bool()> f){ me->pred=f; me->st=Pred; sched(); }
}
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT,#name))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m){ if(sch::on&&sch::me){ sch::lockM(m); return 0; } static auto f=REAL(pthread_mutex_lock); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m){ if(sch::on&&sch::me){ sch::point(); if(sch::owner.count(m)) return EBUSY; sch::owner[m]=sch::me->id; return 0; } static auto f=REAL(pthread_mutex_trylock); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m){ if(sch::on&&sch::me){ sch::unlockM(m); return 0; } static auto f=REAL(pthread_mutex_unlock); return f(m); }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(sch::on&&sch::me){ sch::waitC(c,m,false); return 0; } static auto f=REAL(pthread_cond_wait); return f(c,m); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ if(sch::on&&sch::me) return sch::waitC(c,m,true)?ETIMEDOUT:0; static auto f=REAL(pthread_cond_timedwait); return f(c,m,t); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ if(sch::on&&sch::me) return sch::waitC(c,m,true)?ETIMEDOUT:0; static auto f=REAL(pthread_cond_clockwait); return f(c,m,k,t); }
int pthread_cond_signal(pthread_cond_t* c){ if(sch::on&&sch::me){ sch::notify(c,false); return 0; } static auto f=REAL(pthread_cond_signal); return f(c); }
int pthread_cond_broadcast(pthread_cond_t* c){ if(sch::on&&sch::me){ sch::notify(c,true); return 0; } static auto f=REAL(pthread_cond_broadcast); return f(c); }
int pthread_create(pthread_t* h,const pthread_attr_t* a,void*(*fn)(void*),void* arg){ static auto f=REAL(pthread_create);
  if(!(sch::on&&sch::me)) return f(h,a,fn,arg);
  auto t=new sch::T; t->id=sch::ts.size(); sem_init(&t->sem,0,0); t->fn=fn; t->arg=arg; int rc=f(h,a,sch::boot,t); t->h=*h; if(rc==0) sch::ts.push_back(t); sch::point(); return rc; }
int pthread_join(pthread_t h,void** r){ static auto f=REAL(pthread_join);
  if(sch::on&&sch::me){ for(auto t: sch::ts) if(t->id!=0 && pthread_equal(t->h,h)){ sch::me->obj=t; sch::me->st=sch::Join; sch::sched(); break; } }
  return f(h,r); }
int sched_yield(){ if(sch::on&&sch::me){ sch::me->st=sch::Yield; sch::sched(); return 0; } static auto f=REAL(sched_yield); return f(); }
int nanosleep(const struct timespec* a,struct timespec* b){ if(sch::on&&sch::me){ sch::me->st=sch::Yield; sch::sched(); return 0; } static auto f=REAL(nanosleep); return f(a,b); }
int clock_nanosleep(clockid_t c,int fl,const struct timespec* a,struct timespec* b){ if(sch::on&&sch::me){ sch::me->st=sch::Yield; sch::sched(); return 0; } static auto f=REAL(clock_nanosleep); return f(c,fl,a,b); }
}
using namespace AmpGen;
struct Prog { std::vector<std::vector<J>> clients; std::map<int,J> tasks; int nt; bool enable; };
static void ev(J j){ sch::trace.push_back(j); }
struct Runner {
  Prog p; ThreadPool* pool=nullptr; std::map<int,std::future<int>> fut; std::set<int> started; std::map<int,bool> accepted;
  int body(int id){
    int th=sch::me->id; started.insert(id); ev(J::list({"start",id,th})); sch::point();
    const J& k=p.tasks[id]; std::string kind=k[0].str();
    if(kind=="n"){ submit(k[1].num()); }
    if(kind=="b"){ int o=k[1].num(); sch::waitPred([this,o]{ return started.count(o)>0; }); }
    sch::point();
    ev(J::list({"fin",id}));
    if(kind=="x") throw std::runtime_error("x"+std::to_string(id));
    return 100+id;
  }
  void submit(int id){
    int th=sch::me->id; ev(J::list({"call",id,th}));
    try { auto f=pool->enqueue([this,id]{ return body(id); }); fut[id]=std::move(f); accepted[id]=true; ev(J::list({"ret",id,true})); }
    catch(const std::runtime_error& e){ ev(J::list({"ret",id,false})); }
  }
  void client(int c){
    for(auto& op: p.clients[c]){
      std::string f=op[0].str();
      if(f=="enq") submit(op[1].num());
      else if(f=="get"){ int id=op[1].num(); sch::waitPred([this,id]{ return accepted.count(id)||1; }); if(!accepted[id]) continue; auto& fu=fut[id];
        sch::waitPred([&fu]{ return fu.wait_for(std::chrono::seconds(0))==std::future_status::ready; });
        std::string r; try { r="v"+std::to_string(fu.get()-100); } catch(const std::exception& e){ r=e.what(); } ev(J::list({"got",id,r})); }
      else if(f=="wait"){ ev(J::list({"stop"})); pool->waitForStoppedThreads(); ev(J::list({"stopped"})); }
      else if(f=="join"){ sch::waitPred([this]{ for(size_t k=1;k<p.clients.size();++k) if(sch::ts[k]->st!=sch::Done) return false; return true; }); }
      else if(f=="del"){ ev(J::list({"stop"})); delete pool; pool=nullptr; int alive=0; for(size_t k=p.clients.size();k<sch::ts.size();++k) if(sch::ts[k]->st!=sch::Done) ++alive; ev(J::list({"gone",alive})); }
    }
  }
};
static void child(const J& op,int fd){
  sch::outfd=fd; Runner r; const J& P=op["prog"]; r.p.nt=P["nt"].num(); r.p.enable=P["on"].boolean();
  for(auto& c: P["cl"].a){ r.p.clients.push_back(c.a); }
  for(auto& t: P["tasks"].a) r.p.tasks[t[0].num()]=t[1];
  sch::rng=op["seed"].num()*2862933555777941757ULL+3037000493ULL; sch::pswitch=op["p"].num(); sch::spurious=op["sp"].num();
  for(auto& h: op["hints"].a) sch::hints.push_back(h.num()); sch::byIndex=op["idx"].boolean();
  OptionsParser::setArg(std::string("ThreadPool::Enable ")+(r.p.enable?"true":"false"));
  auto m=new sch::T; m->id=0; sem_init(&m->sem,0,0); sch::me=m; sch::ts.push_back(m);
  std::set_terminate([]{ sch::die("terminate"); });
  sch::on=true;
  std::vector<std::thread*> cl; for(size_t c=1;c<r.p.clients.size();++c) cl.push_back(new std::thread([&r,c]{ sch::waitPred([&r]{ return r.pool!=nullptr; }); r.client(c); }));
  { ThreadPool* q=new ThreadPool(r.p.nt); r.pool=q; }
  r.client(0);
  sch::die("end");
}
static J runOne(const J& op){
  int pfd[2]; if(pipe(pfd)) throw std::logic_error("vjson pipe");
  pid_t c=fork();
  if(c==0){ ::close(pfd[0]); ::alarm(10); for(int s: {SIGSEGV,SIGABRT,SIGBUS,SIGFPE}) signal(s,SIG_DFL); child(op,pfd[1]); _exit(3); }
  ::close(pfd[1]); std::string s; char b[65536]; ssize_t k; while((k=::read(pfd[0],b,sizeof b))>0) s.append(b,k); ::close(pfd[0]);
  int st=0; waitpid(c,&st,0);
  if(s.empty()||!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) { std::string why=WIFSIGNALED(st)?(WTERMSIG(st)==SIGALRM?"hang":"signal "+std::to_string(WTERMSIG(st))):"exit "+std::to_string(WEXITSTATUS(st)); return J::list({J::list({J::list({"end",why})}),J::mkarr()}); }
  return J::parse(s);
}
struct W: World { J apply(const J& op) override {
  std::string f=op["f"].str();
  if(f=="run") return runOne(op)[0];
  if(f=="dfs"){ // all schedules with at most `bound` preemptions, up to `max` executions; distinct traces returned
    int bound=op["bound"].num(), mx=op["max"].num(); std::map<std::string,J> seen; int n=0; bool complete=true;
    std::vector<std::vector<int>> stack{{}};
    while(!stack.empty()){
      if(n>=mx){ complete=false; break; }
      auto pre=stack.back(); stack.pop_back(); ++n;
      J o=op; o.o["f"]=J("run"); o.o["idx"]=J(true); std::vector<J> h; for(int x: pre) h.push_back(J(x)); o.o["hints"]=J(h);
      J r=runOne(o); std::string key=r[0].dump(); if(!seen.count(key)){ J hh=J(h); seen[key]=J::list({r[0],hh}); }
      const J& d=r[1]; int cost=0; // preemption: leaving a thread that could have continued
      for(size_t i=0;i<pre.size()&&i<d.size();++i) if(d[i][2].num()==0 && d[i][1].num()!=0) ++cost;
      for(size_t i=d.size(); i-->pre.size();){ int nch=d[i][0].num(); bool cur=d[i][2].num()==0; if(cur && cost>=bound) continue;
        for(int a=1;a<nch;++a){ std::vector<int> q; for(size_t k=0;k<i;++k) q.push_back(d[k][1].num()); q.push_back(a); stack.push_back(q); } }
    }
    J r=J::mkarr(); for(auto& kv: seen) r.push(kv.second); return J::list({n,complete,r});
  }
  throw std::logic_error("vjson op");
} };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
