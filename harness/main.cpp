// Conformance driver: reads behaviours (one JSON array of operations per line), executes each against the
// real code, writes the observations.  Every chunk of behaviours runs in a child process, so that a crash,
// hang or exit() of the code under test is recorded as an observation and the rest still runs.
#include "driver.h"
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
#include <iostream>
static int g_fd=-1;
static void put(const std::string& s){ const char* p=s.data(); size_t n=s.size(); while(n){ ssize_t k=::write(g_fd,p,n); if(k<=0) _exit(97); p+=k; n-=k; } }
// what a harness prepares once, before the children are forked
__attribute__((weak)) void verif_setup(){}
static int work(const std::vector<std::string>& beh,const std::vector<size_t>& idx,const char* out,int to);
int main(int argc,char** argv){
  if(argc<3) return 96;
  int to = argc>3 ? atoi(argv[3]) : 20;
  std::vector<std::string> beh; { std::ifstream in(argv[1]); std::string l; while(std::getline(in,l)) if(!l.empty()) beh.push_back(l); }
  int jobs = argc>4 ? atoi(argv[4]) : 0;
  if(getenv("VERIF_DRIVER_STDOUT")==nullptr){ int nul=::open("/dev/null",O_WRONLY); ::dup2(nul,1); }
  verif_setup();
  std::vector<std::vector<size_t>> part(jobs?jobs:1); for(size_t k=0;k<beh.size();++k) part[k%part.size()].push_back(k);
  if(!jobs) return work(beh,part[0],argv[2],to);
  std::vector<pid_t> ps; for(int j=0;j<jobs;++j){ pid_t p=::fork(); if(p==0) _exit(work(beh,part[j],(std::string(argv[2])+"."+std::to_string(j)).c_str(),to)); ps.push_back(p); }
  int rc=0; for(auto p: ps){ int st=0; ::waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) rc=WIFEXITED(st)?WEXITSTATUS(st):91; }
  return rc;
}
static int work(const std::vector<std::string>& beh,const std::vector<size_t>& idx,const char* out,int to){
  g_fd=::open(out,O_CREAT|O_TRUNC|O_RDWR|O_APPEND,0644); if(g_fd<0) return 95;
  size_t at=0;
  while(at<idx.size()){
    int pfd[2]; if(::pipe(pfd)) return 94;
    size_t end=std::min(idx.size(),at+(size_t)verif_chunk);
    pid_t c=::fork();
    if(c==0){
      ::close(pfd[0]);
      for(size_t k=at;k<end;++k){
        uint64_t kk=k; if(::write(pfd[1],&kk,8)!=8) _exit(93);
        ::alarm(to);
        put("B "+std::to_string(idx[k])+"\n");
        J ops=J::parse(beh[idx[k]]);
        auto w=makeWorld();
        std::string buf;
        for(auto& op: ops.a){
          J r; 
          try { r=w->apply(op); }
          catch(const std::logic_error& e){ if(!strncmp(e.what(),"vjson",5)){ std::cerr<<"driver: "<<e.what()<<" in "<<op.dump()<<std::endl; _exit(92);} r=J::list({"EXC"}); }
          catch(const std::exception& e){ r=J::list({"EXC"}); }
          put("O "+r.dump()+"\n");
        }
        w.reset();
        put("E\n");
      }
      ::alarm(0);
      _exit(0);
    }
    ::close(pfd[1]);
    uint64_t last=at, v; bool any=false;
    while(::read(pfd[0],&v,8)==8){ last=v; any=true; }
    ::close(pfd[0]);
    int st=0; ::waitpid(c,&st,0);
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0) at=end;
    else {
      if(WIFEXITED(st)&&WEXITSTATUS(st)>=92&&WEXITSTATUS(st)<=97) return WEXITSTATUS(st);
      std::string why = WIFSIGNALED(st) ? (WTERMSIG(st)==SIGALRM?std::string("TIMEOUT"):"SIGNAL"+std::to_string(WTERMSIG(st))) : "EXIT"+std::to_string(WEXITSTATUS(st));
      put("X "+why+"\n");
      at = (any?last:at)+1;
    }
  }
  return 0;
}
