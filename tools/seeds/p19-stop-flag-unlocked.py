extra = []
property = "P19"
needs = "a worker that has found nothing to do and is about to wait when the pool is stopped (one particular interleaving)"
breaks = "the stop flag is set without the lock, so its wake-up can be lost and waiting for or destroying the pool never returns"
edits = [("src/ThreadPool.cpp", "  {\n    std::unique_lock<std::mutex> lock(m_queue_mutex);\n    m_stop = true;\n  }\n", "  m_stop = true;\n")]
demo = r'''// a worker is held back on its way into the wait (with the lock held), which any scheduler may do
#include "AmpGen/ThreadPool.h"
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){
  static auto real = (int(*)(pthread_cond_t*,pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_cond_wait");
  usleep(100000); return real(c,m); }
int main(){
  alarm(20); // a pool that never stops is ended here
  int n = 0;
  { AmpGen::ThreadPool p(1); usleep(20000); }
  return 0;
}
'''
