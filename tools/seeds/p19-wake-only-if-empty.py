property = "P19"
needs = "two tasks submitted in quick succession to idle workers, the first of which needs the second to run"
breaks = "a task queued behind another one wakes no worker, so tasks that need each other never finish although a worker is idle"
edits = [("AmpGen/ThreadPool.h", "        m_tasks.emplace([task](){ (*task)(); });\n      }\n      m_condition.notify_one();", "        if(m_tasks.empty()) m_condition.notify_one();\n        m_tasks.emplace([task](){ (*task)(); });\n      }")]
demo = r'''#include "AmpGen/ThreadPool.h"
#include <atomic>
#include <unistd.h>
int main(){
  alarm(20);
  for( int rep = 0; rep < 300; ++rep ){
    AmpGen::ThreadPool p(2); usleep(300);
    std::atomic<bool> flag{false};
    auto a = p.enqueue([&]{ while( !flag ) usleep(10); return 1; });
    auto b = p.enqueue([&]{ flag = true; return 2; });
    if( a.get() + b.get() != 3 ) return 1;
  }
  return 0;
}
'''
