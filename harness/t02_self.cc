#include "mcrt.h"
#include "vx.h"
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <string>
#include <cstdio>
#include <cassert>
int main(int argc, char**argv){
  vx::parse(argc,argv);
  std::string w=vx::arg(argc,argv,"w");
  int x=0; std::mutex m,m2; std::atomic<int> a(0); std::condition_variable cv; bool rdy=false;
  mc::Scenario s;
  s.name=w;
  if(w=="race") s.body=[&]{ std::thread t([&]{x++;}); x++; t.join(); };
  if(w=="ok") s.body=[&]{ std::thread t([&]{std::lock_guard<std::mutex> l(m);x++;}); {std::lock_guard<std::mutex> l(m); x++;} t.join(); mc::outcome(std::to_string(x)); };
  if(w=="dead") s.body=[&]{ std::thread t([&]{std::lock_guard<std::mutex> l(m);std::lock_guard<std::mutex> l2(m2);}); {std::lock_guard<std::mutex> l(m2);std::lock_guard<std::mutex> l2(m);} t.join(); };
  if(w=="lost") s.body=[&]{ std::thread t([&]{int v=a.load(); a.store(v+1);}); int v=a.load(); a.store(v+1); t.join(); mc::outcome(std::to_string(a)); };
  if(w=="wait") s.body=[&]{ std::thread t([&]{a.store(1); a.notify_all();}); a.wait(0); t.join(); mc::outcome(std::to_string(a)); };
  if(w=="waitbad") s.body=[&]{ std::thread t([&]{a.store(1); }); a.wait(0); t.join(); mc::outcome(std::to_string(a)); };
  if(w=="cv") s.body=[&]{ std::thread t([&]{ {std::lock_guard<std::mutex> l(m); rdy=true;} cv.notify_one();}); {std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{return rdy;});} t.join(); mc::outcome("z"); };
  if(w=="cvbad") s.body=[&]{ std::thread t([&]{ bool r; {std::lock_guard<std::mutex> l(m); r=rdy;} if(!r){std::unique_lock<std::mutex> l(m); cv.wait(l);}}); {std::lock_guard<std::mutex> l(m); rdy=true;} cv.notify_one(); t.join(); };
  mc::explore(s,3,30);
}
