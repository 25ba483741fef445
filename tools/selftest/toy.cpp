#include "conc.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <future>
#include <shared_mutex>
MC_CONC("mutex_ok",2,2){ std::mutex m; int x=0; std::thread a([&]{ for(int i=0;i<2;++i){std::lock_guard g(m); ++x;} }), b([&]{for(int i=0;i<2;++i){ std::lock_guard g(m); ++x;} }); a.join(); b.join(); MC_CHECK(x==4,"x",x); }
MC_CONC("race",2,2){ int x=0; std::thread a([&]{ ++x; }), b([&]{ ++x; }); a.join(); b.join(); }
MC_CONC("race_flag",2,2){ int x=0; std::atomic<int> f{0}; std::thread a([&]{ x=1; f.store(1,std::memory_order_relaxed); }), b([&]{ if(f.load(std::memory_order_acquire)) x=2; }); a.join(); b.join(); }
MC_CONC("flag_ok",2,2){ int x=0; std::atomic<int> f{0}; std::thread a([&]{ x=1; f.store(1,std::memory_order_release); }), b([&]{ if(f.load(std::memory_order_acquire)) x=2; }); a.join(); b.join(); }
MC_CONC("deadlock",2,2){ std::mutex m,n; std::thread a([&]{ std::lock_guard g(m); std::lock_guard h(n); }), b([&]{ std::lock_guard g(n); std::lock_guard h(m); }); a.join(); b.join(); }
MC_CONC("lost_update",2,2){ std::atomic<int> x{0}; std::thread a([&]{ x=x+1; }), b([&]{ x=x+1; }); a.join(); b.join(); MC_CHECK(x==2,"lost",x.load()); }
MC_CONC("lost_wakeup",2,2){ std::mutex m; std::condition_variable c; std::atomic<bool> f{false}; std::thread a([&]{ std::unique_lock g(m); if(!f) c.wait(g); }), b([&]{ f=true; c.notify_one(); }); a.join(); b.join(); }
MC_CONC("cv_ok",2,2){ std::mutex m; std::condition_variable c; bool f=false; std::thread a([&]{ std::unique_lock g(m); c.wait(g,[&]{return f;}); }), b([&]{ {std::lock_guard g(m); f=true;} c.notify_one(); }); a.join(); b.join(); }
MC_CONC("uaf",2,2){ auto p=new std::atomic<int>(0); std::atomic<int> refs{2}; auto f=[&]{ p->fetch_add(1); if(refs==1) {delete p;} else refs--; }; std::thread a(f), b(f); a.join(); b.join(); }
MC_CONC("leak",0,0){ new int(4); }
MC_CONC("spin",2,2){ std::atomic<int> f{0}; std::thread a([&]{ while(!f) std::this_thread::yield(); }), b([&]{ f=1; }); a.join(); b.join(); }
MC_CONC("spin_noyield",2,2){ std::atomic<int> f{0}; std::thread a([&]{ while(!f) ; }), b([&]{ f=1; }); a.join(); b.join(); }
MC_CONC("livelock",2,2){ std::atomic<int> f{0}; std::thread a([&]{ while(!f) std::this_thread::yield(); }); a.join(); }
MC_CONC("timeout",2,2){ std::mutex m; std::condition_variable c; bool f=false; std::thread a([&]{ std::unique_lock g(m); c.wait_for(g,std::chrono::milliseconds(10),[&]{return f;}); }); a.join(); }
MC_CONC("future",2,2){ std::promise<int> p; auto f=p.get_future(); std::thread a([&]{ p.set_value(4); }); MC_CHECK(f.get()==4,"v",""); a.join(); }
MC_CONC("packaged",2,2){ std::packaged_task<int()> p([]{return 3;}); auto f=p.get_future(); std::thread a([&]{ p(); }); MC_CHECK(f.get()==3,"v",""); a.join(); }
MC_CONC("dclp",2,2){ struct S{ static int& v(){ static int x = 3; return x; } }; std::thread a([&]{ S::v(); }), b([&]{ S::v(); }); a.join(); b.join(); }
MC_CONC("shared_ptr",2,2){ auto p=std::make_shared<int>(4); std::thread a([p]{ auto q=p; }), b([q=p]{ auto r=q; }); p.reset(); a.join(); b.join(); }
MC_CONC("three",3,3){ std::mutex m; int x=0; auto f=[&]{ for(int i=0;i<2;++i){std::lock_guard g(m); ++x;} }; std::thread a(f),b(f),c(f); a.join(); b.join(); c.join(); MC_CHECK(x==6,"x",x); }
MC_CONC("events",10,10){ auto f=[](int k){ conc::step(k); conc::step(k); }; std::thread a(f,1),b(f,2); a.join(); b.join(); mc::validated(); }
MC_CONC("term",0,0){ std::thread a([]{ throw 3; }); a.join(); }
MC_CONC("segv",0,0){ std::thread a([]{ *(volatile int*)0=3; }); a.join(); }
MC_CONC("destr_mutex",1,1){ auto m=new std::mutex; std::thread a([m]{ m->lock(); conc::step(1); m->unlock(); }); delete m; a.join(); }
MC_CONC("big",4,4){ std::mutex m; int x=0; auto f=[&]{ for(int i=0;i<4;++i){std::lock_guard g(m); ++x;} }; std::thread a(f),b(f),c(f); a.join(); b.join(); c.join(); MC_CHECK(x==12,"x",x); }
#include <fcntl.h>
#include <unistd.h>
MC_CONC("events3",20,20){ auto f=[](int k){ conc::step(k); conc::step(k); }; std::thread a(f,1),b(f,2),c(f,3); a.join(); b.join(); c.join(); std::string l; { conc::engine_guard g; for(int v:conc::steps()) l+=char('0'+v); l+='\n'; int fd=open("/tmp/toy/ev.txt",O_WRONLY|O_APPEND|O_CREAT,0644); write(fd,l.data(),l.size()); close(fd); std::string().swap(l);} }
