// What the engine must find, and what it must not.
#include "mc.h"
#include <mutex>
#include "absl/base/call_once.h"
#include <atomic>
#include <memory>
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
struct S { int x=0; absl::Mutex m; std::atomic<int> a{0}; bool flag=false; };
static void Race(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ s->x++; },"a"); mc::Spawn([s]{ s->x++; },"b"); mc::Quiesce(); }
static void NoRace(){ auto s=std::make_shared<S>(); for(int i=0;i<3;i++) mc::Spawn([s]{ absl::MutexLock l(&s->m); s->x++; },"a"); mc::Quiesce(); MC_CHECK(s->x==3,"sum"); }
static void Lost(){ auto s=std::make_shared<S>(); for(int i=0;i<2;i++) mc::Spawn([s]{ int v=s->a.load(); s->a.store(v+1); },"a"); mc::Quiesce(); MC_CHECK(s->a.load()==2,"lost"); }
static void Add(){ auto s=std::make_shared<S>(); for(int i=0;i<4;i++) mc::Spawn([s]{ s->a.fetch_add(1); s->a.fetch_add(1);},"a"); mc::Quiesce(); MC_CHECK(s->a.load()==8,"sum"); }
static void Dead(){ struct D{absl::Mutex a,b;}; auto s=std::make_shared<D>(); mc::Spawn([s]{ absl::MutexLock l(&s->a); absl::MutexLock k(&s->b);},"p"); mc::Spawn([s]{ absl::MutexLock l(&s->b); absl::MutexLock k(&s->a);},"q"); mc::Quiesce(); }
static void Uaf(){ struct D{std::unique_ptr<int> p; std::atomic<bool> done{false};}; auto s=std::make_shared<D>(); s->p=std::make_unique<int>(3); int* raw=s->p.get(); mc::Spawn([s,raw]{ if(!s->done.load()) { *raw=4; } },"p"); mc::Spawn([s]{ s->done.store(true); s->p.reset(); },"q"); mc::Quiesce(); }
static void Leak(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ if(s->a.load()==0) { static int* volatile sink; sink=new int(3); sink=nullptr; }; },"p"); mc::Spawn([s]{ s->a.store(1); },"q"); mc::Quiesce(); }
static void Publish(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ s->x=5; s->a.store(1,std::memory_order_relaxed); },"p"); mc::Spawn([s]{ if(s->a.load(std::memory_order_acquire)) MC_CHECK(s->x==5,"x"); },"q"); mc::Quiesce(); }
static void PublishOk(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ s->x=5; s->a.store(1,std::memory_order_release); },"p"); mc::Spawn([s]{ if(s->a.load(std::memory_order_acquire)) MC_CHECK(s->x==5,"x"); },"q"); mc::Quiesce(); }
static void Wake(){ struct D{absl::Mutex m; absl::CondVar c; std::atomic<bool> f{false};}; auto s=std::make_shared<D>(); mc::Spawn([s]{ if(!s->f.load()){ absl::MutexLock l(&s->m); s->c.Wait(&s->m);} },"p"); mc::Spawn([s]{ s->f.store(true); s->c.SignalAll(); },"q"); mc::Quiesce(); }
static void Note(){ struct D{absl::Notification n; int x=0;}; auto s=std::make_shared<D>(); mc::Spawn([s]{ s->x=1; s->n.Notify(); },"p"); s->n.WaitForNotification(); MC_CHECK(s->x==1,"x"); s->x=2; }
static int g=0;
static void Static(){ struct L{ static int& X(){ static int* x=new int(0); return *x; } }; auto s=std::make_shared<S>(); mc::Spawn([]{ L::X(); },"p"); mc::Spawn([]{ L::X(); },"q"); mc::Quiesce(); MC_CHECK(++g<=2,"restored"); MC_CHECK(++L::X()<=2,"restored"); }
static void Order3(){ // needs 2 preemptions
 auto s=std::make_shared<S>(); mc::Spawn([s]{ s->a.store(1); s->a.store(2); s->a.store(3); },"p"); mc::Spawn([s]{ int x=s->a.load(); int y=s->a.load(); int z=s->a.load(); MC_CHECK(!(x==1&&y==2&&z==3),"seen"); },"q"); mc::Quiesce(); }
static void Forever(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ while(s->a.load()==0){} },"p"); mc::Quiesce(); }
static void Spin(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ volatile bool b=true; while(b){} },"p"); mc::Quiesce(); }
static int r=[]{ mc::Register("race",Race);mc::Register("norace",NoRace);mc::Register("lost",Lost);mc::Register("add",Add);mc::Register("dead",Dead);mc::Register("uaf",Uaf);mc::Register("leak",Leak);mc::Register("publish",Publish);mc::Register("publishok",PublishOk);mc::Register("wake",Wake);mc::Register("note",Note);mc::Register("static",Static);mc::Register("order3",Order3);mc::Register("forever",Forever);mc::Register("spin",Spin); return 0;}();
static void StackRace(){ int x=0; mc::Spawn([&x]{ x++; },"p"); x++; mc::Quiesce(); }
static int r2=[]{ mc::Register("stackrace",StackRace); return 0;}();

static void StdMutex(){ struct D{std::mutex m; int x=0;}; auto s=std::make_shared<D>(); for(int i=0;i<3;i++) mc::Spawn([s]{ std::lock_guard l(s->m); s->x++; },"a"); mc::Quiesce(); MC_CHECK(s->x==3,"sum"); }
static void StdOnce(){ struct D{std::once_flag f; int x=0;}; auto s=std::make_shared<D>(); for(int i=0;i<3;i++) mc::Spawn([s]{ std::call_once(s->f,[&]{ s->x++; }); MC_CHECK(s->x==1,"once"); },"a"); mc::Quiesce(); }
static void AbslOnce(){ struct D{absl::once_flag f; int x=0;}; auto s=std::make_shared<D>(); for(int i=0;i<3;i++) mc::Spawn([s]{ absl::call_once(s->f,[&]{ s->x++; }); MC_CHECK(s->x==1,"once"); },"a"); mc::Quiesce(); }
static void StdDead(){ struct D{std::mutex a,b;}; auto s=std::make_shared<D>(); mc::Spawn([s]{ std::lock_guard l(s->a); std::lock_guard k(s->b);},"p"); mc::Spawn([s]{ std::lock_guard l(s->b); std::lock_guard k(s->a);},"q"); mc::Quiesce(); }
static int r3=[]{ mc::Register("stdmutex",StdMutex); mc::Register("stdonce",StdOnce); mc::Register("abslonce",AbslOnce); mc::Register("stddead",StdDead); return 0;}();
// A static that is made only in some executions is no leak.
static void LateStatic(){ auto s=std::make_shared<S>(); for(int i=0;i<2;i++) mc::Spawn([s]{ if (s->a.exchange(1)==1) { static int* x = new int(4); MC_CHECK(*x==4,"x"); } },"p"); mc::Quiesce(); }
static void LateStatic2(){ auto s=std::make_shared<S>(); mc::Spawn([s]{ s->a.store(1); },"p"); mc::Spawn([s]{ if (s->a.load()==0) { static std::string* x = new std::string("a string that is long enough to be on the heap"); static std::string y = *x; MC_CHECK(x->size()==y.size(),"x"); } },"q"); mc::Quiesce(); }
static int r4=[]{ mc::Register("latestatic",LateStatic); mc::Register("latestatic2",LateStatic2); return 0;}();
