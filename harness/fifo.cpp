// Harness for the asynchronous part (fifo_worker, fifo_scheduler,
// processor_container, event_processor, asynchronous_state_machine).
// Input lines:
//   S id raw tokens...                       scripted, one thread
//   R id raw seed nOps pNest pThrow          random, one thread
//   M id seed raw wait clients nOps runs pNest pThrow preempt spurious   random schedule
//   X id seed raw wait clients nOps runs pNest pThrow bound cap spurious every
//                                   schedule with at most `bound` preemptions
//   H id seed raw wait clients nOps runs pNest pThrow   free running threads
//   E id n                          one event object in two schedulers
// Several runs of X share an id; each distinct trace is printed once.
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <memory>
#include <atomic>
#ifndef BOOST_DISABLE_THREADS
#  include <thread>
#  include <semaphore.h>
#  include <dlfcn.h>
#  include <pthread.h>
#endif

#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/bind.hpp>
#include <boost/ref.hpp>
#include <boost/mpl/list.hpp>

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

struct Boom { int id; };

struct Rng
{
  unsigned long long x;
  explicit Rng(unsigned long long s = 1) : x(s * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  unsigned next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)(x >> 17); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (unsigned)n); }
  bool chance(int permille) { return below(1000) < permille; }
};

static const int kMaxThread = 4;
static std::atomic<long> liveEv(0), liveArg(0), liveBytes(0), bad(0);
static std::atomic<unsigned long> seqNo(0);
static inline void inc(std::atomic<long> & a, long d) { a.fetch_add(d, std::memory_order_relaxed); }

#ifdef BOOST_DISABLE_THREADS
#  define TLS
#else
#  define TLS thread_local
#endif
static TLS int self_ = -1;             // thread number in the trace
static bool freeRun = false;           // lines are ordered by seqNo

typedef std::vector<std::pair<unsigned long, std::string> > Log;
static Log logs[kMaxThread + 1];
static void emit_partial(const char * tail);
static void flush_bulk();
static void ln(const std::string & s)
{
  flush_bulk();
  unsigned long n = seqNo.fetch_add(1, std::memory_order_relaxed);
  logs[self_].push_back(std::make_pair(n, s));
  if (n > 40000) emit_partial("HANG");
}

template<class T>
struct CountAlloc
{
  typedef T value_type; typedef T * pointer; typedef const T * const_pointer;
  typedef T & reference; typedef const T & const_reference;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  template<class U> struct rebind { typedef CountAlloc<U> other; };
  CountAlloc() {}
  template<class U> CountAlloc(const CountAlloc<U> &) {}
  T * allocate(std::size_t n, const void * = 0)
  {
    inc(liveBytes, (long)(n * sizeof(T)));
    return static_cast<T *>(::operator new(n * sizeof(T)));
  }
  void deallocate(T * p, std::size_t n)
  {
    inc(liveBytes, -(long)(n * sizeof(T)));
    ::operator delete(p);
  }
  template<class U> bool operator==(const CountAlloc<U> &) const { return true; }
  template<class U> bool operator!=(const CountAlloc<U> &) const { return false; }
};

typedef CountAlloc<int> Alloc;
typedef sc::fifo_worker<Alloc> Worker;
typedef sc::fifo_scheduler<Worker, Alloc> Sched;

struct EvInfo
{
  int t, id; unsigned magic;
  EvInfo(int t_, int id_) : t(t_), id(id_), magic(0xE7E7A11Eu) { inc(liveEv, 1); }
  EvInfo(const EvInfo & o) : t(o.t), id(o.id), magic(o.magic) { inc(liveEv, 1); }
  virtual ~EvInfo() { if (magic != 0xE7E7A11Eu) inc(bad, 1); magic = 0; inc(liveEv, -1); }
};
template<int T> struct FEv : sc::event<FEv<T>, Alloc>, EvInfo { explicit FEv(int id) : EvInfo(T, id) {} };
static int ev_id(const sc::event_base & e)
{
  const EvInfo * i = dynamic_cast<const EvInfo *>(&e);
  if (!i || i->magic != 0xE7E7A11Eu) { inc(bad, 1); return -1; }
  return i->id;
}

struct Arg
{
  int v; unsigned magic;
  explicit Arg(int x) : v(x), magic(0xA6A6A6A6u) { inc(liveArg, 1); }
  Arg(const Arg & o) : v(o.v), magic(o.magic) { if (magic != 0xA6A6A6A6u) inc(bad, 1); inc(liveArg, 1); }
  ~Arg() { if (magic != 0xA6A6A6A6u) inc(bad, 1); magic = 0; inc(liveArg, -1); }
};

// ---------------------------------------------------------------------------
struct Cfg { int pNest, pThrow; bool raw, script, mt; };
struct World
{
  std::unique_ptr<Sched> sched;
  std::unique_ptr<Worker> worker;       // raw mode
  std::vector<Sched::processor_handle> handles;
  std::vector<int> stored;              // handle has been returned
  std::vector<Arg *> refs;              // arguments passed by reference
  Cfg cfg;
  Rng rng[kMaxThread + 1];
  std::vector<std::string> tok; std::size_t pos;
  std::atomic<int> nextId, nextX; int nextP, callsLeft, throwsLeft;
};
static World * W = 0;
// shared bookkeeping of the harness itself, only contended when free running
#ifndef BOOST_DISABLE_THREADS
static std::atomic_flag spin = ATOMIC_FLAG_INIT;
struct Guard
{
  Guard() { if (freeRun) while (spin.test_and_set(std::memory_order_acquire)) {} }
  ~Guard() { if (freeRun) spin.clear(std::memory_order_release); }
};
#else
struct Guard { Guard() {} ~Guard() {} };
#endif

static std::string num(long x) { return std::to_string(x); }
static std::string vjson(const std::vector<int> & v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + num(v[i]);
  return s + "]";
}

static void sched_point();
static void user_code(int & th);

// a callback: begins, makes decisions, ends
static void callback(const char * k, int p, int a, const char * s, const std::vector<int> & v, bool ok, bool decides)
{
  ln(std::string("{\"o\":\"cb\",\"t\":") + num(self_) + ",\"k\":\"" + k + "\",\"p\":" + num(p) + ",\"a\":" + num(a) +
    ",\"s\":\"" + s + "\",\"v\":" + vjson(v) + ",\"ok\":" + (ok ? "true" : "false") + "}");
  sched_point();
  int th = 0;
  if (decides) user_code(th);
  ln("{\"o\":\"ce\",\"t\":" + num(self_) + ",\"th\":" + num(th) + "}");
  if (th) throw Boom{th};
}

struct WorkFn
{
  int id;
  std::shared_ptr<int> big;    // not trivially copyable
  explicit WorkFn(int i) : id(i), big(new int(i)) {}
  void operator()() const { callback("work", 0, id, "", std::vector<int>(), *big == id, true); }
};

// Many trivial work items queued by one call (one thread only); those run in
// sequence are reported by one line.
static struct { int base, from, n; } bulk_ = {0, 0, 0};
static void flush_bulk()
{
  if (bulk_.n == 0) return;
  int n = bulk_.n; bulk_.n = 0;
  ln("{\"o\":\"bulk\",\"t\":" + std::to_string(self_) + ",\"a\":" + std::to_string(bulk_.base) + ",\"p\":" +
    std::to_string(bulk_.from) + ",\"n\":" + std::to_string(n) + "}");
}
struct BulkFn
{
  int base, i;
  void operator()() const
  {
    if (bulk_.n == 0 || bulk_.base != base || bulk_.from + bulk_.n != i)
    {
      flush_bulk();
      bulk_.base = base; bulk_.from = i;
    }
    ++bulk_.n;
  }
};

template<class P> bool handle_ok(const P & x, int p)
{
  if (&x.my_scheduler() != W->sched.get()) return false;
  Sched::processor_handle h = x.my_handle();
  if (h.expired()) return false;
  if (freeRun) return true;
  bool known = p < (int)W->stored.size() && W->stored[p]; Sched::processor_handle k;
  if (known) k = W->handles[p];
  return !known || (!(h < k) && !(k < h));
}
template<class P> int find_p(const P & x)
{
  Sched::processor_handle h = x.my_handle();
  for (std::size_t i = 1; i < W->handles.size(); ++i)
    if (!(h < W->handles[i]) && !(W->handles[i] < h)) return (int)i;
  return -1;
}

// a constructor may use my_handle() before create_processor() has returned it
template<class P> void keep_handle(const P & x, int p)
{
  if (freeRun || p <= 0 || p >= (int)W->stored.size() || W->stored[p]) return;
  W->handles[p] = x.my_handle(); W->stored[p] = 1;
}

// arguments: the first one (if any) is the number of the processor
static void take(std::vector<int> &) {}
template<class... R> void take(std::vector<int> & v, Arg & a, R &... r)
{
  int x = a.magic == 0xA6A6A6A6u ? a.v : -1;
  bool ref = false;
  if (!freeRun) { for (std::size_t i = 0; i < W->refs.size(); ++i) if (W->refs[i] == &a) ref = true; }
  v.push_back(ref ? x + 1000 : x);
  take(v, r...);
}

struct Life { unsigned magic; Life() : magic(0x11FE11FEu) {} ~Life() { magic = 0; } };

struct Probe : sc::event_processor<Sched>
{
  typedef sc::event_processor<Sched> base;
  int p; Life life;
  template<class... A> explicit Probe(my_context c, A &&... a) : base(c)
  {
    std::vector<int> v; take(v, a...);
    p = v.empty() ? find_p(*this) : v[0] % 1000;
    keep_handle(*this, p);
    callback("ctor", p, 0, "", v, handle_ok(*this, p), true);
  }
  ~Probe() { callback("dtor", p, 0, "", std::vector<int>(), alive(), false); }
  bool alive() const { return life.magic == 0x11FE11FEu; }
  void initiate_impl() { callback("init", p, 0, "", std::vector<int>(), alive() && handle_ok(*this, p), true); }
  void terminate_impl() { callback("term", p, 0, "", std::vector<int>(), alive() && handle_ok(*this, p), true); }
  void process_event_impl(const sc::event_base & e)
  {
    callback("ev", p, ev_id(e), "", std::vector<int>(), alive() && handle_ok(*this, p), true);
  }
};

struct MA;
struct Mach : sc::asynchronous_state_machine<Mach, MA, Sched, Alloc>
{
  typedef sc::asynchronous_state_machine<Mach, MA, Sched, Alloc> base;
  int p; Life life;
  template<class... A> explicit Mach(my_context c, A &&... a) : base(c)
  {
    std::vector<int> v; take(v, a...);
    p = v.empty() ? find_p(*this) : v[0] % 1000;
    keep_handle(*this, p);
    callback("ctor", p, 0, "", v, handle_ok(*this, p), true);
  }
  ~Mach() { callback("dtor", p, 0, "", std::vector<int>(), alive(), false); }
  bool alive() const { return life.magic == 0x11FE11FEu; }
};
template<class S> bool mach_ok(S & s)
{
  Mach & m = s.outermost_context();
  return m.alive() && handle_ok(m, m.p);
}
struct MB;
struct MA : sc::state<MA, Mach>
{
  int p;
  MA(my_context c) : my_base(c), p(outermost_context().p) { callback("enter", p, 0, "A", std::vector<int>(), mach_ok(*this), true); }
  ~MA() { callback("sdtor", p, 0, "A", std::vector<int>(), true, false); }
  void exit() { callback("exit", p, 0, "A", std::vector<int>(), mach_ok(*this), true); }
  void hit(const FEv<2> & e) { callback("react", p, ev_id(e), "A", std::vector<int>(), mach_ok(*this), true); }
  typedef mpl::list<sc::transition<FEv<1>, MB>, sc::in_state_reaction<FEv<2>, MA, &MA::hit> > reactions;
};
struct MB : sc::state<MB, Mach>
{
  int p;
  MB(my_context c) : my_base(c), p(outermost_context().p) { callback("enter", p, 0, "B", std::vector<int>(), mach_ok(*this), true); }
  ~MB() { callback("sdtor", p, 0, "B", std::vector<int>(), true, false); }
  void exit() { callback("exit", p, 0, "B", std::vector<int>(), mach_ok(*this), true); }
  void hit(const FEv<2> & e) { callback("react", p, ev_id(e), "B", std::vector<int>(), mach_ok(*this), true); }
  typedef mpl::list<sc::transition<FEv<1>, MA>, sc::in_state_reaction<FEv<2>, MB, &MB::hit> > reactions;
};

// ---------------------------------------------------------------------------
static void call_line(const char * op, int p, int a, int m, const std::vector<int> & v = std::vector<int>())
{
  ln(std::string("{\"o\":\"call\",\"t\":") + num(self_) + ",\"op\":\"" + op + "\",\"p\":" + num(p) + ",\"a\":" + num(a) +
    ",\"m\":" + num(m) + ",\"v\":" + vjson(v) + "}");
  sched_point();
}
static void ret_line() { sched_point(); ln("{\"o\":\"ret\",\"t\":" + num(self_) + "}"); }

static int fresh(std::atomic<int> & x) { return x.fetch_add(1, std::memory_order_relaxed); }

static void do_work(int how)
{
  int id = fresh(W->nextId);
  call_line("work", 0, id, 0);
  {
    WorkFn f(id);
    Sched::work_item item(f);
    const Sched::work_item & citem = item;
    if (W->cfg.raw) { if (how & 1) W->worker->queue_work_item(citem); else W->worker->queue_work_item(item); }
    else { if (how & 1) W->sched->queue_work_item(citem); else W->sched->queue_work_item(item); }
  }
  ret_line();
}
static void do_empty(int how)
{
  call_line("empty", 0, 0, 0);
  {
    Sched::work_item item;
    const Sched::work_item & citem = item;
    if (W->cfg.raw) { if (how & 1) W->worker->queue_work_item(citem); else W->worker->queue_work_item(item); }
    else { if (how & 1) W->sched->queue_work_item(citem); else W->sched->queue_work_item(item); }
  }
  ret_line();
}
static void do_stop()
{
  call_line("stop", 0, 0, 0);
  if (W->cfg.raw) W->worker->terminate(); else W->sched->terminate();
  ret_line();
}
static void do_bulk(int n)
{
  int id = fresh(W->nextId);
  call_line("bulk", 0, id, n);
  for (int i = 0; i < n; ++i)
  {
    BulkFn f = {id, i};
    Sched::work_item item(f);
    if (W->cfg.raw) W->worker->queue_work_item(item); else W->sched->queue_work_item(item);
  }
  ret_line();
}
static Arg * new_ref(int v) { Arg * a = new Arg(v); inc(liveArg, -1); W->refs.push_back(a); return a; }

// Which arguments are passed by boost::ref: none (0), the i-th only (i) or all
// (7).  Values of 1000 and more mark them.
static int ref_mode(const std::vector<int> & v)
{
  int c = 0, at = 0;
  for (std::size_t i = 0; i < v.size(); ++i) if (v[i] >= 1000) { ++c; at = (int)i + 1; }
  return c > 1 ? 7 : at;
}
#define VA(i) Arg(v[i])
#define RF(i) boost::ref(*new_ref(v[i] - 1000))
#define CP W->sched->create_processor<P>
template<class P, bool All> struct Create;
template<class P> struct Create<P, true>
{
  static Sched::processor_handle make(int n, const std::vector<int> & v)
  {
    switch (n * 10 + ref_mode(v))
    {
    case 0: return CP();
    case 10: return CP(VA(0));
    case 11: return CP(RF(0));
    case 20: return CP(VA(0), VA(1));
    case 21: return CP(RF(0), VA(1));
    case 22: return CP(VA(0), RF(1));
    case 27: return CP(RF(0), RF(1));
    case 30: return CP(VA(0), VA(1), VA(2));
    case 31: return CP(RF(0), VA(1), VA(2));
    case 32: return CP(VA(0), RF(1), VA(2));
    case 33: return CP(VA(0), VA(1), RF(2));
    case 37: return CP(RF(0), RF(1), RF(2));
    case 40: return CP(VA(0), VA(1), VA(2), VA(3));
    case 41: return CP(RF(0), VA(1), VA(2), VA(3));
    case 42: return CP(VA(0), RF(1), VA(2), VA(3));
    case 43: return CP(VA(0), VA(1), RF(2), VA(3));
    case 44: return CP(VA(0), VA(1), VA(2), RF(3));
    case 47: return CP(RF(0), RF(1), RF(2), RF(3));
    case 50: return CP(VA(0), VA(1), VA(2), VA(3), VA(4));
    case 51: return CP(RF(0), VA(1), VA(2), VA(3), VA(4));
    case 52: return CP(VA(0), RF(1), VA(2), VA(3), VA(4));
    case 53: return CP(VA(0), VA(1), RF(2), VA(3), VA(4));
    case 54: return CP(VA(0), VA(1), VA(2), RF(3), VA(4));
    case 55: return CP(VA(0), VA(1), VA(2), VA(3), RF(4));
    case 57: return CP(RF(0), RF(1), RF(2), RF(3), RF(4));
    case 60: return CP(VA(0), VA(1), VA(2), VA(3), VA(4), VA(5));
    case 61: return CP(RF(0), VA(1), VA(2), VA(3), VA(4), VA(5));
    case 62: return CP(VA(0), RF(1), VA(2), VA(3), VA(4), VA(5));
    case 63: return CP(VA(0), VA(1), RF(2), VA(3), VA(4), VA(5));
    case 64: return CP(VA(0), VA(1), VA(2), RF(3), VA(4), VA(5));
    case 65: return CP(VA(0), VA(1), VA(2), VA(3), RF(4), VA(5));
    case 66: return CP(VA(0), VA(1), VA(2), VA(3), VA(4), RF(5));
    case 67: return CP(RF(0), RF(1), RF(2), RF(3), RF(4), RF(5));
    }
    std::abort();
  }
};
template<class P> struct Create<P, false>
{
  static Sched::processor_handle make(int n, const std::vector<int> & v)
  {
    switch (n * 10 + ref_mode(v))
    {
    case 0: return CP();
    case 10: return CP(VA(0));
    case 20: return CP(VA(0), VA(1));
    case 30: return CP(VA(0), VA(1), VA(2));
    case 40: return CP(VA(0), VA(1), VA(2), VA(3));
    case 50: return CP(VA(0), VA(1), VA(2), VA(3), VA(4));
    case 60: return CP(VA(0), VA(1), VA(2), VA(3), VA(4), VA(5));
    case 11: return CP(RF(0));
    case 27: return CP(RF(0), RF(1));
    case 37: return CP(RF(0), RF(1), RF(2));
    case 47: return CP(RF(0), RF(1), RF(2), RF(3));
    case 57: return CP(RF(0), RF(1), RF(2), RF(3), RF(4));
    case 67: return CP(RF(0), RF(1), RF(2), RF(3), RF(4), RF(5));
    }
    std::abort();
  }
};
// free running threads keep the handles they created to themselves, so that
// the harness does not synchronise them
static std::vector<std::pair<int, Sched::processor_handle> > own_[kMaxThread + 1];

// ref: 0 no argument passed by reference, 1..6 that one, 7 all
static void do_create(int mach, int n, int ref)
{
  int p;
  std::vector<int> v;
  {
    Guard g;
    p = W->nextP++;
    if (!freeRun) { W->handles.resize((std::size_t)p + 1); W->stored.resize((std::size_t)p + 1); }
    for (int i = 0; i < n; ++i) v.push_back(i == 0 ? p : 100 + (p * 7 + i * 13) % 800);
    if (mach && ref) ref = 7;
    if (!freeRun) for (int i = 0; i < n; ++i) if (ref == 7 || ref == i + 1) v[(std::size_t)i] += 1000;
    call_line("create", p, 0, mach, v);
  }
  Sched::processor_handle h = mach ? Create<Mach, false>::make(n, v) : Create<Probe, true>::make(n, v);
  if (freeRun) own_[self_].push_back(std::make_pair(p, h)); else { W->handles[p] = h; W->stored[p] = 1; }
  ret_line();
}
static Sched::processor_handle handle(int p)
{
  if (p == 0) return Sched::processor_handle();
  if (!freeRun) return W->handles[p];
  for (auto & x : own_[self_]) if (x.first == p) return x.second;
  return Sched::processor_handle();
}
static void do_init(int p) { call_line("init", p, 0, 0); W->sched->initiate_processor(handle(p)); ret_line(); }
static void do_term(int p) { call_line("term", p, 0, 0); W->sched->terminate_processor(handle(p)); ret_line(); }
static void do_destroy(int p) { call_line("destroy", p, 0, 0); W->sched->destroy_processor(handle(p)); ret_line(); }
static void do_ev(int p, int type)
{
  int id = fresh(W->nextId);
  call_line("ev", p, id, type);
  {
    Sched::event_ptr_type e;
    if (type == 1) e = new FEv<1>(id); else if (type == 2) e = new FEv<2>(id); else e = new FEv<3>(id);
    W->sched->queue_event(handle(p), e);
  }
  ret_line();
}
static int pick_handle(Rng & r)
{
  std::vector<int> v;
  if (freeRun) { for (auto & x : own_[self_]) v.push_back(x.first); }
  else for (std::size_t i = 1; i < W->stored.size(); ++i) if (W->stored[i]) v.push_back((int)i);
  // prefer recent ones
  if (v.empty()) return 0;
  if (v.size() > 3 && r.chance(800)) v.erase(v.begin(), v.end() - 3);
  return v[(std::size_t)r.below((int)v.size())];
}
static void random_call(Rng & r)
{
  int roll = r.below(100);
  if (W->cfg.raw)
  {
    if (roll < 80) do_work(r.below(2)); else if (roll < 92) do_empty(r.below(2)); else if (roll < 95) do_stop(); else do_work(0);
    return;
  }
  if (roll < 22) return do_work(r.below(2));
  if (roll < 25) return do_empty(r.below(2));
  if (roll < 27) { if (r.chance(400)) do_stop(); else do_work(1); return; }
  int p = pick_handle(r);
  if (r.chance(30)) p = 0;               // a handle that never referred to anything
  else if (p == 0) roll = 40;
  if (roll < 42)
  {
    int n = W->cfg.mt ? 1 + r.below(6) : r.below(7);
    return do_create(r.below(2), n, r.chance(400) ? 1 + r.below(7) : 0);
  }
  if (roll < 58) return do_init(p);
  if (roll < 64) return do_term(p);
  if (roll < 70) return do_destroy(p);
  int type = 1 + r.below(100) / 45;
  do_ev(p, type);
}

static bool script_call(const std::string & t)
{
  std::vector<int> f; { std::istringstream in(t.size() > 2 ? t.substr(2) : ""); std::string x; while (std::getline(in, x, '.')) f.push_back(atoi(x.c_str())); }
  switch (t[0])
  {
  case 'Q': do_work((int)W->pos & 1); return true;
  case 'E': do_empty((int)W->pos & 1); return true;
  case 'S': do_stop(); return true;
  case 'B': do_bulk(f[0]); return true;
  case 'C': do_create(f[0], (int)(W->pos * 5 + W->tok.size()) % 7, (int)(W->pos * 3 + W->tok.size()) % 8); return true;
  case 'I': do_init(f[0]); return true;
  case 'T': do_term(f[0]); return true;
  case 'D': do_destroy(f[0]); return true;
  case 'V': do_ev(f[0], f[1]); return true;
  }
  return false;
}

static void user_code(int & th)
{
  if (W->cfg.script)
  {
    while (W->pos < W->tok.size() && W->tok[W->pos][0] != 'e')
    {
      // the recorded structure was left: the model will tell
      if (W->tok[W->pos][0] == 'R' || W->tok[W->pos][0] == 'K') return;
      std::string t = W->tok[W->pos++];
      script_call(t);
    }
    if (W->pos < W->tok.size())
    {
      if (W->tok[W->pos] == "e.1") th = W->nextX++;
      ++W->pos;
    }
    return;
  }
  Rng & r = W->rng[self_];
  for (int i = 0; i < 2; ++i)
    if (W->callsLeft > 0 && r.chance(W->cfg.pNest)) { --W->callsLeft; random_call(r); }
  if (W->throwsLeft > 0 && r.chance(W->cfg.pThrow)) { --W->throwsLeft; th = W->nextX++; }
}

static std::string counts()
{
  if (W->cfg.mt) return ",\"ne\":-1,\"na\":-1";
  return ",\"ne\":" + num(liveEv) + ",\"na\":" + num(liveArg);
}
static bool is_term() { return W->cfg.raw ? W->worker->terminated() : W->sched->terminated(); }
static void do_run(unsigned long n)
{
  // numbers of the specification have 32 bits: larger limits are never reached
  ln("{\"o\":\"run\",\"t\":" + num(self_) + ",\"n\":" + num((long)std::min(n, 1000000000ul)) + "}");
  sched_point();
  try
  {
    unsigned long c = W->cfg.raw ? (n == 0 ? (*W->worker)() : (*W->worker)(n)) : (n == 0 ? (*W->sched)() : (*W->sched)(n));
    ln("{\"o\":\"ran\",\"t\":" + num(self_) + ",\"n\":" + num((long)std::min(c, 2000000000ul)) + ",\"tm\":" + (is_term() ? "true" : "false") + counts() + "}");
  }
  catch (const Boom & b)
  {
    ln("{\"o\":\"rthrew\",\"t\":" + num(self_) + ",\"x\":" + num(b.id) + ",\"tm\":" + (is_term() ? "true" : "false") + counts() + "}");
  }
}
static void do_kill()
{
  ln("{\"o\":\"kill\",\"t\":" + num(self_) + "}");
  W->sched.reset(); W->worker.reset();
  ln("{\"o\":\"gone\",\"t\":" + num(self_) + ",\"ne\":" + num(liveEv) + ",\"na\":" + num(liveArg) + ",\"ab\":" + num(liveBytes) +
    ",\"bad\":" + num(bad) + "}");
}

// ---------------------------------------------------------------------------
static int curId = 0, curSub = 0;
static bool curWait = false;
static std::string gather()
{
  Log all;
  for (int i = 0; i <= kMaxThread; ++i) { all.insert(all.end(), logs[i].begin(), logs[i].end()); logs[i].clear(); }
  std::sort(all.begin(), all.end());
  std::string s;
  for (std::size_t i = 0; i < all.size(); ++i) s += all[i].second + "\n";
  return s;
}
static std::string outbuf;
static void flush_all()
{
  std::size_t off = 0;
  while (off < outbuf.size())
  {
    ssize_t n = ::write(1, outbuf.data() + off, outbuf.size() - off);
    if (n <= 0) break;
    off += (std::size_t)n;
  }
  outbuf.clear();
}
static void put(const std::string & body, const char * tail)
{
  outbuf += "{\"o\":\"begin\",\"id\":" + num(curId) + ",\"lane\":" + num(curSub) + ",\"wait\":" + (curWait ? "true" : "false") +
    ",\"exact\":" + (W && !W->cfg.mt ? "true" : "false") + "}\n" + body + "{\"o\":\"" + tail + "\"}\n";
  if (outbuf.size() > (1u << 16)) flush_all();
}
static void emit_partial(const char * tail) { put(gather(), tail); flush_all(); _exit(98); }
static void on_signal(int s) { put(gather(), s == SIGALRM ? "HANG" : "CRASH"); flush_all(); _exit(s == SIGALRM ? 98 : 97); }

static void setup(const Cfg & c, bool wait, unsigned long long seed)
{
  W = new World();
  for (int i = 0; i <= kMaxThread; ++i) own_[i].clear();
  W->cfg = c; W->pos = 0; W->nextId = 1; W->nextP = 1; W->nextX = 1; W->callsLeft = 25; W->throwsLeft = 4;
  W->handles.resize(1); W->stored.resize(1);
  for (int i = 0; i <= kMaxThread; ++i) W->rng[i] = Rng(seed * 7919 + (unsigned)i * 104729 + 5);
  seqNo = 0; bad = 0; liveEv = 0; liveArg = 0; liveBytes = 0;
  curWait = wait;
#ifdef BOOST_DISABLE_THREADS
  if (c.raw) W->worker.reset(new Worker()); else W->sched.reset(new Sched());
#else
  if (c.raw) W->worker.reset(new Worker(wait)); else W->sched.reset(new Sched(wait));
#endif
}
static void teardown()
{
  for (std::size_t i = 0; i < W->refs.size(); ++i) { inc(liveArg, 1); delete W->refs[i]; }
  delete W; W = 0;
}

static void run_single(const Cfg & c, const std::vector<std::string> & tok, unsigned long long seed, int nOps)
{
  setup(c, false, seed);
  self_ = 0;
  if (c.script)
  {
    W->tok = tok;
    while (W->pos < W->tok.size())
    {
      std::string t = W->tok[W->pos++];
      if (t[0] == 'R') do_run(strtoul(t.c_str() + 2, 0, 10));
      else if (t[0] == 'K') break;
      else script_call(t);
    }
  }
  else
  {
    Rng & r = W->rng[0];
    for (int i = 0; i < nOps; ++i)
      if (r.chance(300)) do_run(r.chance(500) ? 0 : 1u + (unsigned)r.below(4)); else random_call(r);
    if (r.chance(700)) do_run(0);
  }
  do_kill();
  self_ = -1;
  put(gather(), "end");
  teardown();
}

// ---------------------------------------------------------------------------
#if defined(BOOST_DISABLE_THREADS)
static void sched_point() {}
#else

struct Plan { int raw, wait, clients, nOps, runs, pNest, pThrow; unsigned long long seed; };

static void client(const Plan & pl, int t)
{
  self_ = t;
  Rng & r = W->rng[t];
  int n = 1 + r.below(pl.nOps);
  for (int i = 0; i < n; ++i) random_call(r);
}
static void runner(const Plan & pl)
{
  self_ = 0;
  Rng & r = W->rng[0];
  for (int i = 0; i < pl.runs && !is_term(); ++i)
    do_run(i + 1 == pl.runs || r.chance(500) ? 0 : 1u + (unsigned)r.below(3));
}

#ifdef HX_SCHED
// Deterministic scheduling: one thread runs at a time, mutexes and condition
// variables are simulated, and at every use of one of them (and around user
// code) the next thread to run is chosen.
enum St { Ready, OnMutex, OnCond, Done, Asleep };
struct Thr { sem_t sem; St st; const void * on; };
static Thr thr[kMaxThread + 1];
static sem_t mainSem;
static bool active = false;
static std::map<const void *, int> owner;
static int spurLeft = 0;
static bool rescued = false;
static TLS bool part = false;          // this thread takes part

// choices: replayed, then default or random
static std::vector<int> chosen, options, cost;
static std::vector<int> prefix;
static bool randomChoice = true;
static Rng * choiceRng = 0;
static int pPreempt = 0;

static int choose(const std::vector<int> & opts, bool selfFirst, int nNormal)
{
  // opts[0] is the thread that goes on by default; those from nNormal on are
  // spurious wakeups
  int k = 0;
  if (randomChoice)
  {
    if (opts.size() > 1)
    {
      if (!selfFirst) k = choiceRng->below(nNormal);
      else if (choiceRng->chance(pPreempt)) k = choiceRng->below(nNormal);
      if ((int)opts.size() > nNormal && choiceRng->chance(60)) k = nNormal + choiceRng->below((int)opts.size() - nNormal);
    }
  }
  else
  {
    std::size_t i = chosen.size();
    k = i < prefix.size() ? prefix[i] : 0;
    if (k >= (int)opts.size()) k = 0;
    chosen.push_back(k); options.push_back((int)opts.size());
    cost.push_back(selfFirst ? 1 : 0);
  }
  return k;
}

static void finish_deadlock();
// give the processor to somebody else (self is not Ready) or maybe (self is)
static void yield_cpu()
{
  int me = self_;
  std::vector<int> opts;
  bool selfFirst = thr[me].st == Ready;
  if (selfFirst) opts.push_back(me);
  for (int i = 0; i <= kMaxThread; ++i) if (i != me && thr[i].st == Ready) opts.push_back(i);
  int nNormal = (int)opts.size();
  if (nNormal > 0 && spurLeft > 0)
    for (int i = 0; i <= kMaxThread; ++i) if (thr[i].st == OnCond && i != me) opts.push_back(i);
  if (nNormal == 0)
  {
    const bool done = thr[me].st == Done;
    finish_deadlock();
    if (done) return;
    while (sem_wait(&thr[me].sem) != 0) {}
  }
  else
  {
    const bool done = thr[me].st == Done;      // nothing is ours after the post
    int k = choose(opts, selfFirst, nNormal);
    int n = opts[(std::size_t)k];
    if (k >= nNormal) { --spurLeft; thr[n].st = Ready; }
    if (n == me) return;
    sem_post(&thr[n].sem);
    if (done) return;
    while (sem_wait(&thr[me].sem) != 0) {}
  }
}
static void finish_deadlock()
{
  bool allDone = true;
  for (int i = 0; i < kMaxThread; ++i) if (thr[i].st != Done) allDone = false;
  if (thr[kMaxThread].st == Asleep) { rescued = !allDone; thr[kMaxThread].st = Ready; sem_post(&thr[kMaxThread].sem); return; }
  if (allDone && thr[kMaxThread].st == Done) { sem_post(&mainSem); return; }
  emit_partial("STUCK");
}
static void sched_point() { if (part && active) yield_cpu(); }

typedef int (*mfun)(pthread_mutex_t *);
typedef int (*cfun)(pthread_cond_t *);
template<class F> F real(const char * n) { return (F)dlsym(RTLD_NEXT, n); }

extern "C" int pthread_mutex_lock(pthread_mutex_t * m)
{
  static mfun f = 0;
  if (!(part && active)) { if (!f) f = real<mfun>("pthread_mutex_lock"); return f(m); }
  yield_cpu();
  while (owner.count(m) && owner[m] != -1) { thr[self_].st = OnMutex; thr[self_].on = m; yield_cpu(); }
  owner[m] = self_;
  return 0;
}
static void release(pthread_mutex_t * m)
{
  owner[m] = -1;
  for (int i = 0; i <= kMaxThread; ++i) if (thr[i].st == OnMutex && thr[i].on == m) thr[i].st = Ready;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t * m)
{
  static mfun f = 0;
  if (!(part && active)) { if (!f) f = real<mfun>("pthread_mutex_trylock"); return f(m); }
  yield_cpu();
  if (owner.count(m) && owner[m] != -1) return 16;
  owner[m] = self_;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static mfun f = 0;
  if (!(part && active)) { if (!f) f = real<mfun>("pthread_mutex_unlock"); return f(m); }
  release(m);
  yield_cpu();
  return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  typedef int (*wfun)(pthread_cond_t *, pthread_mutex_t *);
  static wfun f = 0;
  if (!(part && active)) { if (!f) f = real<wfun>("pthread_cond_wait"); return f(c, m); }
  release(m);
  thr[self_].st = OnCond; thr[self_].on = c;
  yield_cpu();
  while (owner.count(m) && owner[m] != -1) { thr[self_].st = OnMutex; thr[self_].on = m; yield_cpu(); }
  owner[m] = self_;
  return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t * c)
{
  static cfun f = 0;
  if (!(part && active)) { if (!f) f = real<cfun>("pthread_cond_signal"); return f(c); }
  std::vector<int> w;
  for (int i = 0; i <= kMaxThread; ++i) if (thr[i].st == OnCond && thr[i].on == c) w.push_back(i);
  if (!w.empty()) thr[w[(std::size_t)choose(w, false, (int)w.size())]].st = Ready;
  yield_cpu();
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t * c)
{
  static cfun f = 0;
  if (!(part && active)) { if (!f) f = real<cfun>("pthread_cond_broadcast"); return f(c); }
  for (int i = 0; i <= kMaxThread; ++i) if (thr[i].st == OnCond && thr[i].on == c) thr[i].st = Ready;
  yield_cpu();
  return 0;
}

// a pool of threads, used again and again
static Plan thePlan;
static std::vector<std::thread> pool;
static bool quitPool = false;
static sem_t startSem[kMaxThread + 1];
static sem_t doneSem;
static void body(int t)
{
  for (;;)
  {
    while (sem_wait(&startSem[t]) != 0) {}
    if (quitPool) return;
    self_ = t; part = true;
    while (sem_wait(&thr[t].sem) != 0) {}
    if (t == 0) runner(thePlan);
    else if (t < kMaxThread) client(thePlan, t);
    else if (rescued)
    {
      ln("{\"o\":\"blocked\",\"t\":4}");
      do_stop();
    }
    thr[t].st = Done;
    yield_cpu();
    part = false;
    sem_post(&doneSem);
  }
}

static std::string run_det(const Plan & pl)
{
  Cfg c = {pl.pNest, pl.pThrow, pl.raw != 0, false, true};
  thePlan = pl;
  setup(c, pl.wait != 0, pl.seed);
  W->callsLeft = 6; W->throwsLeft = 2;
  if (pool.empty())
    for (int i = 0; i <= kMaxThread; ++i)
    {
      sem_init(&thr[i].sem, 0, 0); sem_init(&startSem[i], 0, 0);
      if (i == 0) { sem_init(&mainSem, 0, 0); sem_init(&doneSem, 0, 0); }
    }
  bool grow = pool.empty();
  for (int i = 0; i <= kMaxThread; ++i)
  {
    thr[i].st = i == kMaxThread ? Asleep : i > pl.clients ? Done : Ready;
    thr[i].on = 0;
  }
  if (grow) for (int i = 0; i <= kMaxThread; ++i) pool.emplace_back(body, i);
  owner.clear(); rescued = false; active = true;
  for (int i = 0; i <= kMaxThread; ++i) if (i <= pl.clients || i == kMaxThread) sem_post(&startSem[i]);
  chosen.clear(); options.clear(); cost.clear();
  std::vector<int> first;
  for (int i = 0; i <= pl.clients; ++i) first.push_back(i);
  sem_post(&thr[first[(std::size_t)choose(first, false, (int)first.size())]].sem);
  while (sem_wait(&mainSem) != 0) {}
  for (int i = 0; i <= kMaxThread; ++i)
    if (i <= pl.clients || i == kMaxThread) while (sem_wait(&doneSem) != 0) {}
  active = false;
  self_ = kMaxThread;
  if (!pl.wait && W->rng[4].chance(500)) do_run(0);
  do_kill();
  self_ = -1;
  return gather();
}
static void end_pool()
{
  quitPool = true;
  for (std::size_t i = 0; i < pool.size(); ++i) sem_post(&startSem[i]);
  for (std::size_t i = 0; i < pool.size(); ++i) pool[i].join();
}
#else
static void sched_point() {}
#endif

static void run_free(const Plan & pl)
{
  Cfg c = {pl.pNest, pl.pThrow, pl.raw != 0, false, true};
  setup(c, pl.wait != 0, pl.seed);
  freeRun = true;
  std::vector<std::thread> ts;
  if (pl.wait)
    ts.emplace_back([&] { self_ = 0; Rng & r = W->rng[0]; while (!is_term()) do_run(r.chance(500) ? 0 : 1u + (unsigned)r.below(3)); });
  else ts.emplace_back([&] { runner(pl); });
  for (int i = 1; i <= pl.clients; ++i) ts.emplace_back([&, i] { client(pl, i); });
  for (std::size_t i = 1; i < ts.size(); ++i) ts[i].join();
  self_ = kMaxThread;
  if (pl.wait) do_stop();
  ts[0].join();
  freeRun = false;
  do_kill();
  self_ = -1;
  put(gather(), "end");
  teardown();
}

// The same event object queued to two schedulers run by two threads, and
// handles copied and dropped everywhere: only for the data race detector.
struct Sink : sc::event_processor<Sched>
{
  long * n;
  Sink(my_context c, long * p) : sc::event_processor<Sched>(c), n(p) {}
  void initiate_impl() {}
  void terminate_impl() {}
  void process_event_impl(const sc::event_base & e) { *n += ev_id(e); }
};
static bool run_share(int rounds)
{
  long a = 0, b = 0, want = 0;
  {
    Sched s1(true), s2(true);
    Sched::processor_handle h1 = s1.create_processor<Sink>(&a), h2 = s2.create_processor<Sink>(&b);
    std::thread t1([&] { s1(); }), t2([&] { s2(); });
    for (int i = 1; i <= rounds; ++i)
    {
      Sched::event_ptr_type e(new FEv<1>(i));
      s1.queue_event(h1, e);
      s2.queue_event(h2, e);
      want += i;
    }
    s1.terminate(); s2.terminate();
    t1.join(); t2.join();
  }
  return a == want && b == want && liveEv == 0;
}
#endif

int main()
{
  std::set_terminate([] { on_signal(SIGABRT); });
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) std::signal(s, on_signal);
  std::string s;
  while (std::getline(std::cin, s))
  {
    if (s.empty()) continue;
    std::vector<std::string> tok; { std::istringstream in(s); std::string x; while (in >> x) tok.push_back(x); }
    curId = atoi(tok[1].c_str()); curSub = 0;
    auto n = [&](std::size_t i) { return atoi(tok.at(i).c_str()); };
    alarm(30);
    if (tok[0] == "S")
    {
      Cfg c = {0, 0, n(2) != 0, true, false};
      run_single(c, std::vector<std::string>(tok.begin() + 3, tok.end()), 1, 0);
    }
    else if (tok[0] == "R")
    {
      Cfg c = {n(5), n(6), n(2) != 0, false, false};
      run_single(c, std::vector<std::string>(), (unsigned)n(3), n(4));
    }
#ifndef BOOST_DISABLE_THREADS
    else if (tok[0] == "H")
    {
      Plan p = {n(3), n(4), n(5), n(6), n(7), n(8), n(9), (unsigned)n(2)};
      run_free(p);
    }
    else if (tok[0] == "E")
    {
      liveEv = 0; bad = 0;
      bool ok = run_share(n(2));
      outbuf += "{\"o\":\"begin\",\"id\":" + num(curId) + ",\"lane\":0,\"wait\":true,\"exact\":false}\n";
      outbuf += std::string("{\"o\":\"") + (ok ? "shared" : "BADSHARE") + "\"}\n";
    }
#ifdef HX_SCHED
    else if (tok[0] == "M")
    {
      Plan p = {n(3), n(4), n(5), n(6), n(7), n(8), n(9), (unsigned)n(2)};
      randomChoice = true; pPreempt = n(10); spurLeft = n(11);
      Rng r((unsigned)n(2) * 31 + 7); choiceRng = &r;
      put(run_det(p), "end");
      teardown();
    }
    else if (tok[0] == "X")
    {
      Plan p = {n(3), n(4), n(5), n(6), n(7), n(8), n(9), (unsigned)n(2)};
      randomChoice = false; prefix.clear();
      int bound = n(10), cap = n(11), spur = n(12);
      std::set<std::string> seen;
      int runs = 0;
      for (;;)
      {
        spurLeft = spur;
        std::string body = run_det(p);
        ++runs;
        bool isNew = seen.insert(body).second;
        if (isNew) { put(body, "end"); ++curSub; }
        teardown();
        alarm(30);
        // next schedule: last choice that can be increased within the bound
        int used = 0;
        std::vector<int> acc(chosen.size());
        for (std::size_t i = 0; i < chosen.size(); ++i) { acc[i] = used; if (chosen[i] > 0) used += cost[i]; }
        long i = (long)chosen.size() - 1;
        for (; i >= 0; --i)
          if (chosen[(std::size_t)i] + 1 < options[(std::size_t)i] && acc[(std::size_t)i] + cost[(std::size_t)i] <= bound) break;
        if (i < 0 || runs >= cap) { if (i < 0) runs = -runs; break; }
        prefix.assign(chosen.begin(), chosen.begin() + i + 1);
        ++prefix[(std::size_t)i];
      }
      outbuf += "{\"o\":\"begin\",\"id\":" + num(curId) + ",\"lane\":-1,\"wait\":false,\"exact\":false}\n";
      outbuf += "{\"o\":\"schedules\",\"n\":" + num(runs < 0 ? -runs : runs) + ",\"all\":" + (runs < 0 ? "true" : "false") + "}\n";
    }
#endif
#endif
    alarm(0);
  }
  flush_all();
#if !defined(BOOST_DISABLE_THREADS) && defined(HX_SCHED)
  if (!pool.empty()) end_pool();
#endif
  return 0;
}
