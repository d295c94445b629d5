// Harness core: records what the library does to user code (one NDJSON line
// per call into user code / API return) and makes the decisions user code
// makes (throw, post, clear history, outcome of a custom reaction), either
// drawn from a seeded generator or replayed from a script.
//
// Only the public API of boost::statechart is used here.
//
// HX_THREADS: everything here is per thread.  HX_PAIR: two charts in one
// program, each with its own copy of the harness in a namespace of its own.
#ifndef HX_HPP
#define HX_HPP
#ifdef HX_THREADS
#  define HX_TL thread_local
#else
#  define HX_TL
#endif

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <exception>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <iostream>
#include <memory>
#include <typeinfo>
#ifdef HX_THREADS
#  include <thread>
#  include <atomic>
#endif

#include "sysboost.hpp"
#include "hxnew.hpp"

#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/exception_translator.hpp>

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

namespace hx
{

struct Boom { int id; explicit Boom(int i) : id(i) {} };

struct Post { int t, id, how; };
struct Clr { char kind; int s, r; };
struct Dec
{
  int th = 0, op = 1;
  int fail = 0;                      // this allocation of the last post fails
  std::vector<Post> ps;
  std::vector<Clr> cl;
};
struct Caps { bool post, thr, clr, self; int nops; };

// per chart constants, defined by the generated file
extern const int kStates;
extern const int kEvents;
extern const std::vector<Clr> kClears;
extern const std::vector<std::vector<int>> kTermOps;   // unused slots empty

//---------------------------------------------------------------------------
struct Rng
{
  unsigned long long x;
  explicit Rng(unsigned long long s) : x(s * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  unsigned next()
  {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return (unsigned)(x >> 17);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (unsigned)n); }
  bool chance(int permille) { return below(1000) < permille; }
};

//---------------------------------------------------------------------------
// one trace buffer per machine instance
struct Lane
{
  int tag = 0;                       // which machine of this run
  std::string buf;
  std::vector<const void *> obj;     // live object per state id
  int nObj = 0;                      // live state objects
  int nextEv = 1, nextExc = 1;
  int nOwn = 0;                      // state objects from their own operator new
  const void * machine = nullptr;
  int posts = 0, maxPosts = 40, throws = 0, maxThrows = 6;
  bool dtorOk = true;
  // replay
  std::vector<Dec> script; std::size_t pos = 0;
  bool alive = true;
  // an event object the user keeps a pointer to
  boost::intrusive_ptr<const sc::event_base> kept; int keptT = 0, keptId = 0;
};

struct Prof
{
  int pThrow = 0, pPost = 0, pClr = 0, pHeap = 400, pSelf = 0, pAlloc = 0;
  int nOps = 12, pInit = 40, pTerm = 40;
  int pOut = 0, pCold = 0;           // posts and clears between calls, no initiate() first
  int maxPosts = 40, maxThrows = 6;
  int ops = 1000;                    // chance to pick an outcome other than 1
};

inline HX_TL Lane * cur = nullptr;
inline HX_TL bool random_mode = true;
inline HX_TL Rng * rng = nullptr;
inline HX_TL Prof prof;
inline HX_TL std::string outbuf;
inline HX_TL int badEvents = 0;      // damaged or dead event object seen
inline HX_TL long liveBytes = 0;     // by counting allocators
inline HX_TL long liveEvObjs = 0;
inline HX_TL long liveBlocks[2] = {0, 0};  // per allocator: machines, events
inline HX_TL int failAfter = 0, failWith = 0;

inline void flush_all()
{
  std::size_t off = 0;
  while (off < outbuf.size())
  {
    ssize_t n = ::write(1, outbuf.data() + off, outbuf.size() - off);
    if (n <= 0) break;
    off += (std::size_t)n;
  }
  outbuf.clear();
}

struct EvInfo
{
  int t, id; unsigned magic; bool counted; Lane * lane;
  EvInfo(int t_, int id_) : t(t_), id(id_), magic(0xE7E7A11Eu), counted(false), lane(nullptr) { ++liveEvObjs; }
  EvInfo(const EvInfo & o) : t(o.t), id(o.id), magic(0xE7E7A11Eu), counted(false), lane(nullptr)
  {
    if (o.magic != 0xE7E7A11Eu) ++badEvents;
    ++liveEvObjs;
  }
  EvInfo & operator=(const EvInfo & o) { t = o.t; id = o.id; if (o.magic != 0xE7E7A11Eu) ++badEvents; return *this; }
  virtual ~EvInfo() { if (magic != 0xE7E7A11Eu) ++badEvents; magic = 0; --liveEvObjs; }
};

#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
inline char * custom_mark() { static char x[512]; return x; }
#endif

inline int tid(const sc::event_base * e)
{
  if (!e) return 0;
  const EvInfo * i = dynamic_cast<const EvInfo *>(e);
  if (!i) return -1;                // an exception event
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
  if (e->custom_dynamic_type_ptr<char>() != (i->t % 3 ? custom_mark() + 256 + i->t : nullptr)) ++badEvents;
#endif
  if (i->magic != 0xE7E7A11Eu) { ++badEvents; return -9; }
  return i->id;
}

//---------------------------------------------------------------------------
inline int & allocFailFor() { static int x = 0; return x; }

template<class T, class = void> struct state_id_of { enum { value = 0 }; };
template<class T> struct state_id_of<T, decltype((void)T::hx_id)> { enum { value = T::hx_id }; };

void maybe_alloc_fail(int stateId);

template<class T, int Pool>
struct CountAlloc
{
  typedef T value_type; typedef T * pointer; typedef const T * const_pointer;
  typedef T & reference; typedef const T & const_reference;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  template<class U> struct rebind { typedef CountAlloc<U, Pool> other; };
  CountAlloc() {}
  template<class U> CountAlloc(const CountAlloc<U, Pool> &) {}
  T * allocate(std::size_t n, const void * = 0)
  {
    hxnew::User u;
    if (failAfter > 0 && --failAfter == 0) throw Boom(failWith);
    maybe_alloc_fail(state_id_of<T>::value);
    liveBytes += (long)(n * sizeof(T));
    ++liveBlocks[Pool];
    return static_cast<T *>(::operator new(n * sizeof(T)));
  }
  void deallocate(T * p, std::size_t n)
  {
    liveBytes -= (long)(n * sizeof(T));
    --liveBlocks[Pool];
    ::operator delete(p);
  }
  template<class U> bool operator==(const CountAlloc<U, Pool> &) const { return true; }
  template<class U> bool operator!=(const CountAlloc<U, Pool> &) const { return false; }
};
template<int Pool> struct CountAlloc<void, Pool>
{
  typedef void value_type; typedef void * pointer;
  template<class U> struct rebind { typedef CountAlloc<U, Pool> other; };
};

// for state classes that manage their memory themselves
inline void * own_new(std::size_t n) { hxnew::User u; ++cur->nOwn; return ::operator new(n); }
inline void own_delete(void * p) { --cur->nOwn; ::operator delete(p); }

template<int T, class A>
struct Ev : sc::event<Ev<T, A>, A>, EvInfo
{
  explicit Ev(int id) : EvInfo(T, id) {}
};

// A local event object: created directly, copied or assigned from an event
// that is owned by pointers
template<class E, class F>
void with_local(int id, F f)
{
  if (id % 3 == 0) { E e(id); f(e); return; }
  boost::intrusive_ptr<E> p(new E(id));
  if (id % 3 == 1) { E e(*p); p = 0; f(e); return; }
  E e(id + 100000); e = *p; p = 0; f(e);
}

//---------------------------------------------------------------------------
inline std::string posts_json(const std::vector<Post> & ps)
{
  std::string s = "[";
  for (auto & p : ps)
  {
    if (s.size() > 1) s += ",";
    s += "[" + std::to_string(p.t) + "," + std::to_string(p.id) + "," + std::to_string(p.how) + "]";
  }
  return s + "]";
}
inline std::string clears_json(const std::vector<Clr> & cl)
{
  std::string s = "[";
  for (auto & c : cl)
  {
    if (s.size() > 1) s += ",";
    s += std::string("[\"") + c.kind + "\"," + std::to_string(c.s) + "," + std::to_string(c.r) + "]";
  }
  return s + "]";
}

inline Dec decide(const Caps & caps, int trigId)
{
  Lane & L = *cur;
  Dec d;
  if (!random_mode)
  {
    if (L.pos < L.script.size())
    {
      d = L.script[L.pos++];
      if (!caps.thr) d.th = 0;
      if (!caps.post) d.ps.clear();
      if (!caps.clr) d.cl.clear();
      if (d.op > caps.nops) d.op = caps.nops;
      if (d.op < 1) d.op = 1;
    }
  }
  else
  {
    if (caps.nops > 1 && rng->chance(prof.ops)) d.op = 1 + rng->below(caps.nops);
    if (caps.thr && L.throws < L.maxThrows && rng->chance(prof.pThrow)) d.th = 1;
    if (caps.post)
      while (L.posts + (int)d.ps.size() < L.maxPosts && d.ps.size() < 3 && rng->chance(prof.pPost))
      {
        Post p; p.t = 1 + rng->below(kEvents); p.id = 0; p.how = rng->chance(prof.pHeap) ? 1 : 0;
        if (caps.self && trigId != 0 && rng->chance(prof.pSelf)) p.how = 2;
        if (p.how == 1 && rng->chance(300)) p.how = 3;
        d.ps.push_back(p);
        while (L.posts + (int)d.ps.size() < L.maxPosts && rng->chance(250)) { p.how = 4; d.ps.push_back(p); }
      }
    if (caps.clr && !kClears.empty() && rng->chance(prof.pClr))
      d.cl.push_back(kClears[(std::size_t)rng->below((int)kClears.size())]);
  }
  std::vector<Post> keep;
  int keptT = L.keptT, keptId = L.keptId;
  for (auto & p : d.ps)
  {
    if (p.how == 2) { if (!caps.self || trigId == 0) continue; p.id = trigId; }
    else if (p.how == 4) { if (keptT == 0) continue; p.t = keptT; p.id = keptId; }
    else p.id = L.nextEv++;
    if (p.how == 3) { keptT = p.t; keptId = p.id; }
    keep.push_back(p);
  }
  d.ps = keep;
  L.posts += (int)d.ps.size();
  if (d.th)
  {
    // scripts tell which kind of exception (modulo 3)
    if (!random_mode) while (L.nextExc % 3 != d.th % 3) ++L.nextExc;
    d.th = L.nextExc++; ++L.throws;
  }
  else if (random_mode && !d.ps.empty() && L.throws < L.maxThrows && rng->chance(prof.pAlloc)) d.fail = 1 + rng->below(2);
  return d;
}

inline void maybe_alloc_fail(int sid)
{
  if (sid == 0 || !cur || !cur->alive) return;
  if (!random_mode || prof.pAlloc == 0) return;
  if (cur->throws >= cur->maxThrows || !rng->chance(prof.pAlloc)) return;
  int x = cur->nextExc++; ++cur->throws;
  cur->buf += "{\"o\":\"enter\",\"s\":" + std::to_string(sid) + ",\"tr\":-3,\"ok\":true,\"op\":1,\"th\":" +
    std::to_string(x) + ",\"ps\":[],\"cl\":[]}\n";
  throw Boom(x);
}

void on_runaway();

inline void line(const char * o, int s, int tr, bool ok, const Dec & d, const std::string & extra = "")
{
  cur->buf += std::string("{\"o\":\"") + o + "\",\"s\":" + std::to_string(s) +
    ",\"tr\":" + std::to_string(tr) + ",\"ok\":" + (ok ? "true" : "false") +
    ",\"op\":" + std::to_string(d.op) + ",\"th\":" + std::to_string(d.th) +
    ",\"ps\":" + posts_json(d.ps) + ",\"cl\":" + clears_json(d.cl) + extra + "}\n";
  if (cur->buf.size() > (1u << 22)) on_runaway();
}

// The library asks the state itself to defer or discard an event
inline void hint(const char * o, int s) { hxnew::User u; line(o, s, -3, true, Dec()); }

//---------------------------------------------------------------------------
// generated per chart
template<class S> void do_clear(S & s, const Clr & c);
template<class S> void do_post(S & s, const Post & p, const sc::event_base * trig);

inline Lane * laneOf(const void * machine);

template<class S>
void effects(S & s, Dec & d, const sc::event_base * trig)
{
  for (std::size_t i = 0; i < d.ps.size(); ++i)
  {
    if (d.fail && i + 1 == d.ps.size())
    {
      failAfter = d.fail; failWith = cur->nextExc;
      try { hxnew::Lib l; do_post(s, d.ps[i], trig); }
      catch (const Boom &)
      {
        failAfter = 0;
        d.ps.pop_back(); --cur->posts; d.th = cur->nextExc++; ++cur->throws;
      }
      failAfter = 0;
    }
    else if (d.ps[i].how == 2 && tid(trig) < 0) do_post(s, d.ps[i], trig);
    else { hxnew::Lib l; do_post(s, d.ps[i], trig); }
  }
  hxnew::Lib l;
  for (auto & c : d.cl) do_clear(s, c);
}

// dtor bookkeeping
inline void note_dtor(int id, const void * self)
{
  hxnew::User u;
  Lane & L = *cur;
  bool ok = (std::size_t)id < L.obj.size() && L.obj[(std::size_t)id] == self;
  L.obj[(std::size_t)id] = nullptr;
  --L.nObj;
  line("dtor", id, -3, ok, Dec());
}

inline bool note_alive(int id, const void * self)
{
  Lane & L = *cur;
  bool ok = L.obj[(std::size_t)id] == nullptr;
  L.obj[(std::size_t)id] = self;
  ++L.nObj;
  return ok;
}
inline void note_dead(int id) { cur->obj[(std::size_t)id] = nullptr; --cur->nObj; }

inline bool is_live(int id, const void * self) { return cur->obj[(std::size_t)id] == self; }

} // namespace hx

#endif
