// Second half of the harness: included by a generated chart file after the
// states have been defined.  Expects:
//   struct M (the machine), states_of(), act/ctx helpers (see lib/charts.py)
#ifndef HXMAIN_HPP
#define HXMAIN_HPP

namespace hx
{

struct Run
{
  Lane lane;
  std::unique_ptr<M> mach;
};

inline HX_TL std::vector<std::unique_ptr<Run>> runs;
inline HX_TL bool multi = false;
inline HX_TL std::vector<int> busy;

inline std::string snapshot(const M & mm)
{
  Lane & L = *cur;
  std::string s = ",\"lv\":" + leaves_json(mm) + ",\"tm\":" + (mm.terminated() ? "true" : "false");
  s += casts_json(mm);
  s += ",\"ns\":" + std::to_string(L.nObj);
  s += ",\"ne\":" + std::to_string(multi ? -1 : (int)liveEvObjs);
  s += ",\"bad\":" + std::to_string(badEvents);
  s += ",\"eb\":" + std::to_string(multi ? -1 : (int)liveBlocks[1]);
  s += ",\"ow\":" + std::to_string(L.nOwn) + ",\"un\":" + std::to_string(hxnew::un);
  return s;
}

struct CurGuard
{
  Lane * old; int idx;
  CurGuard(int i) : old(cur), idx(i) { cur = &runs[(std::size_t)i]->lane; busy[(std::size_t)i] = 1; }
  ~CurGuard() { busy[(std::size_t)idx] = 0; cur = old; }
};

template<class F>
void api(int i, const std::string & head, F f)
{
  CurGuard g(i);
  Lane & L = *cur;
  M & mm = *runs[(std::size_t)i]->mach;
  L.buf += head + "\n";
  int x = 0; bool thrown = false;
  try { hxnew::Lib l; f(mm); }
  catch (const Boom & b) { thrown = true; x = b.id; }
  catch (...) { thrown = true; x = -2; }
  Dec d; d.th = 0;
  line(thrown ? "threw" : "ret", x, tid(mm.triggering_event()), true, d, snapshot(mm));
}

template<class EvT>
void proc(M & mm, int id, bool heap)
{
  if (heap)
  {
    boost::intrusive_ptr<const EvT> p(new EvT(id));
    mm.process_event(*p);
  }
  else
  {
    with_local<EvT>(id, [&](EvT & e) { mm.process_event(e); });
  }
}

inline void op_process(int i, int t, bool heap)
{
  Lane & L = runs[(std::size_t)i]->lane;
  int id = L.nextEv++;
  std::string head = "{\"o\":\"P\",\"t\":" + std::to_string(t) + ",\"id\":" + std::to_string(id) +
    ",\"h\":" + (heap ? "true" : "false") + ",\"kp\":false}";
  api(i, head, [&](M & mm) { dispatch_process(mm, t, id, heap); });
}
inline void op_again(int i)
{
  Lane & L = runs[(std::size_t)i]->lane;
  if (!L.kept) return;
  api(i, "{\"o\":\"P\",\"t\":" + std::to_string(L.keptT) + ",\"id\":" + std::to_string(L.keptId) + ",\"h\":true,\"kp\":true}",
      [&](M & mm) { boost::intrusive_ptr<const sc::event_base> e = L.kept; mm.process_event(*e); });
}
inline void op_initiate(int i) { api(i, "{\"o\":\"I\"}", [](M & mm) { mm.initiate(); }); }
inline void op_terminate(int i) { api(i, "{\"o\":\"T\"}", [](M & mm) { mm.terminate(); }); }
// posting events and clearing history between two calls
inline void op_outside(int i, const Dec & given)
{
  CurGuard g(i);
  Lane & L = *cur;
  M & mm = *runs[(std::size_t)i]->mach;
  Dec d;
  if (random_mode)
  {
    Prof old = prof; prof.pPost = 500; prof.pClr = 500; prof.pThrow = 0;
    prof.pAlloc = 0;
    d = decide(Caps{true, false, true, false, 1}, 0);
    prof = old;
  }
  else
  {
    d = given;
    for (auto & p : d.ps) if (p.how == 4) { p.t = L.keptT; p.id = L.keptId; } else p.id = L.nextEv++;
  }
  line("Q", 0, tid(mm.triggering_event()), true, d);
  effects(mm, d, nullptr);
}
inline void op_delete(int i)
{
  Run & r = *runs[(std::size_t)i];
  if (!r.mach) return;
  CurGuard g(i);
  r.lane.buf += "{\"o\":\"D\"}\n";
  if (r.lane.nextEv % 2) r.lane.kept = 0;
  { hxnew::Lib l; r.mach.reset(); }
  r.lane.kept = 0;
  std::string extra = ",\"ns\":" + std::to_string(r.lane.nObj) +
    ",\"ne\":" + std::to_string(multi ? 0 : (int)liveEvObjs) +
    ",\"ab\":" + std::to_string(multi ? 0 : (int)liveBytes) +
    ",\"bad\":" + std::to_string(badEvents) + ",\"eb\":" + std::to_string(multi ? 0 : (int)liveBlocks[1]) +
    ",\"ow\":" + std::to_string(r.lane.nOwn) + ",\"un\":" + std::to_string(hxnew::un);
  line("gone", 0, -3, true, Dec(), extra);
  r.lane.alive = false;
}

inline void random_op(int i)
{
  Run & r = *runs[(std::size_t)i];
  if (!r.mach) return;
  bool down = r.mach->terminated();
  int roll = rng->below(1000);
  if (down ? roll < 600 : roll < prof.pInit) op_initiate(i);
  else if (roll < prof.pInit + prof.pTerm) op_terminate(i);
  else if (rng->chance(prof.pOut)) op_outside(i, Dec());
  else if (r.lane.kept && rng->chance(150)) op_again(i);
  else op_process(i, 1 + rng->below(kEvents), rng->chance(prof.pHeap));
}

// called from callbacks: use another, idle machine in the middle of this one
inline HX_TL int crossDepth = 0;
inline bool cross(int pm)
{
  if (crossDepth > 0 || !rng->chance(pm)) return false;
  for (std::size_t j = 0; j < runs.size(); ++j)
    if (!busy[j] && runs[j]->mach)
    {
      ++crossDepth;
      random_op((int)j);
      --crossDepth;
      return true;
    }
  return false;
}
#ifdef HX_PAIR
inline void (*other)() = nullptr;    // lets the machines of the other chart move
#endif
inline void maybe_cross()
{
  if (!random_mode) return;
#ifdef HX_PAIR
  if (other && rng->chance(100)) other();
#endif
  if (multi) cross(150);
}

inline HX_TL int curTrace = 0;

inline void emit_all(const char * tail)
{
  for (auto & r : runs)
  {
    outbuf += "{\"o\":\"begin\",\"id\":" + std::to_string(curTrace) + ",\"lane\":" +
      std::to_string(r->lane.tag) + "}\n";
    outbuf += r->lane.buf;
    r->lane.buf.clear();
    outbuf += std::string("{\"o\":\"") + tail + "\"}\n";
  }
}

inline void on_signal(int sig)
{
  emit_all(sig == SIGALRM ? "HANG" : "CRASH");
  flush_all();
  _exit(sig == SIGALRM ? 98 : 97);
}

inline void on_runaway() { on_signal(SIGALRM); }

inline void setup(int n)
{
  runs.clear(); busy.assign((std::size_t)n, 0);
  multi = n > 1;
  badEvents = 0; hxnew::un = 0;
  for (int i = 0; i < n; ++i)
  {
    runs.emplace_back(new Run);
    Run & r = *runs.back();
    r.lane.tag = i;
    r.lane.obj.assign((std::size_t)kStates + 1, nullptr);
    r.lane.maxPosts = prof.maxPosts; r.lane.maxThrows = prof.maxThrows;
    cur = &r.lane;
    void * raw = ::operator new(sizeof(M));
    hxnew::Lib l;
    r.mach.reset(::new (raw) M);
    r.lane.machine = r.mach.get();
  }
  cur = nullptr;
}

inline std::vector<std::string> split(const std::string & s, char c)
{
  std::vector<std::string> v; std::string x; std::istringstream in(s);
  while (std::getline(in, x, c)) v.push_back(x);
  return v;
}

inline Dec parse_dec(const std::string & tok)
{
  // d:op:th:posts:clears
  Dec d; auto f = split(tok, ':');
  if (f.size() > 1) d.op = atoi(f[1].c_str());
  if (f.size() > 2) d.th = atoi(f[2].c_str());
  if (f.size() > 3 && f[3] != "-")
    for (auto & p : split(f[3], ','))
    {
      auto q = split(p, '.');
      Post x; x.t = atoi(q[0].c_str()); x.id = 0; x.how = atoi(q[1].c_str());
      d.ps.push_back(x);
    }
  if (f.size() > 4 && f[4] != "-")
    for (auto & p : split(f[4], ','))
    {
      auto q = split(p, '.');
      Clr x; x.kind = q[0][0]; x.s = atoi(q[1].c_str()); x.r = atoi(q[2].c_str());
      d.cl.push_back(x);
    }
  return d;
}

// R id seed lanes ...: random users
inline void begin_random(const std::vector<std::string> & tok, int extraSeed = 0)
{
  auto num = [&](std::size_t k) { return atoi(tok.at(k).c_str()); };
  curTrace = num(1);
  random_mode = true;
  rng = new Rng((unsigned long long)num(2) + (unsigned long long)extraSeed * 1000003ull);
  int lanes = num(3);
  prof.pThrow = num(4); prof.pPost = num(5); prof.pClr = num(6); prof.pHeap = num(7);
  prof.pSelf = num(8); prof.pAlloc = num(9); prof.nOps = num(10); prof.pInit = num(11);
  prof.pTerm = num(12); prof.maxPosts = num(13); prof.maxThrows = num(14); prof.ops = num(15);
  prof.pOut = num(16); prof.pCold = num(17);
  setup(lanes);
  for (int i = 0; i < lanes; ++i) if (!rng->chance(prof.pCold)) op_initiate(i);
}
inline int random_ops() { return prof.nOps * (int)runs.size(); }
inline void one_random() { random_op(rng->below((int)runs.size())); }
inline void end_random()
{
  for (std::size_t i = 0; i < runs.size(); ++i) op_delete((int)i);
  delete rng; rng = nullptr;
}
inline void finish_trace()
{
  emit_all("end");
  runs.clear();
  cur = nullptr;
  liveEvObjs = 0; liveBytes = 0; liveBlocks[0] = liveBlocks[1] = 0;
}

// X id tokens: a script
inline void run_script(const std::vector<std::string> & tok)
{
  curTrace = atoi(tok[1].c_str());
  random_mode = false;
  prof = Prof(); prof.maxPosts = prof.maxThrows = 1000;
  setup(1);
  Lane & L = runs[0]->lane;
  std::size_t k = 2;
  while (k < tok.size())
  {
    std::string a = tok[k++];
    L.script.clear(); L.pos = 0;
    while (k < tok.size() && tok[k][0] == 'd') L.script.push_back(parse_dec(tok[k++]));
    if (a == "I") op_initiate(0);
    else if (a == "T") op_terminate(0);
    else if (a == "D") op_delete(0);
    else if (a == "K") op_again(0);
    else if (a[0] == 'Q') op_outside(0, parse_dec("d:1:0" + a.substr(1)));
    else
    {
      auto f = split(a, ':');
      op_process(0, atoi(f[1].c_str()), f[2] == "1");
    }
  }
  L.script.clear(); L.pos = 0;
  op_delete(0);
}

inline void prepare()
{
  std::set_terminate([] { on_signal(SIGABRT); });
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) std::signal(s, on_signal);
  set_custom_ids();
}

inline int main_loop()
{
  prepare();
  std::string ln;
  while (std::getline(std::cin, ln))
  {
    if (ln.empty()) continue;
    auto tok = split(ln, ' ');
    alarm(20);
#ifdef HX_THREADS
    // a machine of its own for each thread
    std::vector<std::string> outs((std::size_t)4);
    std::vector<std::thread> ts;
    std::atomic<int> ready(0);
    for (int i = 0; i < 4; ++i) ts.emplace_back([&, i] {
      begin_random(tok, i + 1);
      for (auto & r : runs) r->lane.tag += i * 10;
      ++ready; while (ready < 4) {}
      for (int k = random_ops(); k > 0; --k) one_random();
      end_random();
      finish_trace();
      outs[(std::size_t)i].swap(outbuf);
    });
    for (auto & t : ts) t.join();
    for (auto & o : outs) outbuf += o;
#else
    if (tok[0] == "R")
    {
      begin_random(tok);
      for (int k = random_ops(); k > 0; --k) one_random();
      end_random();
    }
    else run_script(tok);
    finish_trace();
#endif
    alarm(0);
    if (outbuf.size() > 1u << 16) flush_all();
  }
  flush_all();
  return 0;
}

} // namespace hx
#endif
