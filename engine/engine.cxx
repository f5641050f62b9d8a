// hysym: symbolic execution of LLVM IR (clang 18) with z3 as the deciding solver.
//
//   hysym MODULE.bc ENTRY OUT.json [--opt value]...
//
// ENTRY is an extern "C" void(void) function of a harness that includes /repo's headers.  Integers
// are concrete or z3 bit-vectors, pointers are 64-bit integers into disjoint 4 GiB object regions,
// symbolic floating point numbers are exact reals (fractions of polynomials, see poly.hxx) or, on
// request, IEEE values in z3's FPA theory.  Concrete floating point is evaluated natively.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>
#include "poly.hxx"

using namespace llvm;
using ex::Frac;
using ex::Poly;
typedef z3::expr zx;

static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------------------------------------
// Options and statistics
// ------------------------------------------------------------------------------------------------
struct Options
{
  double time_limit = 600;
  unsigned query_ms = 20000;
  unsigned long max_paths = 20000;
  unsigned long max_instr = 400000000, max_path_instr = 100000000;
  unsigned max_values = 128;
  unsigned max_violations = 4;
  unsigned max_witness = 4;
  std::string dump_smt;
  bool trace = false;
} opt;

struct Stats
{
  unsigned long paths = 0, instr = 0, forks = 0, q_total = 0, q_sat = 0, q_unsat = 0, q_unknown = 0;
  unsigned long asserts = 0, assert_queries = 0, folded = 0;
  double solver_s = 0;
  std::map<std::string, unsigned long> assert_hits;
  std::set<std::string> functions;  // executed functions whose source lies under /repo
  std::map<std::string, unsigned long> stubs;
} stats;

[[noreturn]] static void unsupported(const std::string& m);
struct Unsupported
{
  std::string m;
};
static void unsupported(const std::string& m)
{
  throw Unsupported{m};
}

static z3::context& Z()
{
  static z3::context* c = new z3::context();
  return *c;
}

// ------------------------------------------------------------------------------------------------
// Values
// ------------------------------------------------------------------------------------------------
struct Val;
struct Node
{
  std::optional<zx> e;                      // SInt, SBool, SFP
  std::optional<Frac> r;                    // SReal
  std::vector<Val>* agg = nullptr;          // Agg
  ~Node();
};
enum Kind : uint8_t
{
  KUndef,
  KInt,
  KFlt,   // concrete double (or float held in a double)
  KSInt,  // z3 bit-vector
  KSBool,
  KSReal,
  KSFP,
  KAgg,
  KPair,    // 64 bits made of two 32-bit halves, at least one a symbolic float
  KSpecial  // a floating point value that is not a real number (result of x/0, sqrt(-1), ...)
};
struct Val
{
  Kind k = KUndef;
  uint32_t bits = 0;  // width for ints; 64/32 for floats
  union
  {
    uint64_t u;
    double d;
  };
  std::shared_ptr<Node> p;
  Val() : u(0) {}
};
Node::~Node()
{
  delete agg;
}
static uint64_t mask(unsigned b)
{
  return b >= 64 ? ~0ULL : ((1ULL << b) - 1);
}
static Val VI(uint64_t u, unsigned bits)
{
  Val v;
  v.k = KInt;
  v.bits = bits;
  v.u = u & mask(bits);
  return v;
}
static Val VB(bool b)
{
  return VI(b, 1);
}
static Val VF(double d, unsigned bits)
{
  Val v;
  v.k = KFlt;
  v.bits = bits;
  v.d = bits == 32 ? (double)(float)d : d;
  return v;
}
static Val VUndef(unsigned bits)
{
  Val v;
  v.bits = bits;
  return v;
}
static Val VSpecial(unsigned bits)
{
  Val v;
  v.k = KSpecial;
  v.bits = bits;
  return v;
}
static Val VExpr(Kind k, const zx& e, unsigned bits)
{
  Val v;
  v.k = k;
  v.bits = bits;
  v.p = std::make_shared<Node>();
  v.p->e = e;
  return v;
}
static Val VBool(const zx& e0)
{
  zx e = e0.simplify();
  if (e.is_true())
    return VB(true);
  if (e.is_false())
    return VB(false);
  return VExpr(KSBool, e, 1);
}
static Val VBV(const zx& e0, unsigned bits)
{
  zx e = e0.simplify();
  uint64_t u;
  if (bits <= 64 && e.is_numeral_u64(u))
    return VI(u, bits);
  return VExpr(KSInt, e, bits);
}
static Val VReal(const Frac& f, unsigned bits)
{
  Val v;
  if (f.n.is_const() && f.d.is_const())
  {
    // A constant: keep it exact unless it is exactly representable.
    mpq_class q = f.n.const_val();
    double d = q.get_d();
    if (mpq_class(d) == q)
    {
      v.k = KFlt;
      v.bits = bits;
      v.d = d;
      return v;
    }
  }
  v.k = KSReal;
  v.bits = bits;
  v.p = std::make_shared<Node>();
  v.p->r = f;
  return v;
}
static Val VAgg(std::vector<Val> a)
{
  Val v;
  v.k = KAgg;
  v.p = std::make_shared<Node>();
  v.p->agg = new std::vector<Val>(std::move(a));
  return v;
}
static const std::vector<Val>& agg(const Val& v)
{
  if (v.k != KAgg)
    unsupported("aggregate expected");
  return *v.p->agg;
}
static zx bvnum(uint64_t u, unsigned bits)
{
  return Z().bv_val((uint64_t)u, bits);
}
static zx to_bv(const Val& v)
{
  switch (v.k)
  {
    case KInt:
      return bvnum(v.u, v.bits);
    case KSInt:
      return *v.p->e;
    case KSBool:
      return z3::ite(*v.p->e, bvnum(1, 1), bvnum(0, 1));
    default:
      unsupported("integer expected, kind " + std::to_string(v.k));
  }
}
static zx to_bool(const Val& v)
{
  if (v.k == KInt)
    return Z().bool_val(v.u & 1);
  if (v.k == KSBool)
    return *v.p->e;
  if (v.k == KSInt && v.bits == 1)
    return *v.p->e == bvnum(1, 1);
  unsupported("bool expected, kind " + std::to_string(v.k));
}
static Frac to_frac(const Val& v)
{
  if (v.k == KSReal)
    return *v.p->r;
  if (v.k == KFlt)
  {
    if (!std::isfinite(v.d))
      unsupported("non-finite number in real arithmetic");
    return Frac{ex::poly_const(mpq_class(v.d)), ex::poly_const(1)};
  }
  unsupported("real expected, kind " + std::to_string(v.k));
}

// ------------------------------------------------------------------------------------------------
// Reals to z3
// ------------------------------------------------------------------------------------------------
static std::vector<zx>& zvars()
{
  static std::vector<zx> v;
  return v;
}
static uint32_t new_real_var(const std::string& name)
{
  uint32_t id = ex::vars().size();
  ex::VarInfo vi;
  vi.name = name + "!" + std::to_string(id);
  ex::vars().push_back(vi);
  zvars().push_back(Z().real_const(vi.name.c_str()));
  return id;
}
static zx qnum(const mpq_class& q)
{
  return Z().real_val(q.get_str().c_str());
}
static zx mono_z3(ex::MonoId id)
{
  static std::unordered_map<uint32_t, zx> cache;
  auto it = cache.find(id);
  if (it != cache.end())
    return it->second;
  std::vector<zx> f;
  for (auto& ve : ex::monos().monos[id])
    for (uint32_t k = 0; k < ve.second; ++k)
      f.push_back(zvars()[ve.first]);
  zx r = f.empty() ? Z().real_val(1) : f[0];
  for (size_t i = 1; i < f.size(); ++i)
    r = r * f[i];
  cache.insert({id, r});
  return r;
}
static zx poly_z3(const Poly& p)
{
  if (p.is_const())
    return qnum(p.const_val());
  z3::expr_vector v(Z());
  for (auto& m : p.t)
    if (m.first == 0)
      v.push_back(qnum(m.second));
    else if (m.second == 1)
      v.push_back(mono_z3(m.first));
    else
      v.push_back(qnum(m.second) * mono_z3(m.first));
  return z3::sum(v);
}
// Interval of a polynomial from the bounds of its variables.
struct Itv
{
  bool ok = false;
  mpq_class lo, hi;
};
static Itv mono_itv(ex::MonoId id)
{
  Itv r;
  r.ok = true;
  r.lo = r.hi = 1;
  for (auto& ve : ex::monos().monos[id])
  {
    auto& vi = ex::vars()[ve.first];
    if (!vi.has_lo || !vi.has_hi)
      return Itv();
    for (uint32_t k = 0; k < ve.second; ++k)
    {
      mpq_class a = r.lo * vi.lo, b = r.lo * vi.hi, c = r.hi * vi.lo, d = r.hi * vi.hi;
      r.lo = std::min(std::min(a, b), std::min(c, d));
      r.hi = std::max(std::max(a, b), std::max(c, d));
    }
    if (ve.second % 2 == 0 && r.lo < 0 && ex::monos().monos[id].size() == 1)
      r.lo = 0;
  }
  return r;
}
static Itv poly_itv(const Poly& p)
{
  Itv r;
  r.ok = true;
  r.lo = r.hi = 0;
  for (auto& m : p.t)
  {
    Itv i = mono_itv(m.first);
    if (!i.ok)
      return i;
    mpq_class a = i.lo * m.second, b = i.hi * m.second;
    r.lo += std::min(a, b);
    r.hi += std::max(a, b);
  }
  return r;
}

// ------------------------------------------------------------------------------------------------
// Memory
// ------------------------------------------------------------------------------------------------
struct Object
{
  uint64_t size = 0;
  bool alive = true, constant = false, heap = false, stack = false;
  std::string name;
  std::vector<uint8_t> bytes;
  std::vector<uint8_t> init;              // per byte: 0 uninitialised, 1 concrete, 2 in a cell
  std::map<uint64_t, Val> cells;          // offset -> symbolic value
  static uint64_t cell_size(const Val& v) { return std::max(1u, v.bits / 8); }
  void clear_range(uint64_t off, uint64_t n)
  {
    if (cells.empty())
      return;
    auto it = cells.lower_bound(off);
    while (it != cells.begin())
    {
      auto pr = std::prev(it);
      if (pr->first + cell_size(pr->second) > off)
        it = pr;
      else
        break;
    }
    while (it != cells.end() && it->first < off + n)
    {
      uint64_t o = it->first, s = cell_size(it->second);
      if (o < off || o + s > off + n)
      {
        // partial overwrite: split bit-vectors into bytes, give up on others (uninitialised)
        Val v = it->second;
        it = cells.erase(it);
        for (uint64_t k = 0; k < s; ++k)
        {
          if (v.k == KSInt)
          {
            cells[o + k] = VBV(v.p->e->extract(8 * k + 7, 8 * k), 8);
            if (cells[o + k].k == KInt)
            {
              bytes[o + k] = cells[o + k].u;
              init[o + k] = 1;
              cells.erase(o + k);
            }
          }
          else
            init[o + k] = 0;
        }
        it = cells.lower_bound(off);
        continue;
      }
      for (uint64_t k = 0; k < s; ++k)
        init[o + k] = 0;
      it = cells.erase(it);
    }
  }
};
typedef std::shared_ptr<Object> ObjP;

// ------------------------------------------------------------------------------------------------
// Precompiled functions
// ------------------------------------------------------------------------------------------------
struct Op
{
  int reg = -1;
  Val c;
};
struct CInst
{
  Instruction* I;
  int dst = -1;
  std::vector<Op> ops;
};
struct CBlock
{
  BasicBlock* bb;
  std::vector<CInst> ins;
  unsigned first_nonphi = 0;
};
struct CFunc
{
  Function* F;
  std::vector<CBlock> blocks;
  std::unordered_map<const BasicBlock*, unsigned> bidx;
  unsigned nregs = 0;
  bool in_repo = false;
};

struct Frame
{
  CFunc* f;
  unsigned bb = 0, ip = 0;
  int prev = -1;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  int ret_dst = -1;              // destination register in the caller
  bool via_invoke = false;
};
struct Input
{
  std::string name;
  char type;  // 'r' real, 'i' int, 'f' fp
  std::optional<zx> e;
};
struct State
{
  std::vector<Frame> st;
  std::vector<ObjP> mem;
  std::vector<zx> pc;
  std::map<unsigned, zx> known;  // consequences of pc
  std::vector<Input> inputs;
  uint64_t exc_obj = 0, exc_ti = 0;
  std::vector<std::pair<uint64_t, uint64_t>> caught;
  bool expect_abort = false, aborted = false;
  unsigned long instr = 0;
  unsigned depth = 0;
};

static Module* M;
static const DataLayout* DL;
static std::deque<CFunc> cfuncs;
static std::unordered_map<const Function*, CFunc*> cfmap;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> faddr;
static std::map<std::string, uint64_t> ext_ti;
static State init_state;

struct Violation
{
  std::string kind, msg, where;
  std::vector<std::pair<std::string, std::string>> model;
  unsigned margin = 0;
};
static std::vector<Violation> violations;
static std::vector<std::vector<std::pair<std::string, std::string>>> witnesses;
static std::vector<std::string> inconclusive;
struct PathEnd
{
  bool completed;
};

// ------------------------------------------------------------------------------------------------
// Solver
// ------------------------------------------------------------------------------------------------
static std::unordered_map<unsigned, std::shared_ptr<std::set<unsigned>>> varcache;
static std::vector<zx> keep_alive;
static std::shared_ptr<std::set<unsigned>> vars_of(const zx& e)
{
  auto it = varcache.find(e.id());
  if (it != varcache.end())
    return it->second;
  auto s = std::make_shared<std::set<unsigned>>();
  std::vector<zx> todo{e};
  std::unordered_set<unsigned> seen;
  while (!todo.empty())
  {
    zx x = todo.back();
    todo.pop_back();
    if (!seen.insert(x.id()).second)
      continue;
    if (x.is_app())
    {
      if (x.num_args() == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED)
        s->insert(x.id());
      for (unsigned i = 0; i < x.num_args(); ++i)
        todo.push_back(x.arg(i));
    }
  }
  keep_alive.push_back(e);
  varcache[e.id()] = s;
  return s;
}
static std::vector<zx> slice(const State& s, const std::vector<zx>& extra)
{
  std::set<unsigned> want;
  for (auto& e : extra)
  {
    auto v = vars_of(e);
    want.insert(v->begin(), v->end());
  }
  std::vector<bool> in(s.pc.size(), false);
  bool ch = true;
  while (ch)
  {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); ++i)
      if (!in[i])
      {
        auto v = vars_of(s.pc[i]);
        bool hit = v->empty();
        for (unsigned x : *v)
          if (want.count(x))
          {
            hit = true;
            break;
          }
        if (hit)
        {
          in[i] = true;
          want.insert(v->begin(), v->end());
          ch = true;
        }
      }
  }
  std::vector<zx> r;
  for (size_t i = 0; i < s.pc.size(); ++i)
    if (in[i])
      r.push_back(s.pc[i]);
  return r;
}
static unsigned long smt_count = 0;
static double deadline = 0;
static z3::check_result query1(const std::vector<zx>& cs,
                              z3::model* out,
                              unsigned ms,
                              const char* tag = "q")
{
  double t0 = now();
  if (t0 > deadline)
  {
    stats.q_total++;
    stats.q_unknown++;
    return z3::unknown;
  }
  z3::solver s(Z());
  z3::params p(Z());
  p.set("timeout", std::max(1u, (unsigned)std::min<double>(ms, (deadline - t0) * 1000 + 1)));
  s.set(p);
  for (auto& e : cs)
    s.add(e);
  z3::check_result r = z3::unknown;
  try
  {
    r = s.check();
  }
  catch (z3::exception& e)
  {
    r = z3::unknown;
  }
  stats.solver_s += now() - t0;
  stats.q_total++;
  (r == z3::sat ? stats.q_sat : r == z3::unsat ? stats.q_unsat : stats.q_unknown)++;
  if (!opt.dump_smt.empty() && tag[0] == 'A')
  {
    std::ofstream o(opt.dump_smt + "/" + std::to_string(smt_count++) + ".smt2");
    o << "; expect " << (r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unknown") << "\n"
      << s.to_smt2();
  }
  if (r == z3::sat && out)
    *out = s.get_model();
  return r;
}
// A query that is hard for the solver is retried with most of the real inputs fixed: this can only
// answer "satisfiable" (with a model); "unsatisfiable" always comes from the unrestricted query.
static z3::check_result query(const std::vector<zx>& cs,
                              z3::model* out,
                              unsigned ms,
                              const char* tag = "q")
{
  const unsigned first = 3000;
  if (ms <= first)
    return query1(cs, out, ms, tag);
  auto r = query1(cs, out, first, "q");
  if (r != z3::unknown)
  {
    if (tag[0] == 'A' && !opt.dump_smt.empty())
      query1(cs, out, first, tag);
    return r;
  }
  std::vector<uint32_t> in;
  for (uint32_t i = 0; i < ex::vars().size(); ++i)
    if (ex::vars()[i].input)
      in.push_back(i);
  if (!in.empty())
  {
    uint64_t rng = 0x9E3779B97F4A7C15ULL;
    auto rnd = [&]() {
      rng ^= rng << 13;
      rng ^= rng >> 7;
      rng ^= rng << 17;
      return rng >> 11;
    };
    for (int k = 0; k < 12; ++k)
    {
      std::vector<zx> c2 = cs;
      for (uint32_t i : in)
      {
        uint64_t u = rnd();
        if (k % 3 && u % (k % 3 == 1 ? in.size() : 3) == 0)
          continue;
        auto& v = ex::vars()[i];
        mpq_class t = v.lo + (v.hi - v.lo) * mpq_class((unsigned long)(rnd() % 65), 64ul);
        c2.push_back(zvars()[i] == qnum(t));
      }
      if (query1(c2, out, 700) == z3::sat)
        return z3::sat;
    }
  }
  return query1(cs, out, ms, tag);
}
static z3::check_result check(const State& s, const zx& cond, const char* tag = "q")
{
  std::vector<zx> cs = slice(s, {cond});
  cs.push_back(cond);
  return query(cs, nullptr, opt.query_ms, tag);
}
static std::string model_value(const z3::model& m, const Input& in)
{
  zx v = m.eval(*in.e, true);
  if (in.type == 'i')
  {
    uint64_t u = 0;
    v.is_numeral_u64(u);
    return std::to_string(u);
  }
  if (in.type == 'f')
  {
    zx b = m.eval(zx(Z(), Z3_mk_fpa_to_ieee_bv(Z(), v)), true);
    uint64_t u = 0;
    b.is_numeral_u64(u);
    char buf[64];
    snprintf(buf, sizeof buf, "0x%016llx", (unsigned long long)u);
    return buf;
  }
  if (v.is_algebraic())
  {
    std::string d = v.get_decimal_string(25);
    if (!d.empty() && d.back() == '?')
      d.pop_back();
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", strtod(d.c_str(), nullptr));
    return buf;
  }
  std::string num = v.numerator().get_decimal_string(0), den = v.denominator().get_decimal_string(0);
  mpq_class q(num + "/" + den);
  q.canonicalize();
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", q.get_d());
  return buf;
}
static std::vector<std::pair<std::string, std::string>> model_inputs(const State& s,
                                                                     const z3::model& m)
{
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& i : s.inputs)
    r.push_back({i.name, model_value(m, i)});
  return r;
}
static std::string where(const State& s)
{
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && i >= (int)s.st.size() - 4; --i)
  {
    auto& f = s.st[i];
    unsigned ip = std::min<unsigned>(f.ip, f.f->blocks[f.bb].ins.size() - 1);
    auto* I = f.f->blocks[f.bb].ins[ip].I;
    if (auto& dl = I->getDebugLoc())
    {
      DILocation* l = dl.get();
      while (l)
      {
        r += (r.empty() ? "" : " <- ") + l->getFilename().str() + ":" + std::to_string(l->getLine());
        l = l->getInlinedAt();
      }
    }
    else
      r += (r.empty() ? "" : " <- ") + f.f->F->getName().str();
  }
  return r;
}
// Is the path condition together with `extra` satisfiable?  Emit a violation if so.
// `strong` are constraint sets to be tried first (they make the counterexample robust to rounding).
static bool report(State& s,
                   const std::string& kind,
                   const std::string& msg,
                   const std::vector<zx>& extra,
                   const std::vector<zx>& strong = {})
{
  z3::model m(Z());
  // nice models: try to keep real inputs in a moderate grid first is left to the strong list
  for (auto& st : strong)
  {
    std::vector<zx> cs = s.pc;
    for (auto& e : extra)
      cs.push_back(e);
    cs.push_back(st);
    if (query(cs, &m, std::min(opt.query_ms, 5000u)) == z3::sat)
    {
      violations.push_back({kind, msg, where(s), model_inputs(s, m), 1});
      return true;
    }
  }
  std::vector<zx> cs = s.pc;
  for (auto& e : extra)
    cs.push_back(e);
  auto r = query(cs, &m, opt.query_ms, "A");
  if (r == z3::sat)
  {
    violations.push_back({kind, msg, where(s), model_inputs(s, m), 0});
    return true;
  }
  if (r == z3::unknown)
    inconclusive.push_back(kind + ": " + msg + " at " + where(s));
  return false;
}

// ------------------------------------------------------------------------------------------------
// Executor
// ------------------------------------------------------------------------------------------------
static std::vector<State> worklist;

static ObjP& obj_of(State& s, uint64_t addr, const char* what)
{
  uint64_t id = addr >> 32;
  if (id == 0 || id >= s.mem.size() || !s.mem[id])
  {
    report(s, "memory", std::string("invalid pointer in ") + what, {});
    throw PathEnd{false};
  }
  return s.mem[id];
}
static Object& wobj(State& s, uint64_t addr, const char* what)
{
  ObjP& o = obj_of(s, addr, what);
  if (o.use_count() > 1)
    o = std::make_shared<Object>(*o);
  return *o;
}
static void bounds(State& s, const Object& o, uint64_t addr, uint64_t n, const char* what)
{
  uint64_t off = addr & 0xffffffffULL;
  if (!o.alive)
  {
    report(s, "memory", std::string("use after free/return in ") + what + " of " + o.name, {});
    throw PathEnd{false};
  }
  if (off + n > o.size)
  {
    report(s, "memory",
           std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes at offset " +
             std::to_string((int64_t)(int32_t)off) + " of object '" + o.name + "' of size " +
             std::to_string(o.size),
           {});
    throw PathEnd{false};
  }
}
static uint64_t new_object(State& s, uint64_t size, const std::string& name, bool heap, bool stack)
{
  if (size >= (1ULL << 31))
  {
    report(s, "memory", "allocation of " + std::to_string(size) + " bytes", {});
    throw PathEnd{false};
  }
  auto o = std::make_shared<Object>();
  o->size = size;
  o->name = name;
  o->heap = heap;
  o->stack = stack;
  o->bytes.assign(size, 0);
  o->init.assign(size, 0);
  uint64_t id = s.mem.size();
  s.mem.push_back(o);
  return id << 32;
}
static void add_pc(State& s, const zx& e)
{
  zx t = e.simplify();
  if (!t.is_true())
    s.pc.push_back(t);
}

static Val VPair(const Val& lo, const Val& hi)
{
  auto plain = [](const Val& v) { return v.k == KInt || v.k == KFlt; };
  auto pat = [](const Val& v) -> uint64_t {
    if (v.k == KInt)
      return v.u & 0xffffffffULL;
    float f = v.d;
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
  };
  if (plain(lo) && plain(hi))
    return VI(pat(lo) | pat(hi) << 32, 64);
  Val v = VAgg({lo, hi});
  v.k = KPair;
  v.bits = 64;
  return v;
}
static const std::vector<Val>& halves(const Val& v) { return *v.p->agg; }
// Raw store/load of one scalar Val
static void store_scalar(State& s, uint64_t addr, const Val& v, uint64_t n)
{
  Object& o = wobj(s, addr, "store");
  bounds(s, o, addr, n, "write");
  if (o.constant)
  {
    report(s, "memory", "write to constant object " + o.name, {});
    throw PathEnd{false};
  }
  uint64_t off = addr & 0xffffffffULL;
  o.clear_range(off, n);
  switch (v.k)
  {
    case KInt:
      for (uint64_t i = 0; i < n; ++i)
        o.bytes[off + i] = i < 8 ? v.u >> (8 * i) : 0;
      std::fill_n(o.init.begin() + off, n, 1);
      break;
    case KFlt:
      if (n == 4)
      {
        float f = v.d;
        memcpy(&o.bytes[off], &f, 4);
      }
      else if (n == 8)
        memcpy(&o.bytes[off], &v.d, 8);
      else
        unsupported("float store size");
      std::fill_n(o.init.begin() + off, n, 1);
      break;
    case KUndef:
      std::fill_n(o.init.begin() + off, n, 0);
      break;
    case KPair:
      if (n != 8)
        unsupported("pair store size");
      store_scalar(s, addr, halves(v)[0], 4);
      store_scalar(s, addr + 4, halves(v)[1], 4);
      break;
    case KSBool:
    {
      Val w = VExpr(KSInt, z3::ite(*v.p->e, bvnum(1, 8), bvnum(0, 8)), 8);
      o.cells[off] = w;
      o.init[off] = 2;
      break;
    }
    default:
    {
      Val w = v;
      if (v.bits % 8)
      {
        w = VBV(z3::zext(to_bv(v), 8 * n - v.bits), 8 * n);
      }
      if (Object::cell_size(w) != n)
        unsupported("symbolic store size mismatch");
      o.cells[off] = w;
      std::fill_n(o.init.begin() + off, n, 2);
    }
  }
}
static Val load_scalar(State& s, uint64_t addr, Type* T)
{
  uint64_t n = DL->getTypeStoreSize(T);
  ObjP& op = obj_of(s, addr, "load");
  Object& o = *op;
  bounds(s, o, addr, n, "read");
  uint64_t off = addr & 0xffffffffULL;
  unsigned bits = T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits();
  bool all1 = true, any2 = false, any0 = false;
  for (uint64_t i = 0; i < n; ++i)
  {
    if (o.init[off + i] != 1)
      all1 = false;
    if (o.init[off + i] == 2)
      any2 = true;
    if (o.init[off + i] == 0)
      any0 = true;
  }
  if (all1)
  {
    if (T->isDoubleTy())
    {
      double d;
      memcpy(&d, &o.bytes[off], 8);
      return VF(d, 64);
    }
    if (T->isFloatTy())
    {
      float d;
      memcpy(&d, &o.bytes[off], 4);
      return VF(d, 32);
    }
    if (T->isIntegerTy() || T->isPointerTy())
    {
      if (n > 8)
        unsupported("integer load wider than 64 bits");
      uint64_t u = 0;
      memcpy(&u, &o.bytes[off], n);
      return VI(u, bits);
    }
    unsupported("load of this type");
  }
  if (any2)
  {
    auto it = o.cells.find(off);
    if (it != o.cells.end() && Object::cell_size(it->second) == n)
    {
      Val v = it->second;
      if (bits < 8 * n && v.k == KSInt)
      {
        if (bits == 1)
          return VBool(v.p->e->extract(0, 0) == bvnum(1, 1));
        return VBV(v.p->e->extract(bits - 1, 0), bits);
      }
      return v;
    }
    if (n == 8)
    {
      auto flt = [&](uint64_t q) {
        auto c = o.cells.find(q);
        return c != o.cells.end() && c->second.bits == 32 && (c->second.k == KSReal || c->second.k == KSFP);
      };
      if (flt(off) || flt(off + 4))
      {
        Type* I32 = Type::getInt32Ty(T->getContext());
        Val lo = load_scalar(s, addr, I32), hi = load_scalar(s, addr + 4, I32);
        return VPair(lo, hi);
      }
    }
    if (any0)
      return VUndef(bits);
    // assemble from bytes / cells
    std::optional<zx> r;
    for (uint64_t i = 0; i < n; ++i)
    {
      std::optional<zx> b;
      if (o.init[off + i] == 1)
        b = bvnum(o.bytes[off + i], 8);
      else
      {
        auto c = o.cells.upper_bound(off + i);
        --c;
        if (c->second.k != KSInt)
          unsupported("partial read of a symbolic floating point number");
        unsigned k = off + i - c->first;
        b = c->second.p->e->extract(8 * k + 7, 8 * k);
      }
      r = r ? z3::concat(*b, *r) : *b;
    }
    Val v = VBV(*r, 8 * n);
    if (T->isDoubleTy() || T->isFloatTy())
      unsupported("bit-vector reinterpreted as float");
    if (bits < 8 * n)
      return VBV(to_bv(v).extract(bits - 1, 0), bits);
    return v;
  }
  return VUndef(bits);
}
static void store_val(State& s, uint64_t addr, const Val& v, Type* T)
{
  if (auto* ST = dyn_cast<StructType>(T))
  {
    auto* L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); ++i)
      store_val(s, addr + L->getElementOffset(i), v.k == KUndef ? Val() : agg(v)[i],
                ST->getElementType(i));
  }
  else if (T->isArrayTy() || T->isVectorTy())
  {
    Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
    unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    uint64_t es = DL->getTypeAllocSize(E);
    for (unsigned i = 0; i < n; ++i)
      store_val(s, addr + i * es, v.k == KUndef ? Val() : agg(v)[i], E);
  }
  else
    store_scalar(s, addr, v, DL->getTypeStoreSize(T));
}
static Val load_val(State& s, uint64_t addr, Type* T)
{
  if (auto* ST = dyn_cast<StructType>(T))
  {
    auto* L = DL->getStructLayout(ST);
    std::vector<Val> a;
    for (unsigned i = 0; i < ST->getNumElements(); ++i)
      a.push_back(load_val(s, addr + L->getElementOffset(i), ST->getElementType(i)));
    return VAgg(a);
  }
  if (T->isArrayTy() || T->isVectorTy())
  {
    Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
    unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    uint64_t es = DL->getTypeAllocSize(E);
    std::vector<Val> a;
    for (unsigned i = 0; i < n; ++i)
      a.push_back(load_val(s, addr + i * es, E));
    return VAgg(a);
  }
  return load_scalar(s, addr, T);
}

// ------------------------------------------------------------------------------------------------
// Constants
// ------------------------------------------------------------------------------------------------
static uint64_t addr_of(const GlobalValue* G)
{
  if (auto* A = dyn_cast<GlobalAlias>(G))
    return addr_of(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(G);
  if (it == gaddr.end())
    unsupported("address of unknown global " + G->getName().str());
  return it->second;
}
static Val const_val(const Constant* C);
static uint64_t const_u(const Constant* C)
{
  Val v = const_val(C);
  if (v.k != KInt)
    unsupported("constant expression");
  return v.u;
}
static Val const_val(const Constant* C)
{
  Type* T = C->getType();
  if (auto* CI = dyn_cast<ConstantInt>(C))
  {
    if (CI->getBitWidth() > 64)
    {
      if (CI->getValue().getActiveBits() <= 64)
        return VI(CI->getValue().getZExtValue(), CI->getBitWidth());
      unsupported("wide constant");
    }
    return VI(CI->getZExtValue(), CI->getBitWidth());
  }
  if (auto* CF = dyn_cast<ConstantFP>(C))
  {
    if (T->isDoubleTy())
      return VF(CF->getValueAPF().convertToDouble(), 64);
    if (T->isFloatTy())
      return VF(CF->getValueAPF().convertToFloat(), 32);
    unsupported("constant of extended float type");
  }
  if (isa<ConstantPointerNull>(C))
    return VI(0, 64);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantAggregate>(C) ||
      isa<ConstantDataSequential>(C))
  {
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy())
    {
      unsigned n = T->isStructTy() ? T->getStructNumElements()
                   : T->isArrayTy() ? T->getArrayNumElements()
                                    : cast<FixedVectorType>(T)->getNumElements();
      std::vector<Val> a;
      for (unsigned i = 0; i < n; ++i)
        a.push_back(const_val(C->getAggregateElement(i)));
      return VAgg(a);
    }
    if (isa<UndefValue>(C))
      return VUndef(T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits());
    unsupported("constant zero of scalar type");
  }
  if (auto* G = dyn_cast<GlobalValue>(C))
    return VI(addr_of(G), 64);
  if (auto* CE = dyn_cast<ConstantExpr>(C))
  {
    switch (CE->getOpcode())
    {
      case Instruction::GetElementPtr:
      {
        APInt off(64, 0);
        if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off))
          unsupported("constant gep");
        return VI(const_u(CE->getOperand(0)) + off.getSExtValue(), 64);
      }
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      {
        Val v = const_val(CE->getOperand(0));
        unsigned b = T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits();
        return VI(v.u, b);
      }
      case Instruction::Sub:
        return VI(const_u(CE->getOperand(0)) - const_u(CE->getOperand(1)),
                  T->getPrimitiveSizeInBits());
      case Instruction::Add:
        return VI(const_u(CE->getOperand(0)) + const_u(CE->getOperand(1)),
                  T->getPrimitiveSizeInBits());
      case Instruction::Trunc:
        return VI(const_u(CE->getOperand(0)), T->getPrimitiveSizeInBits());
      default:
        unsupported(std::string("constant expression ") + CE->getOpcodeName());
    }
  }
  unsupported("constant kind");
}

static CFunc* compile(Function* F)
{
  auto it = cfmap.find(F);
  if (it != cfmap.end())
    return it->second;
  cfuncs.emplace_back();
  CFunc* cf = &cfuncs.back();
  cfmap[F] = cf;
  cf->F = F;
  std::unordered_map<const Value*, int> num;
  int n = 0;
  for (auto& A : F->args())
    num[&A] = n++;
  for (auto& BB : *F)
    for (auto& I : BB)
      if (!I.getType()->isVoidTy())
        num[&I] = n++;
  cf->nregs = n;
  unsigned b = 0;
  for (auto& BB : *F)
    cf->bidx[&BB] = b++;
  for (auto& BB : *F)
  {
    CBlock cb;
    cb.bb = &BB;
    for (auto& I : BB)
    {
      if (isa<DbgInfoIntrinsic>(I))
        continue;
      CInst ci;
      ci.I = &I;
      if (!I.getType()->isVoidTy())
        ci.dst = num[&I];
      for (auto& U : I.operands())
      {
        Op o;
        Value* V = U.get();
        if (auto* C = dyn_cast<Constant>(V))
        {
          bool skip = isa<CallBase>(I) && isa<Function>(C) && &U == &cast<CallBase>(I).getCalledOperandUse();
          if (!skip && !isa<LandingPadInst>(I))
          {
            try
            {
              o.c = const_val(C);
            }
            catch (Unsupported& u)
            {
              o.reg = -3;  // raise when executed
            }
          }
        }
        else if (isa<BasicBlock>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V))
          o.reg = -2;
        else
          o.reg = num.at(V);
        ci.ops.push_back(o);
      }
      cb.ins.push_back(std::move(ci));
    }
    cb.first_nonphi = 0;
    while (cb.first_nonphi < cb.ins.size() && isa<PHINode>(cb.ins[cb.first_nonphi].I))
      cb.first_nonphi++;
    cf->blocks.push_back(std::move(cb));
  }
  // Source attribution: own subprogram and everything inlined into it.
  auto note = [&](DISubprogram* SP) {
    if (!SP)
      return;
    std::string f = SP->getFilename().str();
    if (f.find("/repo/") != std::string::npos)
    {
      std::string nm = SP->getLinkageName().str();
      nm = nm.empty() ? SP->getName().str() : llvm::demangle(nm);
      auto pos = f.find("/repo/");
      stats.functions.insert(f.substr(pos + 6) + ": " + nm);
    }
  };
  note(F->getSubprogram());
  for (auto& BB : *F)
    for (auto& I : BB)
      if (auto& dl = I.getDebugLoc())
        for (DILocation* l = dl.get(); l; l = l->getInlinedAt())
          note(l->getScope()->getSubprogram());
  return cf;
}

// ------------------------------------------------------------------------------------------------
// Concretisation: fork the state over all feasible values of a bit-vector
// ------------------------------------------------------------------------------------------------
struct Restart
{
};
// Returns a concrete value for v in this state; clones of the state for every other feasible value
// are put on the work list and re-execute the current instruction.
static uint64_t concretize(State& s, Val& v, const char* what)
{
  if (v.k == KInt)
    return v.u;
  if (v.k == KUndef)
  {
    report(s, "uninitialised", std::string("uninitialised value used as ") + what, {});
    throw PathEnd{false};
  }
  zx e = v.k == KSBool ? to_bv(v) : *v.p->e;
  std::vector<uint64_t> vals;
  std::vector<zx> cs = slice(s, {e == e, e == bvnum(0, v.bits)});
  for (;;)
  {
    z3::model m(Z());
    auto r = query(cs, &m, opt.query_ms);
    if (r == z3::unsat)
      break;
    if (r == z3::unknown)
    {
      inconclusive.push_back(std::string("solver gave up concretising ") + what);
      break;
    }
    uint64_t u = 0;
    m.eval(e, true).is_numeral_u64(u);
    vals.push_back(u);
    cs.push_back(e != bvnum(u, v.bits));
    if (vals.size() > opt.max_values)
    {
      inconclusive.push_back(std::string("more than ") + std::to_string(opt.max_values) +
                             " values for " + what + " at " + where(s));
      break;
    }
  }
  if (vals.empty())
    throw PathEnd{false};
  for (size_t i = 1; i < vals.size(); ++i)
  {
    State c = s;
    c.pc.push_back(e == bvnum(vals[i], v.bits));
    c.depth++;
    stats.forks++;
    worklist.push_back(std::move(c));
  }
  if (vals.size() > 1)
    s.pc.push_back(e == bvnum(vals[0], v.bits));
  return vals[0];
}
// Decide a boolean: concrete -> itself; otherwise fork (the clone re-executes the instruction with
// the negated condition added, which then evaluates as implied).
static bool implied(const State& s, const zx& e)
{
  for (auto& c : s.pc)
    if (z3::eq(c, e))
      return true;
  return s.known.count(Z3_get_ast_id(Z(), e)) != 0;
}
static bool decide(State& s, const Val& v, const char* what)
{
  if (v.k == KInt)
    return v.u & 1;
  if (v.k == KUndef)
  {
    report(s, "uninitialised", std::string("branch depends on an uninitialised value (") + what + ")", {});
    throw PathEnd{false};
  }
  zx e = to_bool(v), ne = (!e).simplify();
  if (implied(s, e))
    return true;
  if (implied(s, ne))
    return false;
  auto a = check(s, e);
  if (a == z3::unsat)
  {
    s.known.emplace(Z3_get_ast_id(Z(), ne), ne);
    return false;
  }
  auto b = check(s, ne);
  if (b == z3::unsat)
  {
    s.known.emplace(Z3_get_ast_id(Z(), e), e);
    return true;
  }
  State c = s;
  c.pc.push_back(ne);
  c.depth++;
  stats.forks++;
  worklist.push_back(std::move(c));
  s.pc.push_back(e);
  return true;
}

// ------------------------------------------------------------------------------------------------
// Floating point helpers
// ------------------------------------------------------------------------------------------------
static zx fp_rm()
{
  return zx(Z(), Z3_mk_fpa_round_nearest_ties_to_even(Z()));
}
static z3::sort fp_sort(unsigned bits)
{
  return bits == 32 ? Z().fpa_sort(8, 24) : Z().fpa_sort(11, 53);
}
static zx to_fp(const Val& v)
{
  if (v.k == KSFP)
    return *v.p->e;
  if (v.k == KFlt)
  {
    if (v.bits == 32)
      return zx(Z(), Z3_mk_fpa_numeral_float(Z(), (float)v.d, fp_sort(32)));
    return zx(Z(), Z3_mk_fpa_numeral_double(Z(), v.d, fp_sort(64)));
  }
  unsupported("fp value expected");
}
static Val VFP(const zx& e, unsigned bits)
{
  return VExpr(KSFP, e, bits);
}
static bool is_fp(const Val& v)
{
  return v.k == KFlt || v.k == KSReal || v.k == KSFP || v.k == KSpecial;
}
// the sign condition of a fraction: n/d REL 0 as a z3 formula
static zx frac_rel(const Frac& f, char rel)
{
  zx z = Z().real_val(0);
  if (f.d.is_const())
  {
    zx n = poly_z3(f.n);
    switch (rel)
    {
      case '=':
        return n == z;
      case '<':
        return n < z;
      case 'l':
        return n <= z;
    }
  }
  zx n = poly_z3(f.n);
  switch (rel)
  {
    case '=':
      return n == z;
    case '<':
      return poly_z3(ex::mul(f.n, f.d)) < z;
    case 'l':
      return poly_z3(ex::mul(f.n, f.d)) <= z;
  }
  unsupported("frac_rel");
}
// equations "variable = number" that were compared, by the id of their term
static std::map<unsigned, std::pair<zx, std::pair<uint32_t, mpq_class>>> known_eqs;
static void note_eq(const zx& e, const Poly& n)
{
  if (n.t.empty() || n.t.size() > 2 || (n.t.size() == 2 && n.t[0].first != 0))
    return;
  const ex::MonoVec& m = ex::monos().monos[n.t.back().first];
  if (m.size() != 1 || m[0].second != 1)
    return;
  mpq_class v = n.t.size() == 2 ? mpq_class(-n.t[0].second / n.t[1].second) : mpq_class(0);
  for (const zx& x : {e, e.simplify()})
    known_eqs.emplace(Z3_get_ast_id(Z(), x), std::make_pair(x, std::make_pair(m[0].first, v)));
}
static void path_eqs(const zx& e, bool pos, std::map<uint32_t, mpq_class>& r)
{
  if (e.is_not())
    return path_eqs(e.arg(0), !pos, r);
  if ((pos && e.is_and()) || (!pos && e.is_or()))
  {
    for (unsigned i = 0; i < e.num_args(); ++i)
      path_eqs(e.arg(i), pos, r);
    return;
  }
  if (!pos)
    return;
  auto it = known_eqs.find(Z3_get_ast_id(Z(), e));
  if (it != known_eqs.end())
    r.emplace(it->second.second);
}
static Poly substitute(const Poly& p, const std::map<uint32_t, mpq_class>& v)
{
  Poly r;
  for (auto& t : p.t)
  {
    mpq_class c = t.second;
    ex::MonoVec m;
    for (auto& ve : ex::monos().monos[t.first])
    {
      auto it = v.find(ve.first);
      if (it == v.end())
        m.push_back(ve);
      else
        for (unsigned k = 0; k < ve.second; ++k)
          c *= it->second;
    }
    if (c == 0)
      continue;
    Poly q;
    q.t.push_back({ex::monos().get(m), c});
    r = ex::add(r, q);
  }
  return r;
}
static Val real_cmp(const Val& a, const Val& b, char rel)
{
  if ((a.k == KFlt && !std::isfinite(a.d)) || (b.k == KFlt && !std::isfinite(b.d)))
  {
    // a real number against +-inf or nan
    double x = a.k == KFlt && !std::isfinite(a.d) ? a.d : 0.;
    double y = b.k == KFlt && !std::isfinite(b.d) ? b.d : 0.;
    switch (rel)
    {
      case '=':
        return VB(x == y);
      case '<':
        return VB(x < y);
      case 'l':
        return VB(x <= y);
    }
  }
  Frac f = ex::fadd(to_frac(a), to_frac(b), -1);
  if (f.n.is_const() && f.d.is_const())
  {
    mpq_class q = f.n.const_val();
    switch (rel)
    {
      case '=':
        return VB(q == 0);
      case '<':
        return VB(q < 0);
      case 'l':
        return VB(q <= 0);
    }
  }
  zx e = frac_rel(f, rel);
  if (rel == '=')
    note_eq(e, f.n);
  return VBool(e);
}
static Val vnot(const Val& v)
{
  if (v.k == KInt)
    return VB(!(v.u & 1));
  if (v.k == KUndef)
    return v;
  return VBool(!to_bool(v));
}
static Val fcmp(CmpInst::Predicate P, const Val& a, const Val& b)
{
  if (a.k == KUndef || b.k == KUndef)
    return VUndef(1);
  if (a.k == KSpecial || b.k == KSpecial)
    return VUndef(1);
  if (a.k == KFlt && b.k == KFlt)
  {
    double x = a.d, y = b.d;
    bool uno = std::isnan(x) || std::isnan(y);
    switch (P)
    {
      case CmpInst::FCMP_FALSE: return VB(false);
      case CmpInst::FCMP_OEQ: return VB(!uno && x == y);
      case CmpInst::FCMP_OGT: return VB(!uno && x > y);
      case CmpInst::FCMP_OGE: return VB(!uno && x >= y);
      case CmpInst::FCMP_OLT: return VB(!uno && x < y);
      case CmpInst::FCMP_OLE: return VB(!uno && x <= y);
      case CmpInst::FCMP_ONE: return VB(!uno && x != y);
      case CmpInst::FCMP_ORD: return VB(!uno);
      case CmpInst::FCMP_UNO: return VB(uno);
      case CmpInst::FCMP_UEQ: return VB(uno || x == y);
      case CmpInst::FCMP_UGT: return VB(uno || x > y);
      case CmpInst::FCMP_UGE: return VB(uno || x >= y);
      case CmpInst::FCMP_ULT: return VB(uno || x < y);
      case CmpInst::FCMP_ULE: return VB(uno || x <= y);
      case CmpInst::FCMP_UNE: return VB(uno || x != y);
      case CmpInst::FCMP_TRUE: return VB(true);
      default: unsupported("fcmp");
    }
  }
  if (a.k == KSFP || b.k == KSFP)
  {
    zx x = to_fp(a), y = to_fp(b);
    zx uno = zx(Z(), Z3_mk_fpa_is_nan(Z(), x)) || zx(Z(), Z3_mk_fpa_is_nan(Z(), y));
    zx eq(Z(), Z3_mk_fpa_eq(Z(), x, y)), lt(Z(), Z3_mk_fpa_lt(Z(), x, y)),
      le(Z(), Z3_mk_fpa_leq(Z(), x, y)), gt(Z(), Z3_mk_fpa_gt(Z(), x, y)),
      ge(Z(), Z3_mk_fpa_geq(Z(), x, y));
    switch (P)
    {
      case CmpInst::FCMP_OEQ: return VBool(eq);
      case CmpInst::FCMP_OGT: return VBool(gt);
      case CmpInst::FCMP_OGE: return VBool(ge);
      case CmpInst::FCMP_OLT: return VBool(lt);
      case CmpInst::FCMP_OLE: return VBool(le);
      case CmpInst::FCMP_ONE: return VBool(!uno && !eq);
      case CmpInst::FCMP_ORD: return VBool(!uno);
      case CmpInst::FCMP_UNO: return VBool(uno);
      case CmpInst::FCMP_UEQ: return VBool(uno || eq);
      case CmpInst::FCMP_UGT: return VBool(uno || gt);
      case CmpInst::FCMP_UGE: return VBool(uno || ge);
      case CmpInst::FCMP_ULT: return VBool(uno || lt);
      case CmpInst::FCMP_ULE: return VBool(uno || le);
      case CmpInst::FCMP_UNE: return VBool(uno || !eq);
      default: unsupported("fcmp");
    }
  }
  switch (P)
  {
    case CmpInst::FCMP_FALSE: return VB(false);
    case CmpInst::FCMP_TRUE: return VB(true);
    case CmpInst::FCMP_ORD: return VB(!(a.k == KFlt && std::isnan(a.d)) && !(b.k == KFlt && std::isnan(b.d)));
    case CmpInst::FCMP_UNO: return VB((a.k == KFlt && std::isnan(a.d)) || (b.k == KFlt && std::isnan(b.d)));
    case CmpInst::FCMP_OEQ:
    case CmpInst::FCMP_UEQ: return real_cmp(a, b, '=');
    case CmpInst::FCMP_ONE:
    case CmpInst::FCMP_UNE: return vnot(real_cmp(a, b, '='));
    case CmpInst::FCMP_OLT:
    case CmpInst::FCMP_ULT: return real_cmp(a, b, '<');
    case CmpInst::FCMP_OLE:
    case CmpInst::FCMP_ULE: return real_cmp(a, b, 'l');
    case CmpInst::FCMP_OGT:
    case CmpInst::FCMP_UGT: return real_cmp(b, a, '<');
    case CmpInst::FCMP_OGE:
    case CmpInst::FCMP_UGE: return real_cmp(b, a, 'l');
    default: unsupported("fcmp");
  }
}
static bool finite_or_real(const Val& v)
{
  return v.k == KSReal || (v.k == KFlt && std::isfinite(v.d));
}
static Val fbin(State& s, unsigned opc, const Val& a, const Val& b, unsigned bits)
{
  if (a.k == KUndef || b.k == KUndef)
    return VUndef(bits);
  if (a.k == KSpecial || b.k == KSpecial)
    return VSpecial(bits);
  if (a.k == KFlt && b.k == KFlt)
  {
    double r;
    if (bits == 32)
    {
      float x = a.d, y = b.d, z;
      switch (opc)
      {
        case Instruction::FAdd: z = x + y; break;
        case Instruction::FSub: z = x - y; break;
        case Instruction::FMul: z = x * y; break;
        case Instruction::FDiv: z = x / y; break;
        case Instruction::FRem: z = std::fmod(x, y); break;
        default: unsupported("fbin");
      }
      r = z;
    }
    else
      switch (opc)
      {
        case Instruction::FAdd: r = a.d + b.d; break;
        case Instruction::FSub: r = a.d - b.d; break;
        case Instruction::FMul: r = a.d * b.d; break;
        case Instruction::FDiv: r = a.d / b.d; break;
        case Instruction::FRem: r = std::fmod(a.d, b.d); break;
        default: unsupported("fbin");
      }
    return VF(r, bits);
  }
  if (a.k == KSFP || b.k == KSFP)
  {
    zx x = to_fp(a), y = to_fp(b);
    switch (opc)
    {
      case Instruction::FAdd: return VFP(zx(Z(), Z3_mk_fpa_add(Z(), fp_rm(), x, y)), bits);
      case Instruction::FSub: return VFP(zx(Z(), Z3_mk_fpa_sub(Z(), fp_rm(), x, y)), bits);
      case Instruction::FMul: return VFP(zx(Z(), Z3_mk_fpa_mul(Z(), fp_rm(), x, y)), bits);
      case Instruction::FDiv: return VFP(zx(Z(), Z3_mk_fpa_div(Z(), fp_rm(), x, y)), bits);
      default: unsupported("fbin on fp");
    }
  }
  if (!finite_or_real(a) || !finite_or_real(b))
    return VSpecial(bits);
  Frac x = to_frac(a), y = to_frac(b);
  switch (opc)
  {
    case Instruction::FAdd: return VReal(ex::fadd(x, y), bits);
    case Instruction::FSub: return VReal(ex::fadd(x, y, -1), bits);
    case Instruction::FMul: return VReal(ex::fmul(x, y), bits);
    case Instruction::FDiv:
    {
      if (y.n.is_const())
      {
        if (y.n.is_zero())
          return VSpecial(bits);
        return VReal(ex::fdiv(x, y), bits);
      }
      if (decide(s, VBool(frac_rel(y, '=')), "floating point division by zero"))
        return VSpecial(bits);
      return VReal(ex::fdiv(x, y), bits);
    }
    default: unsupported("fbin on reals");
  }
}
// Sign of a polynomial on this path: +1 / -1 (forks if not determined; zero counts as +1)
static int sign_of(State& s, const Poly& p)
{
  if (p.is_const())
    return p.const_val() < 0 ? -1 : 1;
  Itv i = poly_itv(p);
  if (i.ok && i.lo >= 0)
    return 1;
  return decide(s, VBool(poly_z3(p) < Z().real_val(0)), "sign") ? -1 : 1;
}
static std::map<std::vector<std::pair<ex::MonoId, std::string>>, uint32_t> sqrt_memo, abs_memo;
static std::vector<std::pair<ex::MonoId, std::string>> poly_key(const Poly& p)
{
  std::vector<std::pair<ex::MonoId, std::string>> k;
  for (auto& m : p.t)
    k.push_back({m.first, m.second.get_str()});
  return k;
}
static mpq_class sqrt_up(const mpq_class& q)
{
  double d = std::sqrt(q.get_d());
  return mpq_class(d * (1 + 1e-9) + 1e-300);
}
static Poly poly_sqrt(State& s, const Poly& p)
{
  // p >= 0 on this path
  if (p.is_const())
  {
    mpq_class q = p.const_val();
    mpz_class a, b;
    if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t()))
      return ex::poly_const(mpq_class(sqrt(q.get_num()), sqrt(q.get_den())));
  }
  // perfect square of a single monomial c*m^2?
  auto key = poly_key(p);
  auto it = sqrt_memo.find(key);
  uint32_t v;
  if (it == sqrt_memo.end())
  {
    v = new_real_var("sqrt");
    ex::vars()[v].has_sq = true;
    ex::vars()[v].sq = p;
    ex::vars()[v].has_lo = true;
    ex::vars()[v].lo = 0;
    Itv i = poly_itv(p);
    if (i.ok)
    {
      ex::vars()[v].has_hi = true;
      ex::vars()[v].hi = sqrt_up(i.hi);
    }
    sqrt_memo[key] = v;
  }
  else
    v = it->second;
  zx c1 = zvars()[v] >= Z().real_val(0);
  if (!implied(s, c1))
  {
    s.pc.push_back(c1);
    s.pc.push_back(zvars()[v] * zvars()[v] == poly_z3(p));
  }
  return ex::poly_var(v);
}
static Val fabs_val(State& s, const Val& a)
{
  if (a.k == KUndef || a.k == KSpecial)
    return a;
  if (a.k == KFlt)
    return VF(std::fabs(a.d), a.bits);
  if (a.k == KSFP)
    return VFP(zx(Z(), Z3_mk_fpa_abs(Z(), *a.p->e)), a.bits);
  Frac f = to_frac(a);
  auto absp = [&](const Poly& p) -> Poly {
    if (p.is_const())
      return ex::poly_const(abs(p.const_val()));
    Itv i = poly_itv(p);
    if (i.ok && i.lo >= 0)
      return p;
    if (i.ok && i.hi <= 0)
      return ex::neg(p);
    if (p.t.size() == 1)
    {
      bool alln = true;
      for (auto& ve : ex::monos().monos[p.t[0].first])
        if (!(ve.second % 2 == 0 || (ex::vars()[ve.first].has_lo && ex::vars()[ve.first].lo >= 0)))
          alln = false;
      if (alln)
        return p.t[0].second < 0 ? ex::neg(p) : p;
    }
    auto key = poly_key(p);
    auto it = abs_memo.find(key);
    uint32_t v;
    if (it == abs_memo.end())
    {
      v = new_real_var("abs");
      ex::vars()[v].has_sq = true;
      ex::vars()[v].sq = ex::mul(p, p);
      ex::vars()[v].has_lo = true;
      ex::vars()[v].lo = 0;
      if (i.ok)
      {
        ex::vars()[v].has_hi = true;
        ex::vars()[v].hi = std::max(mpq_class(abs(i.lo)), mpq_class(abs(i.hi)));
      }
      abs_memo[key] = v;
      abs_memo[poly_key(ex::neg(p))] = v;
    }
    else
      v = it->second;
    zx z = poly_z3(p);
    zx c = zvars()[v] == z3::ite(z >= Z().real_val(0), z, -z);
    zx nonneg = zvars()[v] >= Z().real_val(0);
    if (!implied(s, nonneg))
    {
      s.pc.push_back(nonneg);
      s.pc.push_back(c);
    }
    return ex::poly_var(v);
  };
  Poly n = absp(f.n), d = absp(f.d);
  return VReal(ex::make_frac(n, d), a.bits);
}
static Val fneg_val(const Val& a)
{
  if (a.k == KUndef || a.k == KSpecial)
    return a;
  if (a.k == KFlt)
    return VF(-a.d, a.bits);
  if (a.k == KSFP)
    return VFP(zx(Z(), Z3_mk_fpa_neg(Z(), *a.p->e)), a.bits);
  Frac f = to_frac(a);
  return VReal(Frac{ex::neg(f.n), f.d}, a.bits);
}
static Val sqrt_val(State& s, const Val& a)
{
  if (a.k == KUndef || a.k == KSpecial)
    return a;
  if (a.k == KFlt)
    return a.bits == 32 ? VF(sqrtf((float)a.d), 32) : VF(std::sqrt(a.d), 64);
  if (a.k == KSFP)
    return VFP(zx(Z(), Z3_mk_fpa_sqrt(Z(), fp_rm(), *a.p->e)), a.bits);
  Frac f = to_frac(a);
  Itv in = poly_itv(f.n);
  bool obviously = f.d.is_const() && in.ok && in.lo >= 0;
  if (!obviously && decide(s, VBool(frac_rel(f, '<')), "square root of a negative number"))
    return VSpecial(a.bits);
  if (f.d.is_const())
    return VReal(ex::make_frac(poly_sqrt(s, f.n), ex::poly_const(1)), a.bits);
  // sqrt(n/d) = sqrt(n*d)/|d|
  int sg = sign_of(s, f.d);
  Poly root = poly_sqrt(s, ex::mul(f.n, f.d));
  return VReal(ex::make_frac(root, sg > 0 ? f.d : ex::neg(f.d)), a.bits);
}
static Val fresh_real(State& s, const std::string& n, unsigned bits, uint32_t* idp = nullptr)
{
  uint32_t v = new_real_var(n);
  if (idp)
    *idp = v;
  return VReal(Frac{ex::poly_var(v), ex::poly_const(1)}, bits);
}
// uninterpreted function of one real argument (sin, cos, exp, log, ...), congruent by argument
static Val uf_val(State& s, const std::string& fn, const Val& a)
{
  if (a.k == KUndef || a.k == KSpecial)
    return a;
  if (a.k == KSFP)
    unsupported(fn + " in fp mode");
  static std::map<std::string, uint32_t> memo;
  Frac f = to_frac(a);
  std::string key = fn;
  for (auto& k : poly_key(f.n))
    key += "|" + std::to_string(k.first) + ":" + k.second;
  key += "/";
  for (auto& k : poly_key(f.d))
    key += "|" + std::to_string(k.first) + ":" + k.second;
  auto it = memo.find(key);
  uint32_t v;
  if (it == memo.end())
  {
    v = new_real_var(fn);
    if (fn == "sin" || fn == "cos")
    {
      ex::vars()[v].has_lo = ex::vars()[v].has_hi = true;
      ex::vars()[v].lo = -1;
      ex::vars()[v].hi = 1;
    }
    memo[key] = v;
  }
  else
    v = it->second;
  if (fn == "sin" || fn == "cos")
  {
    zx c = zvars()[v] >= Z().real_val(-1);
    if (!implied(s, c))
    {
      s.pc.push_back(c);
      s.pc.push_back(zvars()[v] <= Z().real_val(1));
    }
  }
  stats.stubs["uninterpreted " + fn]++;
  return VReal(Frac{ex::poly_var(v), ex::poly_const(1)}, a.bits);
}

// ------------------------------------------------------------------------------------------------
// Integers
// ------------------------------------------------------------------------------------------------
static int64_t sx(uint64_t u, unsigned b)
{
  if (b >= 64)
    return (int64_t)u;
  uint64_t m = 1ULL << (b - 1);
  return (int64_t)((u ^ m) - m);
}
static Val ibin(State& s, unsigned opc, const Val& a, const Val& b, unsigned bits, Instruction* I)
{
  if (a.k == KUndef || b.k == KUndef)
  {
    // x & 0, x * 0 stay defined
    if (opc == Instruction::And && ((a.k == KInt && a.u == 0) || (b.k == KInt && b.u == 0)))
      return VI(0, bits);
    return VUndef(bits);
  }
  if ((a.k == KPair || b.k == KPair) && bits == 64)
  {
    auto split = [](const Val& v) -> std::vector<Val> {
      if (v.k == KPair)
        return halves(v);
      if (v.k == KInt)
        return {VI(v.u, 32), VI(v.u >> 32, 32)};
      unsupported("arithmetic on a pair of floats");
    };
    auto zero = [](const Val& v) { return v.k == KInt && v.u == 0; };
    auto x = split(a);
    if (opc == Instruction::LShr && b.k == KInt && b.u == 32)
      return VPair(x[1], VI(0, 32));
    if (opc == Instruction::Shl && b.k == KInt && b.u == 32)
      return VPair(VI(0, 32), x[0]);
    auto y = split(b);
    if (opc == Instruction::Or)
    {
      if ((zero(x[0]) || zero(y[0])) && (zero(x[1]) || zero(y[1])))
        return VPair(zero(x[0]) ? y[0] : x[0], zero(x[1]) ? y[1] : x[1]);
    }
    if (opc == Instruction::And && b.k == KInt && (b.u == 0xffffffffULL || b.u == 0xffffffff00000000ULL))
      return b.u & 1 ? VPair(x[0], VI(0, 32)) : VPair(VI(0, 32), x[1]);
    unsupported("integer arithmetic on a pair of floats");
  }
  if (a.k == KSReal || b.k == KSReal || a.k == KSFP || b.k == KSFP)
    unsupported("integer arithmetic on a symbolic floating point pattern");
  bool div = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem ||
             opc == Instruction::SRem;
  if (div)
  {
    Val z = b.k == KInt ? VB(b.u == 0) : VBool(to_bv(b) == bvnum(0, bits));
    if (z.k == KInt ? z.u : decide(s, z, "integer division by zero"))
    {
      report(s, "arithmetic", "integer division by zero", {});
      throw PathEnd{false};
    }
  }
  if (a.k == KInt && b.k == KInt)
  {
    uint64_t x = a.u, y = b.u;
    if (bits > 64)
      unsupported("wide integer arithmetic");
    switch (opc)
    {
      case Instruction::Add: return VI(x + y, bits);
      case Instruction::Sub: return VI(x - y, bits);
      case Instruction::Mul: return VI(x * y, bits);
      case Instruction::UDiv: return VI(x / y, bits);
      case Instruction::URem: return VI(x % y, bits);
      case Instruction::SDiv: return VI(sx(y, bits) == -1 ? (uint64_t)0 - x : (uint64_t)(sx(x, bits) / sx(y, bits)), bits);
      case Instruction::SRem: return VI(sx(y, bits) == -1 ? 0 : (uint64_t)(sx(x, bits) % sx(y, bits)), bits);
      case Instruction::And: return VI(x & y, bits);
      case Instruction::Or: return VI(x | y, bits);
      case Instruction::Xor: return VI(x ^ y, bits);
      case Instruction::Shl: return y >= bits ? VUndef(bits) : VI(x << y, bits);
      case Instruction::LShr: return y >= bits ? VUndef(bits) : VI(x >> y, bits);
      case Instruction::AShr: return y >= bits ? VUndef(bits) : VI(sx(x, bits) >> y, bits);
      default: unsupported("ibin");
    }
  }
  if (bits == 1)
  {
    zx x = to_bool(a), y = to_bool(b);
    switch (opc)
    {
      case Instruction::And: return VBool(x && y);
      case Instruction::Or: return VBool(x || y);
      case Instruction::Xor:
      case Instruction::Add:
      case Instruction::Sub: return VBool(x != y);
      case Instruction::Mul: return VBool(x && y);
      default: unsupported("i1 op");
    }
  }
  zx x = to_bv(a), y = to_bv(b);
  switch (opc)
  {
    case Instruction::Add: return VBV(x + y, bits);
    case Instruction::Sub: return VBV(x - y, bits);
    case Instruction::Mul: return VBV(x * y, bits);
    case Instruction::UDiv: return VBV(z3::udiv(x, y), bits);
    case Instruction::URem: return VBV(z3::urem(x, y), bits);
    case Instruction::SDiv: return VBV(x / y, bits);
    case Instruction::SRem: return VBV(z3::srem(x, y), bits);
    case Instruction::And: return VBV(x & y, bits);
    case Instruction::Or: return VBV(x | y, bits);
    case Instruction::Xor: return VBV(x ^ y, bits);
    case Instruction::Shl: return VBV(z3::shl(x, y), bits);
    case Instruction::LShr: return VBV(z3::lshr(x, y), bits);
    case Instruction::AShr: return VBV(z3::ashr(x, y), bits);
    default: unsupported("ibin");
  }
}
static Val icmp(CmpInst::Predicate P, const Val& a, const Val& b)
{
  if (a.k == KUndef || b.k == KUndef)
    return VUndef(1);
  // the sign bit of a number (a symbolic real has no negative zero)
  if (is_fp(a) && b.k == KInt && ((P == CmpInst::ICMP_SLT && b.u == 0) || (P == CmpInst::ICMP_SGT && sx(b.u, b.bits) == -1)))
  {
    if (a.k == KFlt)
      return VB(std::signbit(a.d) == (P == CmpInst::ICMP_SLT));
    return fcmp(P == CmpInst::ICMP_SLT ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGE, a, VF(0., a.bits));
  }
  if (is_fp(a) || is_fp(b))
    unsupported("integer comparison of a floating point pattern");
  unsigned w = a.bits;
  if (a.k == KInt && b.k == KInt)
  {
    uint64_t x = a.u, y = b.u;
    int64_t p = sx(x, w), q = sx(y, w);
    switch (P)
    {
      case CmpInst::ICMP_EQ: return VB(x == y);
      case CmpInst::ICMP_NE: return VB(x != y);
      case CmpInst::ICMP_UGT: return VB(x > y);
      case CmpInst::ICMP_UGE: return VB(x >= y);
      case CmpInst::ICMP_ULT: return VB(x < y);
      case CmpInst::ICMP_ULE: return VB(x <= y);
      case CmpInst::ICMP_SGT: return VB(p > q);
      case CmpInst::ICMP_SGE: return VB(p >= q);
      case CmpInst::ICMP_SLT: return VB(p < q);
      case CmpInst::ICMP_SLE: return VB(p <= q);
      default: unsupported("icmp");
    }
  }
  if (w == 1)
  {
    zx x = to_bool(a), y = to_bool(b);
    switch (P)
    {
      case CmpInst::ICMP_EQ: return VBool(x == y);
      case CmpInst::ICMP_NE: return VBool(x != y);
      case CmpInst::ICMP_UGT: return VBool(x && !y);
      case CmpInst::ICMP_ULT: return VBool(!x && y);
      default: unsupported("icmp i1");
    }
  }
  zx x = to_bv(a), y = to_bv(b);
  switch (P)
  {
    case CmpInst::ICMP_EQ: return VBool(x == y);
    case CmpInst::ICMP_NE: return VBool(x != y);
    case CmpInst::ICMP_UGT: return VBool(z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return VBool(z3::uge(x, y));
    case CmpInst::ICMP_ULT: return VBool(z3::ult(x, y));
    case CmpInst::ICMP_ULE: return VBool(z3::ule(x, y));
    case CmpInst::ICMP_SGT: return VBool(x > y);
    case CmpInst::ICMP_SGE: return VBool(x >= y);
    case CmpInst::ICMP_SLT: return VBool(x < y);
    case CmpInst::ICMP_SLE: return VBool(x <= y);
    default: unsupported("icmp");
  }
}
static Val select_val(State& s, const Val& c, const Val& a, const Val& b)
{
  if (c.k == KInt)
    return c.u & 1 ? a : b;
  if (c.k == KUndef)
    return VUndef(a.bits);
  if (a.k == KAgg || b.k == KAgg || a.k == KPair || b.k == KPair || a.k == KSpecial || b.k == KSpecial)
    return decide(s, c, "select") ? a : b;
  if (a.k == KUndef || b.k == KUndef)
    return decide(s, c, "select") ? a : b;
  if (is_fp(a) || is_fp(b))
  {
    if (a.k == KSFP || b.k == KSFP)
      return VFP(z3::ite(to_bool(c), to_fp(a), to_fp(b)), a.bits);
    if (!finite_or_real(a) || !finite_or_real(b))
      return decide(s, c, "select") ? a : b;
    Frac x = to_frac(a), y = to_frac(b);
    if (ex::same(x.n, y.n) && ex::same(x.d, y.d))
      return a;
    // Reals: fork, so that the values stay in closed form.
    return decide(s, c, "select") ? a : b;
  }
  if (a.bits == 1)
    return VBool(z3::ite(to_bool(c), to_bool(a), to_bool(b)));
  return VBV(z3::ite(to_bool(c), to_bv(a), to_bv(b)), a.bits);
}
static Val cast_val(State& s, unsigned opc, const Val& a, Type* ST, Type* DT)
{
  unsigned db = DT->isPointerTy() ? 64 : DT->getPrimitiveSizeInBits();
  unsigned sb = ST->isPointerTy() ? 64 : ST->getPrimitiveSizeInBits();
  if (a.k == KUndef)
    return VUndef(db);
  switch (opc)
  {
    case Instruction::Trunc:
      if (a.k == KInt)
        return VI(a.u, db);
      if (a.k == KPair && db == 32)
        return halves(a)[0];
      if (a.k == KPair || a.k == KSReal || a.k == KSFP)
        unsupported("trunc of float pattern");
      if (db == 1)
        return VBool(to_bv(a).extract(0, 0) == bvnum(1, 1));
      return VBV(to_bv(a).extract(db - 1, 0), db);
    case Instruction::ZExt:
      if (a.k == KInt)
        return VI(a.u, db);
      if (a.k == KSBool)
        return VBV(z3::ite(*a.p->e, bvnum(1, db), bvnum(0, db)), db);
      if ((a.k == KSReal || a.k == KSFP) && sb == 32 && db == 64)
        return VPair(a, VI(0, 32));
      return VBV(z3::zext(to_bv(a), db - sb), db);
    case Instruction::SExt:
      if (a.k == KInt)
        return VI(sx(a.u, sb), db);
      if (a.k == KSBool)
        return VBV(z3::ite(*a.p->e, bvnum(~0ULL & mask(db), db), bvnum(0, db)), db);
      return VBV(z3::sext(to_bv(a), db - sb), db);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (a.k == KInt)
        return VI(a.u, db);
      if (sb == db)
        return a;
      unsupported("ptr/int cast of different width");
    case Instruction::BitCast:
    {
      if (a.k == KAgg || DT->isVectorTy())
      {
        if (ST == DT)
          return a;
        auto is2f = [](Type* t) {
          auto* v = dyn_cast<FixedVectorType>(t);
          return v && v->getNumElements() == 2 && v->getElementType()->isFloatTy();
        };
        if (is2f(DT) && (a.k == KPair || a.k == KInt || a.k == KFlt))
        {
          std::vector<Val> h;
          if (a.k == KPair)
            h = halves(a);
          else
          {
            uint64_t u = a.u;
            h = {VI(u, 32), VI(u >> 32, 32)};
          }
          for (auto& x : h)
            if (x.k == KInt)
            {
              float f;
              uint32_t u = x.u;
              memcpy(&f, &u, 4);
              x = VF(f, 32);
            }
          return VAgg(h);
        }
        if (is2f(ST) && a.k == KAgg && !DT->isVectorTy())
        {
          Val p = VPair(agg(a)[0], agg(a)[1]);
          if (p.k == KInt && DT->isDoubleTy())
          {
            double d;
            memcpy(&d, &p.u, 8);
            return VF(d, 64);
          }
          return p;
        }
        unsupported("vector bitcast");
      }
      bool df = DT->isFloatingPointTy();
      if (a.k == KInt && df)
      {
        if (db == 64)
        {
          double d;
          memcpy(&d, &a.u, 8);
          return VF(d, 64);
        }
        float f;
        uint32_t u = a.u;
        memcpy(&f, &u, 4);
        return VF(f, 32);
      }
      if (a.k == KFlt && !df)
      {
        if (db == 64)
        {
          uint64_t u;
          memcpy(&u, &a.d, 8);
          return VI(u, 64);
        }
        float f = a.d;
        uint32_t u;
        memcpy(&u, &f, 4);
        return VI(u, 32);
      }
      return a;
    }
    case Instruction::FPTrunc:
    case Instruction::FPExt:
      if (a.k == KFlt)
        return VF(a.d, db);
      if (a.k == KSFP)
        return VFP(zx(Z(), Z3_mk_fpa_to_fp_float(Z(), fp_rm(), *a.p->e, fp_sort(db))), db);
      if (opc == Instruction::FPTrunc && a.k == KSReal)
      {
        // rounding to single precision: x (1 + delta), |delta| <= 2^-24
        // (for a longer polynomial x + e, |e| <= 2^-24 max |x|, which keeps the polynomials short)
        Frac f = to_frac(a);
        mpq_class bound(1);
        Itv fi;
        if (f.d.is_const() && f.n.t.size() > 4)
          fi = poly_itv(f.n);
        const bool additive = fi.ok;
        if (additive)
        {
          bound = std::max(mpq_class(abs(fi.lo)), mpq_class(abs(fi.hi))) / abs(f.d.const_val());
          mpz_class num = bound.get_num() << 20, up;
          mpz_cdiv_q(up.get_mpz_t(), num.get_mpz_t(), bound.get_den_mpz_t());
          bound = mpq_class(up, mpz_class(1) << 20);
          bound.canonicalize();
        }
        else
          bound = 1;
        uint32_t id = new_real_var("fptrunc_delta");
        auto& vi = ex::vars()[id];
        vi.has_lo = vi.has_hi = true;
        vi.hi = bound * mpq_class(1, 1 << 24);
        vi.lo = -vi.hi;
        s.pc.push_back(zvars()[id] >= qnum(vi.lo));
        s.pc.push_back(zvars()[id] <= qnum(vi.hi));
        if (additive)
          return VReal(ex::make_frac(ex::add(f.n, ex::mul(ex::poly_var(id), f.d)), f.d), db);
        Poly one = ex::add(ex::poly_const(1), ex::poly_var(id));
        return VReal(ex::make_frac(ex::mul(f.n, one), f.d), db);
      }
      {
        Val v = a;
        v.bits = db;
        return v;
      }
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    {
      if (a.k == KInt)
      {
        if (opc == Instruction::UIToFP)
          return db == 32 ? VF((float)a.u, 32) : VF((double)a.u, 64);
        return db == 32 ? VF((float)sx(a.u, sb), 32) : VF((double)sx(a.u, sb), 64);
      }
      // symbolic integer to real: enumerate
      Val v = a;
      uint64_t u = concretize(s, v, "int-to-float operand");
      return cast_val(s, opc, VI(u, sb), ST, DT);
    }
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    {
      if (a.k == KFlt)
      {
        const double top = std::ldexp(1., opc == Instruction::FPToUI ? db : db - 1);
        if (!std::isfinite(a.d) || !(a.d < top) || !(opc == Instruction::FPToUI ? a.d > -1. : a.d > -top - 1.))
        {
          report(s, "arithmetic", "float-to-int conversion out of range", {});
          throw PathEnd{false};
        }
        if (opc == Instruction::FPToUI)
          return VI(a.d < 0 ? (uint64_t)(int64_t)a.d : (uint64_t)a.d, db);
        return VI((uint64_t)(int64_t)a.d, db);
      }
      if (a.k == KSReal)
      {
        // truncation towards zero of a real number
        Frac f = to_frac(a);
        zx r = poly_z3(f.n) / poly_z3(f.d);
        zx fl(Z(), Z3_mk_real2int(Z(), r));
        zx nfl(Z(), Z3_mk_real2int(Z(), -r));
        zx t = z3::ite(r >= Z().real_val(0), fl, -nfl);
        static unsigned cnt = 0;
        zx b = Z().bv_const(("fptoint!" + std::to_string(cnt++)).c_str(), db);
        zx bi = opc == Instruction::FPToUI ? z3::bv2int(b, false) : z3::bv2int(b, true);
        s.pc.push_back(bi == t);
        Val v = VExpr(KSInt, b, db);
        uint64_t u = concretize(s, v, "float-to-int result");
        return VI(u, db);
      }
      unsupported("fp to int");
    }
    default:
      unsupported("cast");
  }
}

// ------------------------------------------------------------------------------------------------
// Strings in memory
// ------------------------------------------------------------------------------------------------
static std::string cstr(State& s, uint64_t addr)
{
  std::string r;
  for (;;)
  {
    Val v = load_scalar(s, addr++, Type::getInt8Ty(M->getContext()));
    if (v.k != KInt)
      unsupported("symbolic C string");
    if (v.u == 0)
      return r;
    r.push_back((char)v.u);
  }
}
static void mem_copy(State& s, uint64_t dst, uint64_t src, uint64_t n)
{
  if (n == 0)
    return;
  ObjP so = obj_of(s, src, "memcpy source");
  bounds(s, *so, src, n, "read");
  uint64_t a = src & 0xffffffffULL, b = dst & 0xffffffffULL;
  // snapshot of the source range
  std::vector<uint8_t> by(so->bytes.begin() + a, so->bytes.begin() + a + n);
  std::vector<uint8_t> in(so->init.begin() + a, so->init.begin() + a + n);
  std::vector<std::pair<uint64_t, Val>> cs;
  {
    auto it = so->cells.lower_bound(a);
    if (it != so->cells.begin())
    {
      auto pr = std::prev(it);
      if (pr->first + Object::cell_size(pr->second) > a)
      {
        // tail of a cell: split if possible
        if (pr->second.k == KSInt)
        {
          for (uint64_t k = a - pr->first; k < Object::cell_size(pr->second) && pr->first + k < a + n; ++k)
            cs.push_back({pr->first + k - a, VExpr(KSInt, pr->second.p->e->extract(8 * k + 7, 8 * k), 8)});
        }
        else
          unsupported("memcpy splits a floating point cell");
      }
    }
    for (; it != so->cells.end() && it->first < a + n; ++it)
    {
      if (it->first + Object::cell_size(it->second) <= a + n)
        cs.push_back({it->first - a, it->second});
      else if (it->second.k == KSInt)
      {
        for (uint64_t k = 0; it->first + k < a + n; ++k)
          cs.push_back({it->first + k - a, VExpr(KSInt, it->second.p->e->extract(8 * k + 7, 8 * k), 8)});
      }
      else
        unsupported("memcpy splits a floating point cell");
    }
  }
  so.reset();
  Object& d = wobj(s, dst, "memcpy destination");
  bounds(s, d, dst, n, "write");
  if (d.constant)
  {
    report(s, "memory", "write to constant object " + d.name, {});
    throw PathEnd{false};
  }
  d.clear_range(b, n);
  std::copy(by.begin(), by.end(), d.bytes.begin() + b);
  std::copy(in.begin(), in.end(), d.init.begin() + b);
  for (auto& c : cs)
    d.cells[b + c.first] = c.second;
}
#include "builtins.hxx"

static std::string jesc(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += c;
    }
    else if (c < 32)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += c;
  }
  return r + "\"";
}
static void init_const(Object& o, uint64_t off, const Constant* C)
{
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C))
    return;
  if (auto* CD = dyn_cast<ConstantDataSequential>(C))
  {
    StringRef r = CD->getRawDataValues();
    std::copy(r.begin(), r.end(), o.bytes.begin() + off);
    return;
  }
  if (auto* ST = dyn_cast<StructType>(T))
  {
    auto* L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); ++i)
      init_const(o, off + L->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (T->isArrayTy() || T->isVectorTy())
  {
    Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
    unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i)
      init_const(o, off + i * DL->getTypeAllocSize(E), C->getAggregateElement(i));
    return;
  }
  if (T->isX86_FP80Ty())
    return;
  Val v = const_val(C);
  uint64_t n = DL->getTypeStoreSize(T);
  if (v.k == KInt)
    for (uint64_t i = 0; i < n; ++i)
      o.bytes[off + i] = i < 8 ? v.u >> (8 * i) : 0;
  else if (v.k == KFlt)
  {
    if (n == 4)
    {
      float x = v.d;
      memcpy(&o.bytes[off], &x, 4);
    }
    else
      memcpy(&o.bytes[off], &v.d, 8);
  }
}
static void setup_globals()
{
  State& s = init_state;
  s.mem.push_back(nullptr);
  // functions share one region
  uint64_t fid = s.mem.size();
  s.mem.push_back(nullptr);
  uint64_t k = 0;
  for (auto& F : *M)
  {
    uint64_t a = (fid << 32) + 16 * ++k;
    gaddr[&F] = a;
    faddr[a] = &F;
  }
  for (auto& G : M->globals())
  {
    uint64_t sz = G.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 1024;
    auto o = std::make_shared<Object>();
    o->size = sz;
    o->name = "global:" + G.getName().str();
    o->bytes.assign(sz, 0);
    o->init.assign(sz, 1);
    gaddr[&G] = (uint64_t)s.mem.size() << 32;
    s.mem.push_back(o);
  }
  for (auto& G : M->globals())
    if (G.hasInitializer())
    {
      Object& o = *s.mem[gaddr[&G] >> 32];
      init_const(o, 0, G.getInitializer());
      o.constant = G.isConstant();
    }
}
static void push_call(State& s, Function* F)
{
  Frame f;
  f.f = compile(F);
  f.regs.resize(f.f->nregs);
  s.st.push_back(f);
}

// a path that goes on and on: the driver runs its input natively
static std::vector<Violation> hangs;
static void note_hang(State& s)
{
  z3::model m(Z());
  if (hangs.empty() && query(s.pc, &m, opt.query_ms) == z3::sat)
    hangs.push_back({"termination", "ends", where(s), model_inputs(s, m), 1});
}
int main(int argc, char** argv)
{
  if (argc < 4)
  {
    std::cerr << "usage: hysym MODULE ENTRY OUT [options]\n";
    return 2;
  }
  for (int i = 4; i + 1 < argc; i += 2)
  {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--time") opt.time_limit = std::stod(v);
    else if (k == "--query-ms") opt.query_ms = std::stoul(v);
    else if (k == "--max-paths") opt.max_paths = std::stoul(v);
    else if (k == "--max-path-instr") opt.max_path_instr = std::stoul(v);
    else if (k == "--max-instr") opt.max_instr = std::stoul(v);
    else if (k == "--max-values") opt.max_values = std::stoul(v);
    else if (k == "--max-violations") opt.max_violations = std::stoul(v);
    else if (k == "--max-witness") opt.max_witness = std::stoul(v);
    else if (k == "--dump-smt") opt.dump_smt = v;
    else { std::cerr << "unknown option " << k << "\n"; return 2; }
  }
  LLVMContext C;
  SMDiagnostic err;
  auto mod = parseIRFile(argv[1], err, C);
  if (!mod)
  {
    err.print("hysym", errs());
    return 2;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  double t0 = now();
  deadline = t0 + opt.time_limit;
  std::string fatal;
  unsigned long completed = 0;
  try
  {
    setup_globals();
    // static constructors
    if (auto* G = M->getNamedGlobal("llvm.global_ctors"))
      if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
      {
        std::vector<std::pair<uint64_t, Function*>> ctors;
        for (auto& U : CA->operands())
        {
          auto* CS = cast<ConstantStruct>(U.get());
          ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(),
                           cast<Function>(CS->getOperand(1)->stripPointerCasts())});
        }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (auto& c : ctors)
        {
          push_call(init_state, c.second);
          try
          {
            while (true)
              step(init_state);
          }
          catch (PathEnd&)
          {
          }
          init_state.st.clear();
        }
      }
    Function* E = M->getFunction(argv[2]);
    if (!E || E->isDeclaration())
      unsupported(std::string("no entry function ") + argv[2]);
    State s = init_state;
    push_call(s, E);
    worklist.push_back(std::move(s));
    while (!worklist.empty())
    {
      State st = std::move(worklist.back());
      worklist.pop_back();
      if (stats.paths >= opt.max_paths)
      {
        inconclusive.push_back("path budget exhausted");
        break;
      }
      if (now() > deadline)
      {
        inconclusive.push_back("time budget exhausted");
        break;
      }
      stats.paths++;
      try
      {
        unsigned long cnt = 0;
        for (;;)
        {
          step(st);
          if ((++cnt & 0xfff) == 0)
          {
            const bool long_path = cnt > opt.max_path_instr;
            if (stats.instr > opt.max_instr || long_path)
            {
              inconclusive.push_back(long_path ? "path does not end" : "instruction budget exhausted");
              if (cnt > 100000)
                note_hang(st);
              worklist.clear();
              throw PathEnd{false};
            }
            if (now() > deadline)
            {
              inconclusive.push_back("time budget exhausted");
              if (cnt > 100000)
                note_hang(st);
              worklist.clear();
              throw PathEnd{false};
            }
          }
        }
      }
      catch (PathEnd& e)
      {
        if (e.completed && st.expect_abort && !st.aborted)
          report(st, "assertion", "the invalid call is rejected (aborts)", {});
        else if (e.completed)
        {
          // reachability witness: the end of the harness must be reachable
          if (witnesses.size() < opt.max_witness)
          {
            z3::model m(Z());
            auto r = query(st.pc, &m, opt.query_ms);
            if (r == z3::sat)
            {
              witnesses.push_back(model_inputs(st, m));
              completed++;
            }
            else if (r == z3::unknown)
              completed++;
          }
          else
            completed++;
        }
      }
      catch (Unsupported& u)
      {
        throw Unsupported{u.m + " at " + where(st)};
      }
      if (violations.size() >= opt.max_violations)
        break;
    }
  }
  catch (Unsupported& u)
  {
    fatal = u.m;
  }
  catch (z3::exception& e)
  {
    fatal = std::string("z3: ") + e.msg();
  }
  std::ofstream o(argv[3]);
  o << "{\n \"entry\": " << jesc(argv[2]) << ",\n \"fatal\": " << jesc(fatal)
    << ",\n \"paths\": " << stats.paths << ", \"completed\": " << completed
    << ", \"forks\": " << stats.forks << ", \"instructions\": " << stats.instr
    << ",\n \"asserts\": " << stats.asserts << ", \"assert_queries\": " << stats.assert_queries
    << ", \"folded\": " << stats.folded << ",\n \"queries\": " << stats.q_total
    << ", \"sat\": " << stats.q_sat << ", \"unsat\": " << stats.q_unsat
    << ", \"unknown\": " << stats.q_unknown << ", \"solver_s\": " << stats.solver_s
    << ", \"wall_s\": " << now() - t0 << ",\n \"violations\": [";
  bool first = true;
  auto dump_model = [&](const std::vector<std::pair<std::string, std::string>>& m) {
    o << "[";
    for (size_t i = 0; i < m.size(); ++i)
      o << (i ? ", " : "") << "[" << jesc(m[i].first) << ", " << jesc(m[i].second) << "]";
    o << "]";
  };
  for (auto& v : violations)
  {
    o << (first ? "\n" : ",\n") << "  {\"kind\": " << jesc(v.kind) << ", \"msg\": " << jesc(v.msg)
      << ", \"where\": " << jesc(v.where) << ", \"model\": ";
    dump_model(v.model);
    o << "}";
    first = false;
  }
  o << "],\n \"hangs\": [";
  for (auto& v : hangs)
  {
    o << "{\"where\": " << jesc(v.where) << ", \"model\": ";
    dump_model(v.model);
    o << "}";
  }
  o << "],\n \"witnesses\": [";
  for (size_t i = 0; i < witnesses.size(); ++i)
  {
    o << (i ? ",\n  " : "\n  ");
    dump_model(witnesses[i]);
  }
  o << "],\n \"inconclusive\": [";
  for (size_t i = 0; i < inconclusive.size() && i < 50; ++i)
    o << (i ? ", " : "") << jesc(inconclusive[i]);
  o << "],\n \"assert_hits\": {";
  first = true;
  for (auto& h : stats.assert_hits)
  {
    o << (first ? "" : ", ") << jesc(h.first) << ": " << h.second;
    first = false;
  }
  o << "},\n \"stubs\": {";
  first = true;
  for (auto& h : stats.stubs)
  {
    o << (first ? "" : ", ") << jesc(h.first) << ": " << h.second;
    first = false;
  }
  o << "},\n \"functions\": [";
  first = true;
  for (auto& h : stats.functions)
  {
    o << (first ? "" : ",\n  ") << jesc(h);
    first = false;
  }
  o << "]\n}\n";
  o.flush();
  _exit(0);
}
