// Builtin functions (harness API, C/C++ runtime, libm, LAPACK contracts) and the interpreter loop.
#pragma once

static const Val& opv(State& s, const Op& o)
{
  if (o.reg >= 0)
    return s.st.back().regs[o.reg];
  if (o.reg == -3)
    unsupported("constant operand");
  return o.c;
}
static uint64_t cu(State& s, const Val& v, const char* what)
{
  Val t = v;
  return concretize(s, t, what);
}

// ------------------------------------------------------------------------------------------------
// assertions
// ------------------------------------------------------------------------------------------------
static void do_assert(State& s, const Val& c, const std::string& msg)
{
  stats.asserts++;
  stats.assert_hits[msg]++;
  if (c.k == KInt)
  {
    stats.folded++;
    if (!(c.u & 1))
    {
      report(s, "assertion", msg, {});
      throw PathEnd{false};
    }
    return;
  }
  if (c.k == KUndef)
  {
    report(s, "uninitialised", msg + " (depends on an uninitialised or non-finite value)", {});
    throw PathEnd{false};
  }
  stats.assert_queries++;
  zx e = to_bool(c), ne = (!e).simplify();
  if (implied(s, e))
    return;
  auto r = check(s, ne, "A");
  if (r == z3::unsat)
  {
    return;
  }
  if (r == z3::unknown)
  {
    inconclusive.push_back("assertion: " + msg + " at " + where(s));
    s.pc.push_back(e);
    return;
  }
  report(s, "assertion", msg, {ne});
  // go on with the inputs for which it holds
  if (check(s, e) != z3::sat)
    throw PathEnd{false};
  s.pc.push_back(e);
}
static void do_near(State& s, const Val& a, const Val& b, double tol, const std::string& msg)
{
  stats.asserts++;
  stats.assert_hits[msg]++;
  if (a.k == KUndef || b.k == KUndef || a.k == KSpecial || b.k == KSpecial)
  {
    report(s, "uninitialised", msg + " (an operand is uninitialised or not finite)", {});
    throw PathEnd{false};
  }
  if (a.k == KFlt && b.k == KFlt)
  {
    stats.folded++;
    if (!(std::fabs(a.d - b.d) <= tol))
    {
      report(s, "assertion", msg + " [" + std::to_string(a.d) + " vs " + std::to_string(b.d) + "]", {});
      throw PathEnd{false};
    }
    return;
  }
  if (a.k == KSFP || b.k == KSFP)
    unsupported("vf_near in fp mode");
  if (!finite_or_real(a) || !finite_or_real(b))
  {
    report(s, "assertion", msg + " (an operand is not finite)", {});
    throw PathEnd{false};
  }
  Frac f = ex::fadd(to_frac(a), to_frac(b), -1);
  stats.assert_queries++;
  mpq_class t(tol);
  // variables whose value the path fixes
  std::map<uint32_t, mpq_class> fixed;
  for (auto& e : s.pc)
    path_eqs(e, true, fixed);
  if (!fixed.empty())
  {
    Poly d = substitute(f.d, fixed);
    if (!d.is_zero())
      f = ex::make_frac(substitute(f.n, fixed), d);
  }
  if (f.d.is_const())
  {
    // 1. linear abstraction: every monomial is an independent variable in its interval; coefficients are rounded to
    //    multiples of 2^-70, and a slack variable takes up at least what the rounding can change
    bool ok = true;
    std::vector<zx> cs;
    z3::expr_vector terms(Z());
    mpq_class slack(0);
    for (auto& m : f.n.t)
    {
      mpz_class num = m.second.get_num() << 70, fl;
      mpz_fdiv_q(fl.get_mpz_t(), num.get_mpz_t(), m.second.get_den_mpz_t());
      mpq_class c(fl, mpz_class(1) << 70), bound(1);
      c.canonicalize();
      if (m.first == 0)
      {
        terms.push_back(qnum(c));
      }
      else
      {
        Itv i = mono_itv(m.first);
        if (!i.ok)
        {
          ok = false;
          break;
        }
        bound = std::max(mpq_class(abs(i.lo)), mpq_class(abs(i.hi)));
        if (c != 0)
        {
          zx v = Z().real_const(("mono!" + std::to_string(m.first)).c_str());
          cs.push_back(v >= qnum(i.lo));
          cs.push_back(v <= qnum(i.hi));
          terms.push_back(qnum(c) * v);
        }
      }
      if (c != m.second)
        slack += bound / mpq_class(mpz_class(1) << 70);
    }
    if (ok)
    {
      if (slack != 0)
      {
        // a short upper bound
        mpz_class up;
        mpz_class num = slack.get_num() << 70;
        mpz_cdiv_q(up.get_mpz_t(), num.get_mpz_t(), slack.get_den_mpz_t());
        slack = mpq_class(up, mpz_class(1) << 70);
        slack.canonicalize();
        zx v = Z().real_const("mono!slack");
        cs.push_back(v >= qnum(-slack));
        cs.push_back(v <= qnum(slack));
        terms.push_back(v);
      }
      zx sum = terms.size() ? z3::sum(terms) : Z().real_val(0);
      cs.push_back(sum > qnum(t) || sum < qnum(-t));
      if (query(cs, nullptr, opt.query_ms, "A") == z3::unsat)
        return;
    }
  }
  else if (f.n.is_zero())
  {
    std::vector<zx> cs{qnum(mpq_class(0)) > qnum(t)};
    query(cs, nullptr, opt.query_ms, "A");
    return;
  }
  // 2. exact
  auto exceeds = [&](const mpq_class& tt) {
    if (f.d.is_const())
    {
      zx n = poly_z3(f.n);
      return n > qnum(tt) || n < qnum(-tt);
    }
    zx n = poly_z3(f.n), d = poly_z3(f.d);
    // |n| > tt |d|
    return (n > qnum(tt) * d && n > qnum(-tt) * d) || (n < qnum(tt) * d && n < qnum(-tt) * d);
  };
  zx bad = exceeds(t);
  auto r = check(s, bad, "A");
  if (r == z3::unsat)
    return;
  if (r == z3::unknown)
  {
    // look for a gross violation, which is often easier
    z3::model m(Z());
    std::vector<zx> cs = s.pc;
    cs.push_back(exceeds(mpq_class(1, 8)));
    if (query(cs, &m, opt.query_ms) == z3::sat)
    {
      violations.push_back({"assertion", msg, where(s), model_inputs(s, m), 1});
      throw PathEnd{false};
    }
    inconclusive.push_back("near: " + msg + " at " + where(s));
    return;
  }
  report(s, "assertion", msg, {bad},
         {exceeds(mpq_class(1, 8)), exceeds(mpq_class(1, 1000)), exceeds(t * 1000)});
  throw PathEnd{false};
}

// ------------------------------------------------------------------------------------------------
// LAPACK contracts
// ------------------------------------------------------------------------------------------------
static Frac det_frac(const std::vector<std::vector<Frac>>& a)
{
  size_t n = a.size();
  if (n == 1)
    return a[0][0];
  Frac r{ex::poly_const(0), ex::poly_const(1)};
  for (size_t j = 0; j < n; ++j)
  {
    if (a[0][j].n.is_zero())
      continue;
    std::vector<std::vector<Frac>> m;
    for (size_t i = 1; i < n; ++i)
    {
      std::vector<Frac> row;
      for (size_t k = 0; k < n; ++k)
        if (k != j)
          row.push_back(a[i][k]);
      m.push_back(row);
    }
    r = ex::fadd(r, ex::fmul(a[0][j], det_frac(m)), j % 2 ? -1 : 1);
  }
  return r;
}
static void lapack_gesv(State& s, const std::vector<Val>& args, bool dbl)
{
  LLVMContext& C = M->getContext();
  Type* FT = dbl ? Type::getDoubleTy(C) : Type::getFloatTy(C);
  Type* IT = Type::getInt32Ty(C);
  unsigned fb = dbl ? 64 : 32, fs = fb / 8;
  auto geti = [&](int k) { return (int64_t)(int32_t)cu(s, load_scalar(s, cu(s, args[k], "ptr"), IT), "lapack int"); };
  int64_t n = geti(0), nrhs = geti(1), lda = geti(3), ldb = geti(6);
  uint64_t pA = cu(s, args[2], "ptr"), pB = cu(s, args[5], "ptr"), pI = cu(s, args[7], "ptr"),
           pP = cu(s, args[4], "ptr");
  stats.stubs[dbl ? "dgesv_ contract" : "sgesv_ contract"]++;
  if (n < 0 || nrhs < 0 || lda < std::max<int64_t>(1, n) || ldb < std::max<int64_t>(1, n))
  {
    store_scalar(s, pI, VI((uint32_t)-1, 32), 4);
    return;
  }
  std::vector<std::vector<Val>> A(n, std::vector<Val>(n)), B(n, std::vector<Val>(nrhs));
  bool concA = true, special = false;
  for (int64_t j = 0; j < n; ++j)
    for (int64_t i = 0; i < n; ++i)
    {
      A[i][j] = load_scalar(s, pA + (j * lda + i) * fs, FT);
      if (A[i][j].k != KFlt)
        concA = false;
      if (A[i][j].k == KSpecial || (A[i][j].k == KFlt && !std::isfinite(A[i][j].d)))
        special = true;
      if (A[i][j].k == KUndef)
      {
        report(s, "uninitialised", "LAPACK gesv called with an uninitialised matrix", {});
        throw PathEnd{false};
      }
    }
  for (int64_t j = 0; j < nrhs; ++j)
    for (int64_t i = 0; i < n; ++i)
    {
      B[i][j] = load_scalar(s, pB + (j * ldb + i) * fs, FT);
      if (B[i][j].k == KSpecial || (B[i][j].k == KFlt && !std::isfinite(B[i][j].d)))
        special = true;
      if (B[i][j].k == KUndef)
      {
        report(s, "uninitialised", "LAPACK gesv called with an uninitialised right-hand side", {});
        throw PathEnd{false};
      }
    }
  bool singular = false;
  std::vector<std::vector<Val>> X = B;
  if (special)
  {
    for (auto& r : X)
      for (auto& v : r)
        v = VSpecial(fb);
  }
  else if (concA)
  {
    // floating point elimination decides singularity as LAPACK does
    std::vector<std::vector<double>> L(n, std::vector<double>(n));
    for (int64_t i = 0; i < n; ++i)
      for (int64_t j = 0; j < n; ++j)
        L[i][j] = A[i][j].d;
    for (int64_t k = 0; k < n && !singular; ++k)
    {
      int64_t p = k;
      for (int64_t i = k + 1; i < n; ++i)
        if (std::fabs(L[i][k]) > std::fabs(L[p][k]))
          p = i;
      if (L[p][k] == 0.)
      {
        singular = true;
        break;
      }
      std::swap(L[p], L[k]);
      for (int64_t i = k + 1; i < n; ++i)
      {
        double m = L[i][k] / L[k][k];
        for (int64_t j = k; j < n; ++j)
          L[i][j] -= m * L[k][j];
      }
    }
    if (!singular)
    {
      std::vector<std::vector<mpq_class>> Q(n, std::vector<mpq_class>(n));
      std::vector<std::vector<Frac>> F(n, std::vector<Frac>(nrhs));
      for (int64_t i = 0; i < n; ++i)
      {
        for (int64_t j = 0; j < n; ++j)
          Q[i][j] = mpq_class(A[i][j].d);
        for (int64_t j = 0; j < nrhs; ++j)
          F[i][j] = to_frac(B[i][j]);
      }
      // Inverse over Q by Gauss-Jordan, then X = inv * B.
      std::vector<std::vector<mpq_class>> V(n, std::vector<mpq_class>(n));
      for (int64_t i = 0; i < n; ++i)
        V[i][i] = 1;
      for (int64_t k = 0; k < n; ++k)
      {
        int64_t p = -1;
        for (int64_t i = k; i < n; ++i)
          if (Q[i][k] != 0)
          {
            if (p < 0 || abs(Q[i][k]) > abs(Q[p][k]))
              p = i;
          }
        if (p < 0)
        {
          singular = true;
          break;
        }
        std::swap(Q[p], Q[k]);
        std::swap(V[p], V[k]);
        mpq_class d = 1 / Q[k][k];
        for (int64_t j = 0; j < n; ++j)
        {
          Q[k][j] *= d;
          V[k][j] *= d;
        }
        for (int64_t i = 0; i < n; ++i)
          if (i != k && Q[i][k] != 0)
          {
            mpq_class m = Q[i][k];
            for (int64_t j = 0; j < n; ++j)
            {
              if (Q[k][j] != 0)
                Q[i][j] -= m * Q[k][j];
              if (V[k][j] != 0)
                V[i][j] -= m * V[k][j];
            }
          }
        // keep the numbers at 400 bits
        for (int64_t i = 0; i < n; ++i)
          for (int64_t j = 0; j < n; ++j)
          {
            ex::round_coeff(V[i][j]);
            if (j > k)
              ex::round_coeff(Q[i][j]);
          }
      }
      if (!singular)
        for (int64_t c = 0; c < nrhs; ++c)
          for (int64_t i = 0; i < n; ++i)
          {
            Frac acc{ex::poly_const(0), ex::poly_const(1)};
            for (int64_t j = 0; j < n; ++j)
              if (V[i][j] != 0 && !F[j][c].n.is_zero())
                acc = ex::fadd(acc, ex::make_frac(ex::scale(F[j][c].n, V[i][j]), F[j][c].d));
            // coefficients to 200 bits
            Poly r;
            for (auto& m : acc.n.t)
            {
              mpf_class fl(m.second, 200);
              mpq_class q(fl);
              if (q != 0)
                r.t.push_back({m.first, q});
            }
            acc.n = r;
            if (acc.n.is_const() && acc.d.is_const())
              X[i][c] = VF(acc.n.const_val().get_d(), fb);
            else
              X[i][c] = VReal(acc, fb);
          }
    }
  }
  else
  {
    if (n > 4)
      unsupported("gesv with a symbolic matrix larger than 4x4");
    std::vector<std::vector<Frac>> F(n, std::vector<Frac>(n));
    for (int64_t i = 0; i < n; ++i)
      for (int64_t j = 0; j < n; ++j)
        F[i][j] = to_frac(A[i][j]);
    Frac D = det_frac(F);
    Val z = D.n.is_const() ? VB(D.n.is_zero()) : VBool(frac_rel(D, '='));
    if (decide(s, z, "singular matrix"))
      singular = true;
    else
      for (int64_t c = 0; c < nrhs; ++c)
        for (int64_t i = 0; i < n; ++i)
        {
          auto G = F;
          for (int64_t k = 0; k < n; ++k)
            G[k][i] = to_frac(B[k][c]);
          X[i][c] = VReal(ex::fdiv(det_frac(G), D), fb);
        }
  }
  for (int64_t j = 0; j < n; ++j)
    for (int64_t i = 0; i < n; ++i)
      store_scalar(s, pA + (j * lda + i) * fs, VUndef(fb), fs);  // LU factors: unspecified here
  for (int64_t i = 0; i < n; ++i)
    store_scalar(s, pP + 4 * i, VUndef(32), 4);
  if (!singular)
    for (int64_t j = 0; j < nrhs; ++j)
      for (int64_t i = 0; i < n; ++i)
        store_scalar(s, pB + (j * ldb + i) * fs, X[i][j], fs);
  store_scalar(s, pI, VI(singular ? 1 : 0, 32), 4);
}

// ------------------------------------------------------------------------------------------------
// exceptions
// ------------------------------------------------------------------------------------------------
static uint64_t ext_typeinfo(State& s, const std::string& name)
{
  if (auto* G = M->getNamedGlobal(name))
    return addr_of(G);
  auto it = ext_ti.find(name);
  if (it != ext_ti.end())
    return it->second;
  uint64_t v = 0x7f00000000000000ULL + 16 * (ext_ti.size() + 1);
  ext_ti[name] = v;
  return v;
}
static std::string ti_name(uint64_t a)
{
  for (auto& e : ext_ti)
    if (e.second == a)
      return e.first;
  for (auto& g : gaddr)
    if (g.second == a)
      return g.first->getName().str();
  return "?";
}
static const GlobalVariable* ti_global(uint64_t a)
{
  for (auto& g : gaddr)
    if (g.second == a)
      return dyn_cast<GlobalVariable>(g.first);
  return nullptr;
}
static bool ti_match(uint64_t thrown, uint64_t want)
{
  if (thrown == want)
    return true;
  std::string tn = ti_name(thrown), wn = ti_name(want);
  if (tn == wn)
    return true;
  const GlobalVariable* G = ti_global(thrown);
  if (G && G->hasInitializer() && isa<ConstantStruct>(G->getInitializer()))
  {
    auto* CS = cast<ConstantStruct>(G->getInitializer());
    for (unsigned i = 2; i < CS->getNumOperands(); ++i)
      if (auto* B = dyn_cast<GlobalValue>(CS->getOperand(i)->stripPointerCasts()))
        if (ti_match(addr_of(B), want))
          return true;
    return false;
  }
  // library exception classes
  static const std::map<std::string, std::vector<std::string>> base = {
    {"_ZTISt12length_error", {"_ZTISt11logic_error"}},
    {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}},
    {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}},
    {"_ZTISt11logic_error", {"_ZTISt9exception"}},
    {"_ZTISt13runtime_error", {"_ZTISt9exception"}},
    {"_ZTISt9bad_alloc", {"_ZTISt9exception"}},
    {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"}},
    {"_ZTISt8bad_cast", {"_ZTISt9exception"}}};
  auto it = base.find(tn);
  if (it != base.end())
    for (auto& b : it->second)
    {
      if (b == wn)
        return true;
      if (ti_match(ext_typeinfo(init_state, b), want))
        return true;
    }
  return false;
}
static uint32_t ti_id(uint64_t a)
{
  static std::map<uint64_t, uint32_t> ids;
  auto it = ids.find(a);
  if (it != ids.end())
    return it->second;
  uint32_t n = ids.size() + 1;
  ids[a] = n;
  return n;
}
static void pop_frame(State& s)
{
  Frame& f = s.st.back();
  for (uint64_t a : f.allocas)
  {
    Object& o = wobj(s, a, "alloca");
    o.alive = false;
    o.bytes.clear();
    o.bytes.shrink_to_fit();
    o.init.clear();
    o.init.shrink_to_fit();
    o.cells.clear();
  }
  s.st.pop_back();
}
static void enter_block(State& s, unsigned nb)
{
  Frame& f = s.st.back();
  unsigned from = f.bb;
  CBlock& cb = f.f->blocks[nb];
  std::vector<std::pair<int, Val>> phis;
  for (unsigned i = 0; i < cb.first_nonphi; ++i)
  {
    auto* P = cast<PHINode>(cb.ins[i].I);
    int k = P->getBasicBlockIndex(f.f->blocks[from].bb);
    phis.push_back({cb.ins[i].dst, opv(s, cb.ins[i].ops[k])});
  }
  for (auto& p : phis)
    f.regs[p.first] = p.second;
  f.prev = from;
  f.bb = nb;
  f.ip = cb.first_nonphi;
}
// Unwind with s.exc_*: find the innermost invoke whose landing pad takes the exception.
static void unwind(State& s)
{
  for (;;)
  {
    if (s.st.empty())
    {
      throw PathEnd{false};
    }
    Frame& f = s.st.back();
    CInst& ci = f.f->blocks[f.bb].ins[f.ip];
    if (auto* II = dyn_cast<InvokeInst>(ci.I))
    {
      BasicBlock* UD = II->getUnwindDest();
      auto* LP = UD->getLandingPadInst();
      uint32_t sel = 0;
      bool take = LP->isCleanup();
      for (unsigned i = 0; i < LP->getNumClauses(); ++i)
      {
        if (LP->isCatch(i))
        {
          Constant* C = LP->getClause(i);
          if (isa<ConstantPointerNull>(C))
          {
            take = true;
            sel = ti_id(0);
            break;
          }
          uint64_t want = addr_of(cast<GlobalValue>(C->stripPointerCasts()));
          if (ti_match(s.exc_ti, want))
          {
            take = true;
            sel = ti_id(want);
            break;
          }
        }
        else
        {
          // filter (exception specification): treat as terminate-like, enter
          take = true;
          sel = (uint32_t)-1;
          break;
        }
      }
      if (take)
      {
        enter_block(s, f.f->bidx[UD]);
        Frame& g = s.st.back();
        // place the landing pad result
        CBlock& cb = g.f->blocks[g.bb];
        for (unsigned i = cb.first_nonphi; i < cb.ins.size(); ++i)
          if (isa<LandingPadInst>(cb.ins[i].I))
          {
            g.regs[cb.ins[i].dst] = VAgg({VI(s.exc_obj, 64), VI(sel, 32)});
            g.ip = i + 1;
            return;
          }
        unsupported("no landingpad");
      }
    }
    if (s.st.size() == 1)
    {
      report(s, "exception", "uncaught exception " + llvm::demangle(ti_name(s.exc_ti)), {});
      throw PathEnd{false};
    }
    pop_frame(s);
  }
}
static void do_throw(State& s, uint64_t obj, uint64_t ti)
{
  s.exc_obj = obj;
  s.exc_ti = ti;
  unwind(s);
}
static void throw_lib(State& s, const std::string& ti)
{
  uint64_t o = new_object(s, 64, "exception", true, false);
  uint64_t t = ext_typeinfo(s, ti);
  do_throw(s, o, t);
}

// ------------------------------------------------------------------------------------------------
// Builtins.  Result: 0 = not a builtin, 1 = done (ret set), 2 = control flow already transferred
// ------------------------------------------------------------------------------------------------
static Val pow_val(State& s, const Val& a, const Val& b, unsigned bits)
{
  if (a.k == KFlt && b.k == KFlt)
    return VF(bits == 32 ? powf(a.d, b.d) : std::pow(a.d, b.d), bits);
  if (a.k == KUndef || b.k == KUndef)
    return VUndef(bits);
  if (a.k == KSpecial || b.k == KSpecial)
    return VSpecial(bits);
  if (b.k == KFlt && b.d == std::floor(b.d) && std::fabs(b.d) <= 16 && a.k == KSReal)
  {
    int n = std::fabs(b.d);
    Val r = VF(1., bits);
    for (int i = 0; i < n; ++i)
      r = fbin(s, Instruction::FMul, r, a, bits);
    if (b.d < 0)
      r = fbin(s, Instruction::FDiv, VF(1., bits), r, bits);
    return r;
  }
  if (b.k == KFlt && b.d == 0.5)
    return sqrt_val(s, a);
  unsupported("pow with symbolic arguments");
}
static int builtin(State& s, Function* F, const std::vector<Val>& a, Val& ret, CallBase* CB)
{
  static std::unordered_map<const Function*, std::string> names;
  auto itn = names.find(F);
  if (itn == names.end())
    itn = names.insert({F, F->getName().str()}).first;
  const std::string& n = itn->second;
  LLVMContext& C = M->getContext();
  auto starts = [&](const char* p) { return n.rfind(p, 0) == 0; };
  unsigned rb = F->getReturnType()->isVoidTy()      ? 0
                : F->getReturnType()->isPointerTy() ? 64
                                                    : F->getReturnType()->getPrimitiveSizeInBits();
  if (starts("vf_"))
  {
    if (n == "vf_real_" || n == "vf_realf_")
    {
      std::string nm = cstr(s, a[0].u);
      uint32_t id;
      Val v = fresh_real(s, nm, n == "vf_realf_" ? 32 : 64, &id);
      if (a[1].k != KFlt || a[2].k != KFlt)
        unsupported("vf_real bounds");
      auto& vi = ex::vars()[id];
      vi.has_lo = vi.has_hi = vi.input = true;
      vi.lo = mpq_class(a[1].d);
      vi.hi = mpq_class(a[2].d);
      s.pc.push_back(zvars()[id] >= qnum(vi.lo));
      s.pc.push_back(zvars()[id] <= qnum(vi.hi));
      s.inputs.push_back({nm, 'r', zvars()[id]});
      ret = v;
      return 1;
    }
    if (n == "vf_int_")
    {
      std::string nm = cstr(s, a[0].u);
      static unsigned cnt = 0;
      uint64_t lo = cu(s, a[1], "bound"), hi = cu(s, a[2], "bound");
      zx e = Z().bv_const((nm + "!i" + std::to_string(cnt++)).c_str(), 64);
      s.pc.push_back(z3::uge(e, bvnum(lo, 64)));
      s.pc.push_back(z3::ule(e, bvnum(hi, 64)));
      s.inputs.push_back({nm, 'i', e});
      ret = VExpr(KSInt, e, 64);
      return 1;
    }
    if (n == "vf_fp_" || n == "vf_fpf_")
    {
      std::string nm = cstr(s, a[0].u);
      static unsigned cnt = 0;
      unsigned b = n == "vf_fp_" ? 64 : 32;
      zx e = Z().constant((nm + "!f" + std::to_string(cnt++)).c_str(), fp_sort(b));
      s.inputs.push_back({nm, 'f', e});
      ret = VFP(e, b);
      return 1;
    }
    if (n == "vf_assume_")
    {
      if (a[0].k == KInt)
      {
        if (!(a[0].u & 1))
          throw PathEnd{false};
        return 1;
      }
      zx e = to_bool(a[0]);
      auto r = check(s, e);
      if (r == z3::unsat)
        throw PathEnd{false};
      s.pc.push_back(e);
      return 1;
    }
    if (n == "vf_assert_")
    {
      do_assert(s, a[0], cstr(s, cu(s, a[1], "msg")));
      return 1;
    }
    if (n == "vf_near_")
    {
      if (a[2].k != KFlt)
        unsupported("symbolic tolerance");
      do_near(s, a[0], a[1], a[2].d, cstr(s, cu(s, a[3], "msg")));
      return 1;
    }
    if (n == "vf_expect_abort_")
    {
      s.expect_abort = cu(s, a[0], "flag");
      return 1;
    }
    if (n == "vf_concretize_")
    {
      ret = VI(cu(s, a[0], "vf_concretize"), 64);
      return 1;
    }
    if (n == "vf_is_symbolic_")
    {
      ret = VI(1, 32);
      return 1;
    }
    if (n == "vf_debug_")
    {
      std::cerr << "debug " << cstr(s, a[0].u) << " kind " << (int)a[1].k;
      if (a[1].k == KFlt)
        std::cerr << " " << a[1].d;
      if (a[1].k == KSReal)
        std::cerr << " (" << poly_z3(a[1].p->r->n) << ") / (" << poly_z3(a[1].p->r->d) << ")";
      std::cerr << "\n";
      return 1;
    }
  }
  if (F->isIntrinsic())
  {
    switch (F->getIntrinsicID())
    {
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::donothing:
      case Intrinsic::invariant_end:
      case Intrinsic::stackrestore:
      case Intrinsic::prefetch:
      case Intrinsic::sideeffect:
      case Intrinsic::var_annotation:
        return 1;
      case Intrinsic::stacksave:
      case Intrinsic::invariant_start:
        ret = VI(0, 64);
        return 1;
      case Intrinsic::expect:
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
      case Intrinsic::expect_with_probability:
      case Intrinsic::threadlocal_address:
      case Intrinsic::arithmetic_fence:
      case Intrinsic::ssa_copy:
        ret = a[0];
        return 1;
      case Intrinsic::is_constant:
        ret = VB(false);
        return 1;
      case Intrinsic::objectsize:
        ret = VI(cast<ConstantInt>(CB->getArgOperand(1))->isZero() ? ~0ULL : 0, rb);
        return 1;
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline:
      {
        uint64_t len = cu(s, a[2], "memcpy length");
        if (len)
          mem_copy(s, cu(s, a[0], "memcpy destination"), cu(s, a[1], "memcpy source"), len);
        return 1;
      }
      case Intrinsic::memset:
      {
        uint64_t len = cu(s, a[2], "memset length");
        if (!len)
          return 1;
        uint64_t d = cu(s, a[0], "memset destination");
        Object& o = wobj(s, d, "memset");
        bounds(s, o, d, len, "write");
        uint64_t off = d & 0xffffffffULL;
        o.clear_range(off, len);
        uint8_t b = cu(s, a[1], "memset value");
        std::fill_n(o.bytes.begin() + off, len, b);
        std::fill_n(o.init.begin() + off, len, 1);
        return 1;
      }
      case Intrinsic::fabs:
        ret = fabs_val(s, a[0]);
        return 1;
      case Intrinsic::sqrt:
        ret = sqrt_val(s, a[0]);
        return 1;
      case Intrinsic::fmuladd:
      case Intrinsic::fma:
        ret = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[1], rb), a[2], rb);
        return 1;
      case Intrinsic::pow:
        ret = pow_val(s, a[0], a[1], rb);
        return 1;
      case Intrinsic::powi:
        ret = pow_val(s, a[0], VF((double)(int32_t)cu(s, a[1], "powi exponent"), rb), rb);
        return 1;
      case Intrinsic::sin:
      case Intrinsic::cos:
      case Intrinsic::exp:
      case Intrinsic::log:
        if (a[0].k == KFlt)
        {
          double x = a[0].d;
          auto id = F->getIntrinsicID();
          ret = VF(id == Intrinsic::sin   ? std::sin(x)
                   : id == Intrinsic::cos ? std::cos(x)
                   : id == Intrinsic::exp ? std::exp(x)
                                          : std::log(x),
                   rb);
        }
        else
          ret = uf_val(s, n.substr(5, 3), a[0]);
        return 1;
      case Intrinsic::floor:
      case Intrinsic::ceil:
      case Intrinsic::round:
      case Intrinsic::trunc:
      case Intrinsic::rint:
      case Intrinsic::nearbyint:
      case Intrinsic::roundeven:
        if (a[0].k != KFlt)
          unsupported("rounding of a symbolic real");
        {
          double x = a[0].d;
          auto id = F->getIntrinsicID();
          ret = VF(id == Intrinsic::floor   ? std::floor(x)
                   : id == Intrinsic::ceil  ? std::ceil(x)
                   : id == Intrinsic::round ? std::round(x)
                   : id == Intrinsic::trunc ? std::trunc(x)
                                            : std::rint(x),
                   rb);
        }
        return 1;
      case Intrinsic::copysign:
      {
        if (a[0].k == KFlt && a[1].k == KFlt)
        {
          ret = VF(std::copysign(a[0].d, a[1].d), rb);
          return 1;
        }
        Val neg = fcmp(CmpInst::FCMP_OLT, a[1], VF(0., rb));
        Val m = fabs_val(s, a[0]);
        ret = decide(s, neg, "copysign") ? fneg_val(m) : m;
        return 1;
      }
      case Intrinsic::maxnum:
      case Intrinsic::minnum:
      {
        bool mx = F->getIntrinsicID() == Intrinsic::maxnum;
        Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1]);
        ret = select_val(s, c, mx ? a[1] : a[0], mx ? a[0] : a[1]);
        return 1;
      }
      case Intrinsic::umax:
      case Intrinsic::umin:
      case Intrinsic::smax:
      case Intrinsic::smin:
      {
        auto id = F->getIntrinsicID();
        Val c = icmp(id == Intrinsic::umax   ? CmpInst::ICMP_UGT
                     : id == Intrinsic::umin ? CmpInst::ICMP_ULT
                     : id == Intrinsic::smax ? CmpInst::ICMP_SGT
                                             : CmpInst::ICMP_SLT,
                     a[0], a[1]);
        ret = select_val(s, c, a[0], a[1]);
        return 1;
      }
      case Intrinsic::abs:
      {
        Val c = icmp(CmpInst::ICMP_SLT, a[0], VI(0, rb));
        ret = select_val(s, c, ibin(s, Instruction::Sub, VI(0, rb), a[0], rb, nullptr), a[0]);
        return 1;
      }
      case Intrinsic::usub_sat:
      {
        Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1]);
        ret = select_val(s, c, VI(0, rb), ibin(s, Instruction::Sub, a[0], a[1], rb, nullptr));
        return 1;
      }
      case Intrinsic::lround:
      case Intrinsic::llround:
      case Intrinsic::lrint:
      case Intrinsic::llrint:
        if (a[0].k != KFlt)
          unsupported("rounding of a symbolic real");
        ret = VI((uint64_t)(F->getIntrinsicID() == Intrinsic::lround || F->getIntrinsicID() == Intrinsic::llround
                              ? std::llround(a[0].d)
                              : std::llrint(a[0].d)),
                 rb);
        return 1;
      case Intrinsic::exp2:
      case Intrinsic::log2:
      case Intrinsic::log10:
        if (a[0].k == KFlt)
        {
          auto id = F->getIntrinsicID();
          ret = VF(id == Intrinsic::exp2 ? std::exp2(a[0].d) : id == Intrinsic::log2 ? std::log2(a[0].d) : std::log10(a[0].d), rb);
        }
        else
          ret = uf_val(s, n.substr(5, n.find('.', 5) - 5), a[0]);
        return 1;
      case Intrinsic::uadd_sat:
      {
        Val r = ibin(s, Instruction::Add, a[0], a[1], rb, nullptr);
        ret = select_val(s, icmp(CmpInst::ICMP_ULT, r, a[0]), VI(~0ULL, rb), r);
        return 1;
      }
      case Intrinsic::is_fpclass:
      {
        const uint64_t mask = cu(s, a[1], "class");
        uint64_t c;
        if (a[0].k == KFlt)
        {
          const double d = a[0].d;
          const bool m = std::signbit(d);
          c = std::isnan(d) ? 2 : std::isinf(d) ? (m ? 4 : 0x200) : d == 0. ? (m ? 0x20 : 0x40) : std::fpclassify(d) == FP_SUBNORMAL ? (m ? 0x10 : 0x80) : (m ? 8 : 0x100);
          ret = VB((c & mask) != 0);
          return 1;
        }
        if (a[0].k == KSReal)
        {
          // a real number: never a NaN or an infinity; zero, subnormal and normal numbers may be told apart only by sign
          const uint64_t neg = 0x18, zero = 0x60, pos = 0x180, all = neg | zero | pos;
          if ((mask & all) == 0 || (mask & all) == all)
          {
            ret = VB((mask & all) != 0);
            return 1;
          }
          Val lt = fcmp(CmpInst::FCMP_OLT, a[0], VF(0., a[0].bits)), gt = fcmp(CmpInst::FCMP_OGT, a[0], VF(0., a[0].bits));
          auto whole = [&](uint64_t part) { return (mask & part) == part || (mask & part) == 0 || part == zero; };
          if (whole(neg) && whole(pos))
          {
            const bool z = (mask & 0x40) != 0, l = (mask & 8) != 0, g = (mask & 0x100) != 0;
            ret = decide(s, lt, "sign") ? VB(l) : decide(s, gt, "sign") ? VB(g) : VB(z);
            return 1;
          }
        }
        unsupported("class of a floating point number");
      }
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::ssub_with_overflow:
      case Intrinsic::smul_with_overflow:
      {
        auto id = F->getIntrinsicID();
        unsigned w = a[0].bits;
        const auto op = id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
        Val r = ibin(s, op, a[0], a[1], w, nullptr), o;
        if (a[0].k == KInt && a[1].k == KInt)
        {
          const __int128 x = sx(a[0].u, w), y = sx(a[1].u, w), t = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
          o = VB(t != (__int128)sx((uint64_t)t, w));
        }
        else
        {
          zx x = to_bv(a[0]), y = to_bv(a[1]);
          if (op == Instruction::Mul)
            o = VBool(!(zx(Z(), Z3_mk_bvmul_no_overflow(Z(), x, y, true)) && zx(Z(), Z3_mk_bvmul_no_underflow(Z(), x, y))));
          else if (op == Instruction::Add)
            o = VBool(!(zx(Z(), Z3_mk_bvadd_no_overflow(Z(), x, y, true)) && zx(Z(), Z3_mk_bvadd_no_underflow(Z(), x, y))));
          else
            o = VBool(!(zx(Z(), Z3_mk_bvsub_no_overflow(Z(), x, y)) && zx(Z(), Z3_mk_bvsub_no_underflow(Z(), x, y, true))));
        }
        ret = VAgg({r, o});
        return 1;
      }
      case Intrinsic::bswap:
        ret = VI(__builtin_bswap64(cu(s, a[0], "bswap")) >> (64 - rb), rb);
        return 1;
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::umul_with_overflow:
      {
        auto id = F->getIntrinsicID();
        unsigned w = a[0].bits;
        Val r, o;
        if (id == Intrinsic::uadd_with_overflow)
        {
          r = ibin(s, Instruction::Add, a[0], a[1], w, nullptr);
          o = icmp(CmpInst::ICMP_ULT, r, a[0]);
        }
        else if (id == Intrinsic::usub_with_overflow)
        {
          r = ibin(s, Instruction::Sub, a[0], a[1], w, nullptr);
          o = icmp(CmpInst::ICMP_ULT, a[0], a[1]);
        }
        else
        {
          r = ibin(s, Instruction::Mul, a[0], a[1], w, nullptr);
          if (a[0].k == KInt && a[1].k == KInt)
            o = VB(w == 64 ? ((__uint128_t)a[0].u * a[1].u) >> 64 : (a[0].u * a[1].u) >> w);
          else
            o = VBool(!zx(Z(), Z3_mk_bvmul_no_overflow(Z(), to_bv(a[0]), to_bv(a[1]), false)));
        }
        ret = VAgg({r, o});
        return 1;
      }
      case Intrinsic::ctpop:
        ret = VI(__builtin_popcountll(cu(s, a[0], "ctpop")), rb);
        return 1;
      case Intrinsic::ctlz:
      {
        uint64_t u = cu(s, a[0], "ctlz");
        ret = VI(u ? __builtin_clzll(u) - (64 - rb) : rb, rb);
        return 1;
      }
      case Intrinsic::cttz:
      {
        uint64_t u = cu(s, a[0], "cttz");
        ret = VI(u ? __builtin_ctzll(u) : rb, rb);
        return 1;
      }
      case Intrinsic::fshl:
      case Intrinsic::fshr:
      {
        uint64_t x = cu(s, a[0], "fsh"), y = cu(s, a[1], "fsh"), k = cu(s, a[2], "fsh") % rb;
        if (F->getIntrinsicID() == Intrinsic::fshl)
          ret = VI(k ? (x << k) | (y >> (rb - k)) : x, rb);
        else
          ret = VI(k ? (x << (rb - k)) | (y >> k) : y, rb);
        return 1;
      }
      case Intrinsic::eh_typeid_for:
        ret = VI(ti_id(cu(s, a[0], "typeid")), 32);
        return 1;
      case Intrinsic::trap:
        report(s, "abort", "trap reached", {});
        throw PathEnd{false};
      default:
        unsupported("intrinsic " + n);
    }
  }
  if (!F->isDeclaration() && n.rfind("_ZSt9terminatev", 0) != 0)
    return 0;
  // ---- C and C++ runtime --------------------------------------------------------------------
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" ||
      n == "_ZnwmRKSt9nothrow_t")
  {
    uint64_t sz = cu(s, a[0], "allocation size");
    ret = VI(new_object(s, sz, "heap", true, false), 64);
    return 1;
  }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" ||
      n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t")
  {
    uint64_t p = cu(s, a[0], "pointer to free");
    if (!p)
      return 1;
    Object& o = wobj(s, p, "free");
    if (!o.alive || !o.heap || (p & 0xffffffffULL))
    {
      report(s, "memory", "invalid or double free", {});
      throw PathEnd{false};
    }
    o.alive = false;
    o.bytes.clear();
    o.bytes.shrink_to_fit();
    o.init.clear();
    o.init.shrink_to_fit();
    o.cells.clear();
    return 1;
  }
  if (n == "memcpy" || n == "memmove")
  {
    uint64_t len = cu(s, a[2], "memcpy length");
    if (len)
      mem_copy(s, cu(s, a[0], "p"), cu(s, a[1], "p"), len);
    ret = a[0];
    return 1;
  }
  if (n == "strlen")
  {
    ret = VI(cstr(s, cu(s, a[0], "p")).size(), 64);
    return 1;
  }
  if (n == "memcmp" || n == "bcmp")
  {
    uint64_t p = cu(s, a[0], "p"), q = cu(s, a[1], "p"), len = cu(s, a[2], "len");
    int r = 0;
    for (uint64_t i = 0; i < len && !r; ++i)
    {
      Val x = load_scalar(s, p + i, Type::getInt8Ty(C)), y = load_scalar(s, q + i, Type::getInt8Ty(C));
      uint64_t ux = cu(s, x, "memcmp byte"), uy = cu(s, y, "memcmp byte");
      r = ux < uy ? -1 : ux > uy ? 1 : 0;
    }
    ret = VI((uint32_t)r, 32);
    return 1;
  }
  if (n == "memchr")
  {
    uint64_t p = cu(s, a[0], "p"), c = cu(s, a[1], "c") & 0xff, len = cu(s, a[2], "len");
    for (uint64_t i = 0; i < len; ++i)
      if (cu(s, load_scalar(s, p + i, Type::getInt8Ty(C)), "memchr byte") == c)
      {
        ret = VI(p + i, 64);
        return 1;
      }
    ret = VI(0, 64);
    return 1;
  }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "__clang_call_terminate" ||
      n == "__cxa_pure_virtual" || n == "__cxa_call_unexpected" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_")
  {
    if (s.expect_abort && n == "abort")
    {
      stats.assert_hits["abort reached as demanded"]++;
      s.aborted = true;
      throw PathEnd{true};
    }
    std::string m = n;
    if (n == "__assert_fail")
      m += ": " + cstr(s, a[0].u);
    report(s, "abort", m + " reached", {});
    throw PathEnd{false};
  }
  if (n == "exit" || n == "_exit")
  {
    report(s, "abort", "exit reached", {});
    throw PathEnd{false};
  }
  if (n == "__cxa_allocate_exception")
  {
    ret = VI(new_object(s, cu(s, a[0], "size"), "exception", true, false), 64);
    return 1;
  }
  if (n == "__cxa_free_exception")
    return 1;
  if (n == "__cxa_throw")
  {
    do_throw(s, cu(s, a[0], "exception"), cu(s, a[1], "typeinfo"));
    return 2;
  }
  if (n == "__cxa_begin_catch")
  {
    s.caught.push_back({s.exc_obj, s.exc_ti});
    ret = a[0];
    return 1;
  }
  if (n == "__cxa_end_catch")
  {
    if (!s.caught.empty())
      s.caught.pop_back();
    return 1;
  }
  if (n == "__cxa_rethrow")
  {
    auto c = s.caught.back();
    do_throw(s, c.first, c.second);
    return 2;
  }
  if (n == "__cxa_get_exception_ptr")
  {
    ret = a[0];
    return 1;
  }
  if (n == "__cxa_atexit")
  {
    ret = VI(0, 32);
    return 1;
  }
  if (n == "__cxa_guard_acquire")
  {
    uint64_t g = cu(s, a[0], "guard");
    Val v = load_scalar(s, g, Type::getInt8Ty(C));
    ret = VI(v.k == KInt && v.u ? 0 : 1, 32);
    return 1;
  }
  if (n == "__cxa_guard_release")
  {
    store_scalar(s, cu(s, a[0], "guard"), VI(1, 8), 1);
    return 1;
  }
  if (n == "__cxa_guard_abort")
    return 1;
  if (starts("_ZSt20__throw_length_error") || starts("_ZSt20__throw_out_of_range") ||
      starts("_ZSt24__throw_out_of_range_fmt") || starts("_ZSt19__throw_logic_error") ||
      starts("_ZSt17__throw_bad_allocv") || starts("_ZSt28__throw_bad_array_new_lengthv") ||
      starts("_ZSt24__throw_invalid_argument") || starts("_ZSt16__throw_bad_castv"))
  {
    std::string ti = n.find("length_error") != std::string::npos   ? "_ZTISt12length_error"
                     : n.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range"
                     : n.find("logic_error") != std::string::npos  ? "_ZTISt11logic_error"
                     : n.find("invalid_arg") != std::string::npos  ? "_ZTISt16invalid_argument"
                     : n.find("bad_cast") != std::string::npos     ? "_ZTISt8bad_cast"
                                                                   : "_ZTISt9bad_alloc";
    throw_lib(s, ti);
    return 2;
  }
  if (starts("_ZNSt9exceptionD") || starts("_ZNSt9exceptionC") || starts("_ZNSt13runtime_errorC") ||
      starts("_ZNSt13runtime_errorD") || starts("_ZNSt11logic_errorC") ||
      starts("_ZNSt11logic_errorD") || starts("_ZNSt16invalid_argument") ||
      starts("_ZNSt12out_of_range") || starts("_ZNSt8ios_base4Init"))
    return 1;
  if (n == "_ZNKSt9exception4whatEv" || n == "_ZNKSt13runtime_error4whatEv" ||
      n == "_ZNKSt11logic_error4whatEv")
  {
    ret = VI(0, 64);
    return 1;
  }
  // ---- libm -----------------------------------------------------------------------------------
  if (n == "sqrt" || n == "sqrtf")
  {
    ret = sqrt_val(s, a[0]);
    return 1;
  }
  if (n == "fabs" || n == "fabsf")
  {
    ret = fabs_val(s, a[0]);
    return 1;
  }
  if (n == "pow" || n == "powf")
  {
    ret = pow_val(s, a[0], a[1], rb);
    return 1;
  }
  if (n == "hypot" && a[0].k == KFlt && a[1].k == KFlt)
  {
    ret = VF(std::hypot(a[0].d, a[1].d), rb);
    return 1;
  }
  if (n == "hypot")
  {
    ret = sqrt_val(s, fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[0], rb),
                           fbin(s, Instruction::FMul, a[1], a[1], rb), rb));
    return 1;
  }
  if (n == "sin" || n == "cos" || n == "exp" || n == "log" || n == "tan" || n == "sinf" ||
      n == "cosf" || n == "expf" || n == "sinh" || n == "cosh" || n == "tanh" || n == "atan")
  {
    if (a[0].k == KFlt)
    {
      double x = a[0].d;
      std::string b = n.back() == 'f' ? n.substr(0, n.size() - 1) : n;
      ret = VF(b == "sin"    ? std::sin(x)
               : b == "cos"  ? std::cos(x)
               : b == "exp"  ? std::exp(x)
               : b == "log"  ? std::log(x)
               : b == "tan"  ? std::tan(x)
               : b == "sinh" ? std::sinh(x)
               : b == "cosh" ? std::cosh(x)
               : b == "tanh" ? std::tanh(x)
                             : std::atan(x),
               rb);
    }
    else
      ret = uf_val(s, n, a[0]);
    return 1;
  }
  if (n == "fmax" || n == "fmin" || n == "fmaxf" || n == "fminf")
  {
    bool mx = n[2] == 'a';
    Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1]);
    ret = select_val(s, c, mx ? a[1] : a[0], mx ? a[0] : a[1]);
    return 1;
  }
  {
    static const std::map<std::string, double (*)(double)> one = {
      {"floor", std::floor}, {"ceil", std::ceil}, {"round", std::round}, {"trunc", std::trunc}, {"rint", std::rint},
      {"nearbyint", std::nearbyint}, {"log2", std::log2}, {"log10", std::log10}, {"log1p", std::log1p}, {"expm1", std::expm1},
      {"exp2", std::exp2}, {"cbrt", std::cbrt}, {"asin", std::asin}, {"acos", std::acos}, {"asinh", std::asinh},
      {"acosh", std::acosh}, {"atanh", std::atanh}, {"tgamma", std::tgamma}, {"lgamma", std::lgamma}, {"erf", std::erf}, {"logb", std::logb}};
    static const std::map<std::string, double (*)(double, double)> two = {
      {"fmod", std::fmod}, {"atan2", std::atan2}, {"fdim", std::fdim}, {"remainder", std::remainder}, {"nextafter", std::nextafter}};
    const std::string b = n.size() > 1 && (n.back() == 'f' || n.back() == 'l') && (one.count(n.substr(0, n.size() - 1)) || two.count(n.substr(0, n.size() - 1)))
                            ? n.substr(0, n.size() - 1)
                            : n;
    if (one.count(b) && a.size() == 1)
    {
      if (a[0].k == KFlt)
        ret = VF(one.at(b)(a[0].d), rb);
      else if (b == "floor" || b == "ceil" || b == "round" || b == "trunc" || b == "rint" || b == "nearbyint" || b == "logb")
        unsupported("rounding of a symbolic real");
      else
        ret = uf_val(s, b, a[0]);
      return 1;
    }
    if (two.count(b) && a.size() == 2 && a[0].k == KFlt && a[1].k == KFlt)
    {
      ret = VF(two.at(b)(a[0].d, a[1].d), rb);
      return 1;
    }
    if ((n == "lround" || n == "llround" || n == "lrint" || n == "llrint") && a[0].k == KFlt)
    {
      ret = VI((uint64_t)(n.find("rint") == std::string::npos ? std::llround(a[0].d) : std::llrint(a[0].d)), rb);
      return 1;
    }
    if ((n == "ldexp" || n == "scalbn" || n == "scalbln") && a.size() == 2)
    {
      ret = fbin(s, Instruction::FMul, a[0], VF(std::ldexp(1., (int)sx(cu(s, a[1], "exponent"), a[1].bits)), rb), rb);
      return 1;
    }
  }
  if (starts("pthread_mutex_") || n == "sched_yield" || n == "usleep" || n == "nanosleep")
  {
    ret = VI(0, 32);
    return 1;
  }
  if (n == "snprintf" || n == "sprintf")
  {
    size_t k = n == "snprintf" ? 2 : 1;
    const uint64_t dst = cu(s, a[0], "buffer"), cap = k == 2 ? cu(s, a[1], "buffer size") : ~0ULL;
    const std::string f = cstr(s, cu(s, a[k], "format"));
    std::string out;
    for (size_t i = 0; i < f.size(); ++i)
    {
      if (f[i] != '%')
      {
        out.push_back(f[i]);
        continue;
      }
      std::string sp = "%";
      for (++i; i < f.size() && std::string("-+ #0123456789.*").find(f[i]) != std::string::npos; ++i)
        if (f[i] == '*')
          sp += std::to_string((int32_t)cu(s, a.at(++k), "format argument"));
        else
          sp.push_back(f[i]);
      while (i < f.size() && std::string("hlzjt").find(f[i]) != std::string::npos)
        ++i;
      const char c = i < f.size() ? f[i] : 0;
      char b[512];
      if (c == '%')
        out.push_back('%');
      else if (c == 's')
      {
        const std::string t = cstr(s, cu(s, a.at(++k), "format argument"));
        std::snprintf(b, sizeof b, (sp + "s").c_str(), t.c_str());
        out += b;
      }
      else if (c == 'c')
        out.push_back((char)cu(s, a.at(++k), "format argument"));
      else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o')
      {
        const Val& v = a.at(++k);
        const uint64_t u = cu(s, v, "format argument");
        const bool sg = c == 'd' || c == 'i';
        std::snprintf(b, sizeof b, (sp + "ll" + c).c_str(), sg ? (long long)sx(u, v.bits) : (long long)u);
        out += b;
      }
      else if (a.size() > k + 1 && a[k + 1].k == KFlt && c && std::string("fFeEgG").find(c) != std::string::npos)
      {
        std::snprintf(b, sizeof b, (sp + c).c_str(), a[++k].d);
        out += b;
      }
      else
        unsupported("format of snprintf");
    }
    for (size_t i = 0; cap && i <= std::min<size_t>(out.size(), cap - 1); ++i)
      store_scalar(s, dst + i, VI(i < std::min<size_t>(out.size(), cap - 1) ? (uint8_t)out[i] : 0, 8), 1);
    ret = VI(out.size(), 32);
    return 1;
  }
  if (n == "dgesv_" || n == "sgesv_")
  {
    lapack_gesv(s, a, n[0] == 'd');
    return 1;
  }
  if (n == "puts" || n == "printf" || n == "fputs" || n == "putchar" || n == "fflush" || n == "fwrite" ||
      n == "fprintf" || n == "fputc" || n == "perror")
  {
    ret = VI(0, rb ? rb : 32);
    return 1;
  }
  if (n == "atexit")
  {
    ret = VI(0, 32);
    return 1;
  }
  unsupported("call of external function " + n);
}

// ------------------------------------------------------------------------------------------------
// Interpreter
// ------------------------------------------------------------------------------------------------
static Val elementwise(const std::function<Val(const Val&, const Val&)>& f, const Val& a, const Val& b)
{
  if (a.k == KAgg || b.k == KAgg)
  {
    std::vector<Val> r;
    size_t n = a.k == KAgg ? agg(a).size() : agg(b).size();
    for (size_t i = 0; i < n; ++i)
      r.push_back(elementwise(f, a.k == KAgg ? agg(a)[i] : Val(), b.k == KAgg ? agg(b)[i] : Val()));
    return VAgg(r);
  }
  return f(a, b);
}
static void finish_call(State& s, CInst& ci, const Val& ret)
{
  // advance the current frame past a call-like instruction
  Frame& f = s.st.back();
  if (ci.dst >= 0)
    f.regs[ci.dst] = ret;
  if (auto* II = dyn_cast<InvokeInst>(ci.I))
    enter_block(s, f.f->bidx[II->getNormalDest()]);
  else
    f.ip++;
}
static void step(State& s)
{
  Frame& f = s.st.back();
  CBlock& cb = f.f->blocks[f.bb];
  CInst& ci = cb.ins[f.ip];
  Instruction* I = ci.I;
  stats.instr++;
  s.instr++;
  unsigned opc = I->getOpcode();
  auto setr = [&](const Val& v) {
    Frame& g = s.st.back();
    g.regs[ci.dst] = v;
    g.ip++;
  };
  switch (opc)
  {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv:
    case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And:
    case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
    case Instruction::AShr:
    {
      unsigned bits = I->getType()->getScalarSizeInBits();
      setr(elementwise([&](const Val& x, const Val& y) { return ibin(s, opc, x, y, bits, I); },
                       opv(s, ci.ops[0]), opv(s, ci.ops[1])));
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
    case Instruction::FRem:
    {
      unsigned bits = I->getType()->getScalarSizeInBits();
      setr(elementwise([&](const Val& x, const Val& y) { return fbin(s, opc, x, y, bits); },
                       opv(s, ci.ops[0]), opv(s, ci.ops[1])));
      return;
    }
    case Instruction::FNeg:
      setr(fneg_val(opv(s, ci.ops[0])));
      return;
    case Instruction::ICmp:
      setr(elementwise([&](const Val& x, const Val& y) { return icmp(cast<CmpInst>(I)->getPredicate(), x, y); },
                       opv(s, ci.ops[0]), opv(s, ci.ops[1])));
      return;
    case Instruction::FCmp:
      setr(elementwise([&](const Val& x, const Val& y) { return fcmp(cast<CmpInst>(I)->getPredicate(), x, y); },
                       opv(s, ci.ops[0]), opv(s, ci.ops[1])));
      return;
    case Instruction::Select:
      setr(select_val(s, opv(s, ci.ops[0]), opv(s, ci.ops[1]), opv(s, ci.ops[2])));
      return;
    case Instruction::Freeze:
      setr(opv(s, ci.ops[0]));
      return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::UIToFP:
    case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
      setr(cast_val(s, opc, opv(s, ci.ops[0]), I->getOperand(0)->getType(), I->getType()));
      return;
    case Instruction::Alloca:
    {
      auto* A = cast<AllocaInst>(I);
      uint64_t n = cu(s, opv(s, ci.ops[0]), "alloca size");
      uint64_t addr = new_object(s, n * DL->getTypeAllocSize(A->getAllocatedType()),
                                 "stack:" + A->getName().str(), false, true);
      f.allocas.push_back(addr);
      setr(VI(addr, 64));
      return;
    }
    case Instruction::Load:
    {
      uint64_t p = cu(s, opv(s, ci.ops[0]), "load address");
      setr(load_val(s, p, I->getType()));
      return;
    }
    case Instruction::Store:
    {
      uint64_t p = cu(s, opv(s, ci.ops[1]), "store address");
      store_val(s, p, opv(s, ci.ops[0]), I->getOperand(0)->getType());
      s.st.back().ip++;
      return;
    }
    case Instruction::Fence:
      s.st.back().ip++;
      return;
    case Instruction::AtomicRMW:  // one thread only
    {
      auto* A = cast<AtomicRMWInst>(I);
      uint64_t p = cu(s, opv(s, ci.ops[0]), "atomic address");
      Val old = load_val(s, p, I->getType()), v = opv(s, ci.ops[1]);
      const unsigned bits = I->getType()->getScalarSizeInBits();
      switch (A->getOperation())
      {
        case AtomicRMWInst::Add: v = ibin(s, Instruction::Add, old, v, bits, nullptr); break;
        case AtomicRMWInst::Sub: v = ibin(s, Instruction::Sub, old, v, bits, nullptr); break;
        case AtomicRMWInst::Xchg: break;
        default: unsupported("atomicrmw operation");
      }
      store_val(s, p, v, I->getType());
      setr(old);
      return;
    }
    case Instruction::GetElementPtr:
    {
      Val base = opv(s, ci.ops[0]);
      auto* G = cast<GEPOperator>(I);
      unsigned k = 1;
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it, ++k)
      {
        Val idx = opv(s, ci.ops[k]);
        if (StructType* ST = it.getStructTypeOrNull())
        {
          base = ibin(s, Instruction::Add, base,
                      VI(DL->getStructLayout(ST)->getElementOffset(idx.u), 64), 64, nullptr);
        }
        else
        {
          uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
          if (idx.k == KInt)
          {
            base = ibin(s, Instruction::Add, base, VI(sx(idx.u, idx.bits) * (int64_t)sz, 64), 64, nullptr);
          }
          else
          {
            if (idx.k != KUndef && idx.bits < 64)
              idx = VBV(z3::sext(to_bv(idx), 64 - idx.bits), 64);
            Val off = ibin(s, Instruction::Mul, idx, VI(sz, 64), 64, nullptr);
            base = ibin(s, Instruction::Add, base, off, 64, nullptr);
          }
        }
      }
      setr(base);
      return;
    }
    case Instruction::ExtractValue:
    {
      Val v = opv(s, ci.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(I)->indices())
        v = v.k == KUndef ? Val() : agg(v)[i];
      setr(v);
      return;
    }
    case Instruction::InsertValue:
    {
      auto idx = cast<InsertValueInst>(I)->getIndices();
      std::function<Val(Val, unsigned, Type*)> ins = [&](Val v, unsigned d, Type* T) -> Val {
        if (d == idx.size())
          return opv(s, ci.ops[1]);
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
        std::vector<Val> a = v.k == KAgg ? agg(v) : std::vector<Val>(n);
        Type* E = T->isStructTy() ? T->getStructElementType(idx[d]) : T->getArrayElementType();
        a[idx[d]] = ins(a[idx[d]], d + 1, E);
        return VAgg(a);
      };
      setr(ins(opv(s, ci.ops[0]), 0, I->getType()));
      return;
    }
    case Instruction::ExtractElement:
    {
      Val v = opv(s, ci.ops[0]);
      uint64_t i = cu(s, opv(s, ci.ops[1]), "vector index");
      setr(agg(v)[i]);
      return;
    }
    case Instruction::InsertElement:
    {
      std::vector<Val> v = agg(opv(s, ci.ops[0]));
      v[cu(s, opv(s, ci.ops[2]), "vector index")] = opv(s, ci.ops[1]);
      setr(VAgg(v));
      return;
    }
    case Instruction::ShuffleVector:
    {
      auto& x = agg(opv(s, ci.ops[0]));
      auto& y = agg(opv(s, ci.ops[1]));
      std::vector<Val> r;
      for (int m : cast<ShuffleVectorInst>(I)->getShuffleMask())
        r.push_back(m < 0 ? Val() : (size_t)m < x.size() ? x[m] : y[m - x.size()]);
      setr(VAgg(r));
      return;
    }
    case Instruction::Br:
    {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional())
      {
        enter_block(s, f.f->bidx[B->getSuccessor(0)]);
        return;
      }
      bool c = decide(s, opv(s, ci.ops[0]), "branch");
      Frame& g = s.st.back();
      enter_block(s, g.f->bidx[B->getSuccessor(c ? 0 : 1)]);
      return;
    }
    case Instruction::Switch:
    {
      auto* S = cast<SwitchInst>(I);
      uint64_t v = cu(s, opv(s, ci.ops[0]), "switch");
      BasicBlock* D = S->getDefaultDest();
      for (auto& c : S->cases())
        if (c.getCaseValue()->getZExtValue() == v)
          D = c.getCaseSuccessor();
      Frame& g = s.st.back();
      enter_block(s, g.f->bidx[D]);
      return;
    }
    case Instruction::Ret:
    {
      Val v;
      if (I->getNumOperands())
        v = opv(s, ci.ops[0]);
      pop_frame(s);
      if (s.st.empty())
        throw PathEnd{true};
      Frame& g = s.st.back();
      CInst& c2 = g.f->blocks[g.bb].ins[g.ip];
      finish_call(s, c2, v);
      return;
    }
    case Instruction::Unreachable:
      report(s, "abort", "unreachable code reached (undefined behaviour)", {});
      throw PathEnd{false};
    case Instruction::Resume:
    {
      // s.exc_* still describe the exception in flight, unless another one was caught in between
      Val v = opv(s, ci.ops[0]);
      s.exc_obj = agg(v)[0].u;
      if (s.st.size() == 1)
      {
        report(s, "exception", "uncaught exception " + llvm::demangle(ti_name(s.exc_ti)), {});
        throw PathEnd{false};
      }
      pop_frame(s);
      unwind(s);
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
    {
      auto* CB = cast<CallBase>(I);
      if (CB->isInlineAsm())
      {
        finish_call(s, ci, Val());
        return;
      }
      Function* F = CB->getCalledFunction();
      if (!F)
      {
        Value* cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto* GA = dyn_cast<GlobalAlias>(cv))
          cv = GA->getAliaseeObject();
        F = dyn_cast<Function>(cv);
      }
      if (!F)
      {
        uint64_t p = cu(s, opv(s, ci.ops.back()), "call target");
        auto it = faddr.find(p);
        if (it == faddr.end())
        {
          report(s, "memory", "call through an invalid function pointer", {});
          throw PathEnd{false};
        }
        F = it->second;
      }
      if (F->isIntrinsic())
      {
        auto id = F->getIntrinsicID();
        if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label ||
            id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume)
        {
          f.ip++;
          return;
        }
      }
      std::vector<Val> args;
      for (unsigned i = 0; i < CB->arg_size(); ++i)
        args.push_back(opv(s, ci.ops[i]));
      Val ret;
      int r = builtin(s, F, args, ret, CB);
      if (r == 1)
      {
        finish_call(s, ci, ret);
        return;
      }
      if (r == 2)
        return;
      if (s.st.size() > 400)
        unsupported("call depth");
      CFunc* cf = compile(F);
      Frame nf;
      nf.f = cf;
      nf.regs.resize(cf->nregs);
      for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
      {
        if (CB->isByValArgument(i))
        {
          uint64_t sz = DL->getTypeAllocSize(CB->getParamByValType(i));
          uint64_t src = cu(s, args[i], "byval");
          uint64_t cp = new_object(s, sz, "byval", false, true);
          mem_copy(s, cp, src, sz);
          nf.allocas.push_back(cp);
          nf.regs[i] = VI(cp, 64);
        }
        else
          nf.regs[i] = args[i];
      }
      s.st.push_back(std::move(nf));
      return;
    }
    default:
      unsupported(std::string("instruction ") + I->getOpcodeName());
  }
}
