// ------------------------------------------------------------------ solver back end (z3)
struct Stats {
  u64 paths = 0, queries = 0, unsat = 0, sat = 0, unknown = 0, cached = 0, refine = 0, tab = 0, tier[4] = {0, 0, 0, 0};
  double solver_s = 0;
  u64 asym = 0, aconc = 0, pins = 0, unsup = 0, mism = 0, diverged = 0, branches = 0, assert_unsat = 0;
};
static Stats S_;
static double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static unsigned opt_qtimeout = 20000, opt_full = 60000;
static bool opt_cvc5 = true;
// shared unsat cache
struct SharedCache { std::atomic<u64> h[1 << 20]; };
static SharedCache * g_cache;
static bool cacheHas(u64 k)
{
  u64 p = k & ((1 << 20) - 1);
  for (int i = 0; i < 8; i++) {
    u64 v = g_cache->h[(p + i) & ((1 << 20) - 1)].load(std::memory_order_relaxed);
    if (v == k) return true;
    if (!v) return false;
  }
  return false;
}
static void cachePut(u64 k)
{
  u64 p = k & ((1 << 20) - 1);
  for (int i = 0; i < 8; i++) {
    auto & s = g_cache->h[(p + i) & ((1 << 20) - 1)];
    u64 z = 0;
    if (s.load() == k) return;
    if (s.compare_exchange_strong(z, k)) return;
  }
}

static Z3_context zc;
struct Tr {
  int lvl;
  std::unordered_map<E, Z3_ast> memo;
  std::vector<E> abs;                // abstracted nodes (topological)
  std::vector<Z3_ast> side;          // side constraints
};
static void z3err(Z3_context c, Z3_error_code e)
{
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  _exit(98);
}
static Z3_sort zs(int bits, bool fp)
{
  if (fp) return bits == 64 ? Z3_mk_fpa_sort_64(zc) : Z3_mk_fpa_sort_32(zc);
  if (bits == 1) return Z3_mk_bool_sort(zc);
  return Z3_mk_bv_sort(zc, bits);
}
static Z3_ast zbv(u64 v, int bits) { return Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, bits)); }
static Z3_ast zfp(u64 v, int bits)
{
  if (bits == 64 && std::isnan(asd(v))) return Z3_mk_fpa_nan(zc, zs(64, true));
  if (bits == 32 && std::isnan(asf(v))) return Z3_mk_fpa_nan(zc, zs(32, true));
  return Z3_mk_fpa_to_fp_bv(zc, zbv(v, bits), zs(bits, true));
}
static Z3_ast rne() { return Z3_mk_fpa_rne(zc); }
static Z3_ast znot(Z3_ast a) { return Z3_mk_not(zc, a); }
static Z3_ast zand(std::vector<Z3_ast> v) { return Z3_mk_and(zc, v.size(), v.data()); }
static Z3_ast zor(std::vector<Z3_ast> v) { return Z3_mk_or(zc, v.size(), v.data()); }
static Z3_ast zimp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(zc, a, b); }

static bool abstractable(E e, int lvl)
{
  switch (e->op) {
    case OP_UF:
    case OP_FMOD: return true;
    case OP_FMUL:
    case OP_FDIV:
    case OP_FSQRT: return lvl <= 1;
    case OP_FADD:
    case OP_FSUB: return lvl == 0;
  }
  return false;
}
static Z3_ast tobv(Z3_ast b, int bits)  // bool -> bv
{
  return Z3_mk_ite(zc, b, zbv(1, bits), zbv(0, bits));
}
static Z3_ast tr(Tr & t, E e);
static void lemmas(Tr & t, E e, Z3_ast r)
{
  // sound facts about the exact IEEE operation, stated over the abstract result
  if (e->op == OP_UF || e->op == OP_FMOD) {
    if (e->op == OP_UF && (e->aux == 0 || e->aux == 1)) {
      Z3_ast a = tr(t, e->k[0]);
      Z3_ast one = zfp(frd(1.0), 64), mone = zfp(frd(-1.0), 64);
      Z3_ast bad = zor({Z3_mk_fpa_is_nan(zc, a), Z3_mk_fpa_is_infinite(zc, a)});
      t.side.push_back(Z3_mk_iff(zc, bad, Z3_mk_fpa_is_nan(zc, r)));
      t.side.push_back(zimp(znot(bad), zand({Z3_mk_fpa_leq(zc, r, one), Z3_mk_fpa_leq(zc, mone, r)})));
    }
    return;
  }
  Z3_ast a = tr(t, e->k[0]);
  Z3_ast b = e->nk > 1 ? tr(t, e->k[1]) : nullptr;
  auto nan = [&](Z3_ast x) { return Z3_mk_fpa_is_nan(zc, x); };
  auto inf = [&](Z3_ast x) { return Z3_mk_fpa_is_infinite(zc, x); };
  auto zero = [&](Z3_ast x) { return Z3_mk_fpa_is_zero(zc, x); };
  auto neg = [&](Z3_ast x) { return Z3_mk_fpa_is_negative(zc, x); };
  auto le = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_leq(zc, x, y); };
  auto ab = [&](Z3_ast x) { return Z3_mk_fpa_abs(zc, x); };
  int bits = e->bits;
  Z3_ast one = zfp(bits == 64 ? frd(1.0) : frf(1.0f), bits);
  Z3_ast z0 = zfp(0, bits);
  auto & s = t.side;
  Z3_ast nn = znot(nan(r));
  auto xorb = [&](Z3_ast x, Z3_ast y) { return Z3_mk_xor(zc, x, y); };
  switch (e->op) {
    case OP_FMUL:
      s.push_back(Z3_mk_iff(zc, nan(r), zor({nan(a), nan(b), zand({inf(a), zero(b)}), zand({zero(a), inf(b)})})));
      s.push_back(zimp(nn, Z3_mk_iff(zc, neg(r), xorb(neg(a), neg(b)))));
      s.push_back(zimp(zand({nn, le(ab(a), one)}), le(ab(r), ab(b))));
      s.push_back(zimp(zand({nn, le(ab(b), one)}), le(ab(r), ab(a))));
      s.push_back(zimp(zand({nn, le(one, ab(a))}), le(ab(b), ab(r))));
      s.push_back(zimp(zand({nn, le(one, ab(b))}), le(ab(a), ab(r))));
      s.push_back(zimp(zand({nn, zor({zero(a), zero(b)})}), zero(r)));
      s.push_back(zimp(zand({nn, Z3_mk_eq(zc, a, one)}), Z3_mk_eq(zc, r, b)));
      s.push_back(zimp(zand({nn, Z3_mk_eq(zc, b, one)}), Z3_mk_eq(zc, r, a)));
      s.push_back(zimp(zand({nn, zor({inf(a), inf(b)})}), inf(r)));
      break;
    case OP_FDIV:
      s.push_back(Z3_mk_iff(zc, nan(r), zor({nan(a), nan(b), zand({inf(a), inf(b)}), zand({zero(a), zero(b)})})));
      s.push_back(zimp(nn, Z3_mk_iff(zc, neg(r), xorb(neg(a), neg(b)))));
      s.push_back(zimp(zand({nn, le(one, ab(b))}), le(ab(r), ab(a))));
      s.push_back(zimp(zand({nn, le(ab(b), one)}), le(ab(a), ab(r))));
      s.push_back(zimp(zand({nn, zero(a)}), zero(r)));
      s.push_back(zimp(zand({nn, inf(b)}), zero(r)));
      s.push_back(zimp(zand({nn, zero(b)}), inf(r)));
      s.push_back(zimp(zand({nn, inf(a)}), inf(r)));
      s.push_back(zimp(zand({nn, le(ab(a), ab(b))}), le(ab(r), one)));
      s.push_back(zimp(zand({nn, le(ab(b), ab(a))}), le(one, ab(r))));
      break;
    case OP_FSQRT:
      s.push_back(Z3_mk_iff(zc, nan(r), zor({nan(a), zand({neg(a), znot(zero(a))})})));
      s.push_back(zimp(nn, le(z0, r)));
      s.push_back(zimp(zand({nn, le(one, a)}), zand({le(one, r), le(r, a)})));
      s.push_back(zimp(zand({nn, le(a, one)}), zand({le(r, one), le(a, r)})));
      break;
    case OP_FADD:
    case OP_FSUB: {
      Z3_ast bb = e->op == OP_FSUB ? Z3_mk_fpa_neg(zc, b) : b;
      s.push_back(Z3_mk_iff(zc, nan(r), zor({nan(a), nan(b), zand({inf(a), inf(bb), xorb(neg(a), neg(bb))})})));
      s.push_back(zimp(zand({nn, le(z0, bb)}), le(a, r)));
      s.push_back(zimp(zand({nn, le(bb, z0)}), le(r, a)));
      s.push_back(zimp(zand({nn, le(z0, a)}), le(bb, r)));
      s.push_back(zimp(zand({nn, le(a, z0)}), le(r, bb)));
      s.push_back(zimp(zand({nn, zero(bb), znot(zero(a))}), Z3_mk_eq(zc, r, a)));
      s.push_back(zimp(zand({nn, zero(a), znot(zero(bb))}), Z3_mk_eq(zc, r, bb)));
      s.push_back(zimp(zand({nn, zor({inf(a), inf(b)})}), inf(r)));
      // a - b >= 0 iff a >= b (gradual underflow makes the sign exact)
      if (e->op == OP_FSUB) {
        s.push_back(zimp(nn, Z3_mk_iff(zc, le(z0, r), zor({le(b, a)}))));
        s.push_back(zimp(nn, Z3_mk_iff(zc, le(r, z0), zor({le(a, b)}))));
      }
      break;
    }
  }
}
static void pairLemmas(Tr & t)
{
  // congruence + monotonicity between abstracted results of the same operation
  auto le = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_leq(zc, x, y); };
  size_t n = t.abs.size();
  if (n > 24) n = 24;
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j < n; j++) {
      E p = t.abs[i], q = t.abs[j];
      if (p->op != q->op || p->aux != q->aux || p->bits != q->bits) continue;
      Z3_ast rp = t.memo[p], rq = t.memo[q];
      std::vector<Z3_ast> eq;
      for (int k = 0; k < p->nk; k++)
        if (p->k[k] != q->k[k]) eq.push_back(Z3_mk_eq(zc, tr(t, p->k[k]), tr(t, q->k[k])));
      t.side.push_back(zimp(zand(eq), Z3_mk_eq(zc, rp, rq)));
      if (p->op == OP_UF || p->op == OP_FMOD) continue;
      Z3_ast nn = zand({znot(Z3_mk_fpa_is_nan(zc, rp)), znot(Z3_mk_fpa_is_nan(zc, rq))});
      Z3_ast z0 = zfp(0, p->bits);
      if (p->op == OP_FADD || p->op == OP_FSUB) {
        Z3_ast a1 = tr(t, p->k[0]), b1_ = tr(t, p->k[1]), a2 = tr(t, q->k[0]), b2 = tr(t, q->k[1]);
        if (p->op == OP_FADD) {
          t.side.push_back(zimp(zand({nn, le(a1, a2), le(b1_, b2)}), le(rp, rq)));
          t.side.push_back(zimp(zand({nn, le(a2, a1), le(b2, b1_)}), le(rq, rp)));
        } else {
          t.side.push_back(zimp(zand({nn, le(a1, a2), le(b2, b1_)}), le(rp, rq)));
          t.side.push_back(zimp(zand({nn, le(a2, a1), le(b1_, b2)}), le(rq, rp)));
        }
      }
      if (p->op == OP_FMUL)
        for (int x = 0; x < 2; x++)
          for (int y = 0; y < 2; y++)
            if (p->k[x] == q->k[y]) {
              Z3_ast c = tr(t, p->k[x]), u = tr(t, p->k[1 - x]), v = tr(t, q->k[1 - y]);
              t.side.push_back(zimp(zand({nn, le(z0, c), le(u, v)}), le(rp, rq)));
              t.side.push_back(zimp(zand({nn, le(z0, c), le(v, u)}), le(rq, rp)));
              t.side.push_back(zimp(zand({nn, le(c, z0), le(u, v)}), le(rq, rp)));
              t.side.push_back(zimp(zand({nn, le(c, z0), le(v, u)}), le(rp, rq)));
            }
      if (p->op == OP_FDIV && p->k[1] == q->k[1]) {
        Z3_ast c = tr(t, p->k[1]), u = tr(t, p->k[0]), v = tr(t, q->k[0]);
        Z3_ast pos = Z3_mk_fpa_lt(zc, z0, c), ng = Z3_mk_fpa_lt(zc, c, z0);
        t.side.push_back(zimp(zand({nn, pos, le(u, v)}), le(rp, rq)));
        t.side.push_back(zimp(zand({nn, pos, le(v, u)}), le(rq, rp)));
        t.side.push_back(zimp(zand({nn, ng, le(u, v)}), le(rq, rp)));
        t.side.push_back(zimp(zand({nn, ng, le(v, u)}), le(rp, rq)));
      }
      if (p->op == OP_FSQRT) {
        Z3_ast u = tr(t, p->k[0]), v = tr(t, q->k[0]);
        t.side.push_back(zimp(zand({nn, le(u, v)}), le(rp, rq)));
        t.side.push_back(zimp(zand({nn, le(v, u)}), le(rq, rp)));
      }
    }
}
static Z3_ast trRaw(Tr & t, E e)
{
  if (e->op == OP_CONST) {
    if (e->fp) return zfp(e->val, e->bits);
    if (e->bits == 1) return e->val ? Z3_mk_true(zc) : Z3_mk_false(zc);
    return zbv(e->val, e->bits);
  }
  if (e->op == OP_VAR) {
    char b[32];
    snprintf(b, sizeof b, "v%u_%d", e->aux, e->bits);
    return Z3_mk_const(zc, Z3_mk_string_symbol(zc, b), zs(e->bits, false));
  }
  if (abstractable(e, t.lvl)) {
    char b[40];
    snprintf(b, sizeof b, "abs%u", e->id);
    for (int i = 0; i < e->nk; i++) tr(t, e->k[i]);
    Z3_ast r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, b), zs(e->bits, e->fp));
    t.memo[e] = r;
    t.abs.push_back(e);
    lemmas(t, e, r);
    return r;
  }
  Z3_ast a = e->nk > 0 ? tr(t, e->k[0]) : nullptr;
  Z3_ast b = e->nk > 1 ? tr(t, e->k[1]) : nullptr;
  Z3_ast c = e->nk > 2 ? tr(t, e->k[2]) : nullptr;
  bool B = e->bits == 1;
  int kb = e->nk ? e->k[0]->bits : 0;
  auto bv1 = [&](Z3_ast x, int bits) { return bits == 1 ? tobv(x, 1) : x; };
  auto back = [&](Z3_ast x) { return B ? Z3_mk_eq(zc, x, zbv(1, 1)) : x; };
  switch (e->op) {
    case OP_ADD: return back(Z3_mk_bvadd(zc, bv1(a, kb), bv1(b, kb)));
    case OP_SUB: return back(Z3_mk_bvsub(zc, bv1(a, kb), bv1(b, kb)));
    case OP_MUL: return back(Z3_mk_bvmul(zc, bv1(a, kb), bv1(b, kb)));
    case OP_UDIV: return back(Z3_mk_bvudiv(zc, bv1(a, kb), bv1(b, kb)));
    case OP_SDIV: return back(Z3_mk_bvsdiv(zc, bv1(a, kb), bv1(b, kb)));
    case OP_UREM: return back(Z3_mk_bvurem(zc, bv1(a, kb), bv1(b, kb)));
    case OP_SREM: return back(Z3_mk_bvsrem(zc, bv1(a, kb), bv1(b, kb)));
    case OP_SHL: return back(Z3_mk_bvshl(zc, bv1(a, kb), bv1(b, kb)));
    case OP_LSHR: return back(Z3_mk_bvlshr(zc, bv1(a, kb), bv1(b, kb)));
    case OP_ASHR: return back(Z3_mk_bvashr(zc, bv1(a, kb), bv1(b, kb)));
    case OP_AND: return B ? zand({a, b}) : Z3_mk_bvand(zc, a, b);
    case OP_OR: return B ? zor({a, b}) : Z3_mk_bvor(zc, a, b);
    case OP_XOR:
      if (B) {
        if (e->k[1]->op == OP_CONST) return e->k[1]->val ? znot(a) : a;
        return Z3_mk_xor(zc, a, b);
      }
      return Z3_mk_bvxor(zc, a, b);
    case OP_EQ: return Z3_mk_eq(zc, a, b);
    case OP_ULT: return Z3_mk_bvult(zc, bv1(a, kb), bv1(b, kb));
    case OP_ULE: return Z3_mk_bvule(zc, bv1(a, kb), bv1(b, kb));
    case OP_SLT: return Z3_mk_bvslt(zc, bv1(a, kb), bv1(b, kb));
    case OP_SLE: return Z3_mk_bvsle(zc, bv1(a, kb), bv1(b, kb));
    case OP_ZEXT: return kb == 1 ? tobv(a, e->bits) : Z3_mk_zero_ext(zc, e->bits - kb, a);
    case OP_SEXT:
      return kb == 1 ? Z3_mk_ite(zc, a, zbv(msk(e->bits), e->bits), zbv(0, e->bits))
                     : Z3_mk_sign_ext(zc, e->bits - kb, a);
    case OP_EXTRACT:
      return back(Z3_mk_extract(zc, e->aux + e->bits - 1, e->aux, bv1(a, kb)));
    case OP_CONCAT: return Z3_mk_concat(zc, bv1(a, kb), bv1(b, e->k[1]->bits));
    case OP_FADD: return Z3_mk_fpa_add(zc, rne(), a, b);
    case OP_FSUB: return Z3_mk_fpa_sub(zc, rne(), a, b);
    case OP_FMUL: return Z3_mk_fpa_mul(zc, rne(), a, b);
    case OP_FDIV: return Z3_mk_fpa_div(zc, rne(), a, b);
    case OP_FSQRT: return Z3_mk_fpa_sqrt(zc, rne(), a);
    case OP_FNEG: return Z3_mk_fpa_neg(zc, a);
    case OP_FABS: return Z3_mk_fpa_abs(zc, a);
    case OP_FFLOOR: return Z3_mk_fpa_round_to_integral(zc, Z3_mk_fpa_rtn(zc), a);
    case OP_FCEIL: return Z3_mk_fpa_round_to_integral(zc, Z3_mk_fpa_rtp(zc), a);
    case OP_FTRUNC: return Z3_mk_fpa_round_to_integral(zc, Z3_mk_fpa_rtz(zc), a);
    case OP_FRINT: return Z3_mk_fpa_round_to_integral(zc, rne(), a);
    case OP_FROUND: return Z3_mk_fpa_round_to_integral(zc, Z3_mk_fpa_rna(zc), a);
    case OP_FMIN:
    case OP_FMAX: {
      Z3_ast cnd = e->op == OP_FMIN ? Z3_mk_fpa_lt(zc, a, b) : Z3_mk_fpa_lt(zc, b, a);
      return Z3_mk_ite(zc, Z3_mk_fpa_is_nan(zc, a), b,
                       Z3_mk_ite(zc, zor({Z3_mk_fpa_is_nan(zc, b), cnd}), a, b));
    }
    case OP_COPYSIGN: {
      Z3_ast m = Z3_mk_fpa_abs(zc, a);
      return Z3_mk_ite(zc, Z3_mk_fpa_is_negative(zc, b), Z3_mk_fpa_neg(zc, m), m);
    }
    case OP_FEQ: return Z3_mk_fpa_eq(zc, a, b);
    case OP_FLT: return Z3_mk_fpa_lt(zc, a, b);
    case OP_FLE: return Z3_mk_fpa_leq(zc, a, b);
    case OP_FISNAN: return Z3_mk_fpa_is_nan(zc, a);
    case OP_FISINF: return Z3_mk_fpa_is_infinite(zc, a);
    case OP_FPEXT:
    case OP_FPTRUNC: return Z3_mk_fpa_to_fp_float(zc, rne(), a, zs(e->bits, true));
    case OP_FPTOSI: return Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), a, e->bits);
    case OP_FPTOUI: return Z3_mk_fpa_to_ubv(zc, Z3_mk_fpa_rtz(zc), a, e->bits);
    case OP_SITOFP: return Z3_mk_fpa_to_fp_signed(zc, rne(), bv1(a, kb), zs(e->bits, true));
    case OP_UITOFP: return Z3_mk_fpa_to_fp_unsigned(zc, rne(), bv1(a, kb), zs(e->bits, true));
    case OP_F2I: {
      // fresh bit pattern constrained to denote the same float (canonical quiet NaN)
      char nb[40];
      snprintf(nb, sizeof nb, "f2i%u", e->id);
      Z3_ast r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nb), Z3_mk_bv_sort(zc, e->bits));
      u64 qn = e->bits == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL;
      t.side.push_back(Z3_mk_eq(zc, Z3_mk_fpa_to_fp_bv(zc, r, zs(e->bits, true)), a));
      t.side.push_back(zimp(Z3_mk_fpa_is_nan(zc, a),
                            Z3_mk_eq(zc, Z3_mk_bvor(zc, r, zbv(1ULL << (e->bits - 1), e->bits)),
                                     zbv(qn | (1ULL << (e->bits - 1)), e->bits))));
      return r;
    }
    case OP_I2F: return Z3_mk_fpa_to_fp_bv(zc, a, zs(e->bits, true));
    case OP_ITE: return Z3_mk_ite(zc, a, b, c);
  }
  fprintf(stderr, "tr: bad op %u\n", e->op);
  _exit(97);
}
static Z3_ast tr(Tr & t, E e)
{
  auto it = t.memo.find(e);
  if (it != t.memo.end()) return it->second;
  Z3_ast r = trRaw(t, e);
  Z3_inc_ref(zc, r);
  t.memo[e] = r;
  return r;
}

// native evaluation of an expression under another assignment
struct Ev {
  std::unordered_map<E, u64> memo;
  const std::vector<u64> * in;
  u64 operator()(E e)
  {
    if (e->op == OP_CONST) return e->val;
    if (e->op == OP_VAR) return e->aux < in->size() ? (*in)[e->aux] & msk(e->bits) : 0;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u64 v[3] = {0, 0, 0};
    const Expr * k[3] = {e->k[0], e->k[1], e->k[2]};
    for (int i = 0; i < e->nk; i++) v[i] = (*this)(e->k[i]);
    u64 r = evalOp(e->op, e->aux, e->bits, e->fp, v, k);
    memo[e] = r;
    return r;
  }
};

typedef std::vector<std::pair<E, bool>> Conds;
static void collect(E e, std::set<E> & seen, std::vector<E> & vars, std::vector<E> & abs)
{
  if (!seen.insert(e).second) return;
  for (int i = 0; i < e->nk; i++) collect(e->k[i], seen, vars, abs);
  if (e->op == OP_VAR) vars.push_back(e);
  if (abstractable(e, 0)) abs.push_back(e);
}
static u64 modelBits(Z3_model m, Z3_ast a, int bits, bool fp)
{
  Z3_ast out;
  if (fp) {
    Z3_ast b = Z3_mk_fpa_to_ieee_bv(zc, a);
    if (!Z3_model_eval(zc, m, b, true, &out)) return 0;
    out = Z3_simplify(zc, out);
  } else if (!Z3_model_eval(zc, m, a, true, &out)) return 0;
  if (!fp && bits == 1) return Z3_get_bool_value(zc, out) == Z3_L_TRUE;
  u64 v = 0;
  if (!Z3_get_numeral_uint64(zc, out, &v)) return 0;
  return v;
}
static bool hasFP(const std::set<E> & s)
{
  for (E e : s)
    if (e->fp) return true;
  return false;
}
static int cvc5_query(const char * smt2, std::vector<E> & vars, std::vector<u64> & in, unsigned ms);

// sound order facts around one evaluated point: v = operands, r0 = exact result there
static void monotone(Tr & t, Z3_solver s, E e, const u64 * v, u64 r0)
{
  if (e->nk != 2 || (e->op != OP_FADD && e->op != OP_FSUB && e->op != OP_FMUL && e->op != OP_FDIV)) return;
  if (e->k[0]->bits != e->bits || e->k[1]->bits != e->bits) return;
  auto dbl = [&](u64 x) { return e->bits == 64 ? asd(x) : (double)asf(x); };
  double a0 = dbl(v[0]), b0 = dbl(v[1]), rr = dbl(r0);
  if (!std::isfinite(a0) || !std::isfinite(b0) || rr != rr) return;
  Z3_ast a = tr(t, e->k[0]), b = tr(t, e->k[1]), r = t.memo[e];
  Z3_ast ca = zfp(v[0], e->bits), cb = zfp(v[1], e->bits), cr = zfp(r0, e->bits);
  auto le = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_leq(zc, x, y); };
  auto ab = [&](Z3_ast x) { return Z3_mk_fpa_abs(zc, x); };
  auto as = [&](Z3_ast p, Z3_ast q) { Z3_solver_assert(zc, s, zimp(p, q)); };
  switch (e->op) {
    case OP_FADD:
      as(zand({le(a, ca), le(b, cb)}), le(r, cr));
      as(zand({le(ca, a), le(cb, b)}), le(cr, r));
      break;
    case OP_FSUB:
      as(zand({le(a, ca), le(cb, b)}), le(r, cr));
      as(zand({le(ca, a), le(b, cb)}), le(cr, r));
      break;
    case OP_FMUL:
      as(zand({le(ab(a), ab(ca)), le(ab(b), ab(cb))}), le(ab(r), ab(cr)));
      if (a0 != 0 && b0 != 0) as(zand({le(ab(ca), ab(a)), le(ab(cb), ab(b))}), le(ab(cr), ab(r)));
      break;
    case OP_FDIV:
      if (b0 != 0) as(zand({le(ab(a), ab(ca)), le(ab(cb), ab(b))}), le(ab(r), ab(cr)));
      if (a0 != 0) as(zand({le(ab(ca), ab(a)), le(ab(b), ab(cb))}), le(ab(cr), ab(r)));
      break;
  }
}
static void mulVars(E e, std::set<E> & seen, bool under, std::set<E> & out)
{
  if (e->op == OP_VAR && under) out.insert(e);
  if (!under && !seen.insert(e).second) return;
  if (under && e->op != OP_VAR && !seen.insert((E)((uintptr_t)e | 1)).second) return;
  bool u = under || ((e->op == OP_FMUL || e->op == OP_FDIV || e->op == OP_MUL || e->op == OP_UDIV || e->op == OP_SDIV || e->op == OP_UREM || e->op == OP_SREM || e->op == OP_FSQRT));
  for (int i = 0; i < e->nk; i++) mulVars(e->k[i], seen, u, out);
}
// fix the inputs that feed multiplications/divisions and solve the rest exactly (finds models only)
template <class F> static bool partial(const Conds & cs, const std::vector<E> & vars, std::vector<u64> & in, const std::vector<u64> & cand, bool nice, bool fp, F && check)
{
  std::set<E> seen, mv;
  for (auto & c : cs) mulVars(c.first, seen, false, mv);
  if (mv.empty()) return false;
  Tr t;
  t.lvl = 2;
  Z3_solver s = Z3_mk_solver_from_tactic(zc, Z3_mk_tactic(zc, fp ? "qffp" : "qfbv"));
  Z3_solver_inc_ref(zc, s);
  Z3_params p = Z3_mk_params(zc);
  Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), 5000);
  Z3_solver_set_params(zc, s, p);
  for (auto & c : cs) {
    Z3_ast a = tr(t, c.first);
    Z3_solver_assert(zc, s, c.second ? a : znot(a));
  }
  for (auto f : t.side) Z3_solver_assert(zc, s, f);
  for (E v : mv) {
    if (v->bits == 1) continue;
    u64 x = nice ? (v->bits == 64 ? 0x3ff0000000000000ULL : v->bits == 32 ? 0x3f800000u : 1) : cand[v->aux];
    Z3_solver_assert(zc, s, Z3_mk_eq(zc, tr(t, v), zbv(x, v->bits)));
  }
  bool ok = false;
  if (Z3_solver_check(zc, s) == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(zc, s);
    Z3_model_inc_ref(zc, m);
    std::vector<u64> c2 = in;
    for (E v : vars) c2[v->aux] = modelBits(m, tr(t, v), v->bits, false);
    if (check(c2)) { in = c2; ok = true; }
    Z3_model_dec_ref(zc, m);
  }
  Z3_solver_dec_ref(zc, s);
  Z3_params_dec_ref(zc, p);
  return ok;
}
// Replace, inside every condition, the sub-formulas that other conditions of the same query fix.
static void known(E e, bool v, std::unordered_map<E, bool> & kn)
{
  if (isC(e)) return;
  if (e->op == OP_XOR && e->bits == 1 && isC(e->k[1])) { known(e->k[0], v ^ (e->k[1]->val & 1), kn); return; }
  kn[e] = v;
  if (e->op == OP_AND && v) known(e->k[0], true, kn), known(e->k[1], true, kn);
  if (e->op == OP_OR && !v) known(e->k[0], false, kn), known(e->k[1], false, kn);
}
static E rewrite(E e, const std::unordered_map<E, bool> & kn, std::unordered_map<E, E> & memo, bool top)
{
  if (e->op == OP_CONST || e->op == OP_VAR) {
    if (!top && e->bits == 1 && e->op == OP_VAR) {
      auto i = kn.find(e);
      if (i != kn.end()) return mkC(i->second, 1);
    }
    return e;
  }
  if (!top && e->bits == 1) {
    auto i = kn.find(e);
    if (i != kn.end()) return mkC(i->second, 1);
  }
  if (!top) {
    auto i = memo.find(e);
    if (i != memo.end()) return i->second;
  }
  // the top-level connectives of a condition are themselves the facts: keep descending as 'top'
  bool conn = top && e->bits == 1 && (e->op == OP_AND || e->op == OP_OR || (e->op == OP_XOR && isC(e->k[1])));
  E k[3] = {nullptr, nullptr, nullptr};
  bool ch = false;
  for (int i = 0; i < e->nk; i++) {
    k[i] = rewrite(e->k[i], kn, memo, conn);
    ch |= k[i] != e->k[i];
  }
  E r = ch ? mk(e->op, e->aux, e->bits, e->fp, k[0], k[1], k[2]) : e;
  if (!top) memo[e] = r;
  return r;
}
// Floating-point terms that are exact linear forms of integers with dyadic coefficients: as long as
// every intermediate value is a multiple of the unit 2^-s and below 2^53 units, no operation rounds,
// and comparisons of such terms are comparisons of integers.
struct Dya {
  struct F { bool ok = false; int s = 0; std::map<E, __int128> co; __int128 c = 0; };
  std::unordered_map<E, F> memo;
  static void srange(E e, __int128 & lo, __int128 & hi, int depth = 0)
  {
    lo = -((__int128)1 << (e->bits - 1)); hi = ((__int128)1 << (e->bits - 1)) - 1;
    if (depth > 20) return;
    __int128 a, b, c, d;
    switch (e->op) {
      case OP_CONST: lo = hi = (i64)(e->val << (64 - e->bits)) >> (64 - e->bits); return;
      case OP_SEXT: if (e->k[0]->bits > 1) srange(e->k[0], lo, hi, depth + 1); return;
      case OP_ZEXT: lo = 0; hi = ((__int128)1 << e->k[0]->bits) - 1; return;
      case OP_ASHR: if (isC(e->k[1]) && e->k[1]->val < (u64)e->bits) { lo >>= e->k[1]->val; hi >>= e->k[1]->val; } return;
      case OP_ADD: case OP_SUB: case OP_MUL: {
        srange(e->k[0], a, b, depth + 1); srange(e->k[1], c, d, depth + 1);
        __int128 l, h;
        if (e->op == OP_ADD) { l = a + c; h = b + d; }
        else if (e->op == OP_SUB) { l = a - d; h = b - c; }
        else { __int128 p[] = {a * c, a * d, b * c, b * d}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); }
        if (e->bits <= 62 || (a >= -((__int128)1 << 62) && b < ((__int128)1 << 62) && c >= -((__int128)1 << 62) && d < ((__int128)1 << 62)))
          if (l >= lo && h <= hi) { lo = l; hi = h; }
        return;
      }
    }
  }
  static bool mag(const F & f, int lim)
  {
    __int128 m = f.c < 0 ? -f.c : f.c, L = (__int128)1 << lim;
    if (m > L) return false;
    for (auto & [x, k] : f.co) {
      __int128 lo, hi, q = k < 0 ? -k : k;
      srange(x, lo, hi);
      __int128 r = std::max(hi < 0 ? -hi : hi, lo < 0 ? -lo : lo);
      if (q > L || r > L || (q && r > L / q)) return false;
      m += q * r;
      if (m > L) return false;
    }
    return true;
  }
  static bool scale(F & f, int s)  // to the finer unit 2^-s
  {
    if (s - f.s > 60) return false;
    auto up = [&](__int128 & v) { __int128 w = v << (s - f.s); if ((w >> (s - f.s)) != v || w > ((__int128)1 << 100) || w < -((__int128)1 << 100)) return false; v = w; return true; };
    if (!up(f.c)) return false;
    for (auto & [x, k] : f.co) if (!up(k)) return false;
    f.s = s;
    return true;
  }
  static F lincomb(F a, F b, int sign)
  {
    F r;
    int s = std::max(a.s, b.s);
    if (!scale(a, s) || !scale(b, s)) return r;
    r = a;
    r.c += sign * b.c;
    for (auto & [x, k] : b.co) if (!(r.co[x] += sign * k)) r.co.erase(x);
    return r;
  }
  static bool dyadic(double d, i64 & m, int & e)
  {
    if (!std::isfinite(d)) return false;
    if (d == 0) { m = 0; e = 0; return true; }
    m = (i64)std::ldexp(std::frexp(d, &e), 53);
    e -= 53;
    while (!(m & 1)) { m /= 2; e++; }
    return e > -200 && e < 200;
  }
  static F mul(const F & a, i64 m, int e)
  {
    F r = a;
    r.s -= e;
    auto f = [&](__int128 & v) { if (v > ((__int128)1 << 60) || v < -((__int128)1 << 60)) return false; v *= m; return true; };
    r.ok = f(r.c);
    for (auto & [x, k] : r.co) r.ok = r.ok && f(k);
    if (!m) { r.co.clear(); r.c = 0; }
    return r;
  }
  const F & of(E e)
  {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    F r;
    i64 m; int x;
    if (e->fp && e->bits == 64) switch (e->op) {
      case OP_CONST: if (dyadic(asd(e->val), m, x)) { r.ok = true; r.s = -x; r.c = m; } break;
      case OP_SITOFP: if (e->k[0]->bits > 1) { r.ok = true; r.co[e->k[0]] = 1; } break;
      case OP_FNEG: { const F & a = of(e->k[0]); if (a.ok) r = mul(a, -1, 0); break; }
      case OP_FADD: case OP_FSUB: { F a = of(e->k[0]); const F & b = of(e->k[1]); if (a.ok && b.ok) r = lincomb(a, b, e->op == OP_FADD ? 1 : -1); break; }
      case OP_FMUL: for (int i = 0; i < 2 && !r.ok; i++) if (isC(e->k[i]) && dyadic(asd(e->k[i]->val), m, x)) { const F & a = of(e->k[1 - i]); if (a.ok) r = mul(a, m, x); } break;
      case OP_FDIV: if (isC(e->k[1]) && dyadic(asd(e->k[1]->val), m, x) && (m == 1 || m == -1)) { const F & a = of(e->k[0]); if (a.ok) r = mul(a, m, -x); } break;
    }
    r.ok = r.ok && r.s > -200 && r.s < 200 && mag(r, 53);
    return memo[e] = r;
  }
  E compare(E e)
  {
    if (isC(e->k[0]) && isC(e->k[1])) return e;
    F a = of(e->k[0]), b = of(e->k[1]);
    if (!a.ok || !b.ok) return e;
    F d = lincomb(a, b, -1);
    if (!d.ok || !mag(d, 60)) return e;
    S_.tab++;
    // common factor of the coefficients
    auto red = [](__int128 v) { return (i64)v; };
    if (d.co.empty()) { i64 v = red(d.c); return mkC(e->op == OP_FEQ ? v == 0 : e->op == OP_FLT ? v < 0 : v <= 0, 1); }
    int w = 8;
    while (w < 64 && !mag(d, w - 2)) w++;
    E t = mkC((u64)red(d.c) & msk(w), w);
    for (auto & [x, k] : d.co) {
      __int128 lo, hi;
      srange(x, lo, hi);
      E y = x;
      if (y->bits < w) y = mk(OP_SEXT, 0, w, false, y);
      else if (y->bits > w) y = mk(OP_EXTRACT, 0, w, false, y);
      t = mk(OP_ADD, 0, w, false, mk(OP_MUL, 0, w, false, y, mkC((u64)red(k) & msk(w), w)), t);
    }
    E z = mkC(0, w);
    return e->op == OP_FEQ ? mk(OP_EQ, 0, 1, false, t, z) : e->op == OP_FLT ? mk(OP_SLT, 0, 1, false, t, z) : mk(OP_SLE, 0, 1, false, t, z);
  }
};
static Dya dya;
// Floating-point comparisons that depend on one integer term with few possible values (sums of small
// variables: durations, counters) are replaced by the exact set of values of that term for which they hold.
struct Lin { std::map<E, u64> co; u64 c = 0; int bits = 0; bool operator==(const Lin & o) const { return co == o.co && c == o.c && bits == o.bits; } };
struct Tab {
  std::unordered_map<E, E> memo;
  static void lin(E e, u64 f, Lin & l, int depth)
  {
    if (isC(e)) { l.c += f * e->val; return; }
    if (depth < 200) {
      if (e->op == OP_ADD) { lin(e->k[0], f, l, depth + 1); lin(e->k[1], f, l, depth + 1); return; }
      if (e->op == OP_SUB) { lin(e->k[0], f, l, depth + 1); lin(e->k[1], 0 - f, l, depth + 1); return; }
      if (e->op == OP_MUL && isC(e->k[1])) { lin(e->k[0], f * e->k[1]->val, l, depth + 1); return; }
      if (e->op == OP_MUL && isC(e->k[0])) { lin(e->k[1], f * e->k[0]->val, l, depth + 1); return; }
      if (e->op == OP_SHL && isC(e->k[1]) && e->k[1]->val < 64) { lin(e->k[0], f << e->k[1]->val, l, depth + 1); return; }
    }
    u64 & k = l.co[e];
    k = (k + f) & msk(l.bits);
    if (!k) l.co.erase(e);
  }
  // the integer terms a floating-point expression depends on; false: something else
  bool cuts(E e, std::set<E> & seen, std::vector<E> & out)
  {
    if (!seen.insert(e).second || isC(e)) return true;
    if (!e->fp && e->bits == 1) {
      if (e->op != OP_FEQ && e->op != OP_FLT && e->op != OP_FLE && e->op != OP_FISNAN && e->op != OP_FISINF && !icmp(e)) return false;
    } else if (!e->fp) { out.push_back(e); return true; }
    else if (e->op == OP_VAR || e->op == OP_UF || e->op == OP_I2F || e->op == OP_ITE) return false;
    for (int i = 0; i < e->nk; i++) if (!cuts(e->k[i], seen, out)) return false;
    return true;
  }
  static bool icmp(E e)
  {
    return (e->op == OP_EQ || e->op == OP_ULT || e->op == OP_ULE || e->op == OP_SLT || e->op == OP_SLE) && e->k[0]->bits >= 32 && !e->k[0]->fp && (isC(e->k[0]) || isC(e->k[1]));
  }
  static bool values(const Lin & l, std::set<u64> & vs)
  {
    vs = {l.c & msk(l.bits)};
    for (auto & [x, k] : l.co) {
      E b = x;
      while (b->op == OP_ZEXT) b = b->k[0];
      if (b->op != OP_VAR || b->bits > 10) return false;
      std::set<u64> n;
      if (vs.size() << b->bits > (1u << 22)) return false;
      for (u64 v : vs) for (u64 i = 0; i < (1ull << b->bits); i++) n.insert((v + k * i) & msk(l.bits));
      if (n.size() > 8192) return false;
      vs.swap(n);
    }
    return true;
  }
  E term(const Lin & l)
  {
    E t = mkC(l.c & msk(l.bits), l.bits);
    for (auto & [x, k] : l.co) t = mk(OP_ADD, 0, l.bits, false, mk(OP_MUL, 0, l.bits, false, x, mkC(k, l.bits)), t);
    return t;
  }
  // the distinct results of `e` over the values of the one integer term it depends on, as ranges of
  // the values of a term `t`; false: e is not of that kind
  bool steps(E e, E & t, int & tb, std::vector<std::array<u64, 3>> & r)
  {
    std::set<E> seen;
    std::vector<E> cs;
    if (!cuts(e->op == OP_FPTOSI || e->op == OP_FPTOUI ? e->k[0] : e, seen, cs) || cs.empty()) return false;
    for (E c : cs) if (c->op == OP_VAR) return false;
    if (icmp(e)) { bool big = false; for (E c : cs) big |= c->op == OP_ADD || c->op == OP_SUB || c->op == OP_MUL; if (!big) return false; }
    Lin l;
    for (size_t i = 0; i < cs.size(); i++) {
      Lin n;
      n.bits = cs[i]->bits;
      lin(cs[i], 1, n, 0);
      n.c &= msk(n.bits);
      if (i && !(n == l)) return false;
      l = n;
    }
    std::set<u64> vs;
    if (!values(l, vs)) return false;
    std::map<u64, u64> res;  // by value of the term
    for (u64 v : vs) {
      Ev ev;
      static const std::vector<u64> none;
      ev.in = &none;
      for (E c : cs) ev.memo[c] = v;
      res[v] = ev(e) & msk(e->bits);
    }
    // value = c + g * t with a narrow t where that is possible
    u64 g = 0, c0 = l.c & msk(l.bits), mx = 0;
    bool narrow = true;
    for (auto & [x, k] : l.co) { g = std::__gcd(g, k); E y = x; while (y->op == OP_ZEXT) y = y->k[0]; narrow = narrow && k < (1ull << 40); mx += narrow ? k * msk(y->bits) : 0; }
    narrow = narrow && g && mx < (1ull << 50) && mx / g < 30000 && (l.bits == 64 || mx <= msk(l.bits));
    tb = l.bits;
    if (narrow) {
      tb = 16;
      t = mkC(0, 16);
      for (auto & [x, k] : l.co) { E y = x; while (y->op == OP_ZEXT) y = y->k[0]; t = mk(OP_ADD, 0, 16, false, mk(OP_MUL, 0, 16, false, y->bits == 16 ? y : mk(OP_ZEXT, 0, 16, false, y), mkC(k / g, 16)), t); }
      std::map<u64, u64> q;  // t grows with the variables, value wraps at most once: renumber
      for (auto & [v, h] : res) q[((v - c0) & msk(l.bits)) / g] = h;
      res.swap(q);
    } else t = term(l);
    for (auto & [i, h] : res) {
      if (!r.empty() && r.back()[2] == h) r.back()[1] = i;
      else r.push_back({i, i, h});
      if (r.size() > 81) return false;
    }
    return true;
  }
  static E within(E t, int tb, u64 a, u64 b)
  {
    return a == b ? mk(OP_EQ, 0, 1, false, t, mkC(a, tb))
                  : mk(OP_AND, 0, 1, false, mk(OP_ULE, 0, 1, false, mkC(a, tb), t), mk(OP_ULE, 0, 1, false, t, mkC(b, tb)));
  }
  E compare(E e)
  {
    E t;
    int tb;
    std::vector<std::array<u64, 3>> r;
    if (!steps(e, t, tb, r)) return e;
    S_.tab++;
    E o = mkC(0, 1);
    for (auto & [a, b, v] : r) if (v) o = mk(OP_OR, 0, 1, false, o, within(t, tb, a, b));
    return o;
  }
  // conversions to integers inside integer terms
  std::unordered_map<E, E> convs;
  E conversions(E e, int depth = 0)
  {
    if (isC(e) || e->op == OP_VAR || (e->fp && e->op != OP_FPTOSI) || depth > 60) return e;
    auto i = convs.find(e);
    if (i != convs.end()) return i->second;
    E r = e;
    if (e->op == OP_FPTOSI || e->op == OP_FPTOUI) {
      E t;
      int tb;
      std::vector<std::array<u64, 3>> v;
      if (steps(e, t, tb, v)) {
        S_.tab++;
        r = mkC(v.back()[2], e->bits);
        for (size_t j = v.size() - 1; j-- > 0;) r = mk(OP_ITE, 0, e->bits, false, within(t, tb, v[j][0], v[j][1]), mkC(v[j][2], e->bits), r);
      }
    } else {
      E k[3] = {e->k[0], e->k[1], e->k[2]};
      bool ch = false;
      for (int q = 0; q < e->nk; q++) { k[q] = conversions(e->k[q], depth + 1); ch |= k[q] != e->k[q]; }
      if (ch) r = mk(e->op, e->aux, e->bits, e->fp, k[0], k[1], k[2]);
    }
    return convs[e] = r;
  }
  E operator()(E e)
  {
    if (e->op == OP_CONST || e->op == OP_VAR) return e;
    auto i = memo.find(e);
    if (i != memo.end()) return i->second;
    E r = e;
    if (e->bits == 1 && !e->fp) {
      if (e->op == OP_FEQ || e->op == OP_FLT || e->op == OP_FLE) r = dya.compare(e);
      if (r != e) return memo[e] = r;
      if (e->op == OP_FEQ || e->op == OP_FLT || e->op == OP_FLE || e->op == OP_FISNAN || e->op == OP_FISINF || icmp(e)) { r = compare(e); if (r == e && icmp(e)) r = conversions(e); }
      else if (e->op == OP_EQ || e->op == OP_ULT || e->op == OP_ULE || e->op == OP_SLT || e->op == OP_SLE) r = conversions(e);
      else if (e->op == OP_AND || e->op == OP_OR || e->op == OP_XOR) {
        E a = (*this)(e->k[0]), b = (*this)(e->k[1]);
        if (a != e->k[0] || b != e->k[1]) r = mk(e->op, e->aux, 1, false, a, b);
      }
    }
    return memo[e] = r;
  }
};
static int solve_(const Conds & cs, std::vector<u64> & in);
// 1 sat (in updated), 0 unsat, -1 unknown
static int solve(const Conds & cs0, std::vector<u64> & in)
{
  static bool norw = getenv("SYM_NOREWRITE") != nullptr;
  if (norw) return solve_(cs0, in);
  Conds cs = cs0;
  for (int round = 0; round < 3; round++) {
    std::unordered_map<E, bool> kn;
    std::unordered_map<E, E> memo;
    for (auto & c : cs) known(c.first, c.second, kn);
    bool ch = false;
    Conds n;
    std::set<std::pair<E, bool>> seen;
    for (auto & c : cs) {
      E e = rewrite(c.first, kn, memo, true);
      ch |= e != c.first;
      bool v = c.second;
      if (isC(e)) {
        if ((e->val & 1) != (u64)v) { S_.queries++; S_.unsat++; S_.tier[0]++; return 0; }
        continue;
      }
      if (seen.insert({e, v}).second) n.push_back({e, v});
    }
    cs.swap(n);
    if (!ch) break;
  }
  static bool dbgt = getenv("SYM_TABCHK") != nullptr;
  Conds pre = cs;
  Tab tab;
  for (size_t i = 0; i < cs.size();) {
    cs[i].first = tab(cs[i].first);
    if (!isC(cs[i].first)) { i++; continue; }
    if ((cs[i].first->val & 1) != (u64)cs[i].second) { S_.queries++; S_.unsat++; S_.tier[0]++; return 0; }
    cs.erase(cs.begin() + i);
  }
  if (dbgt) {
    int r = solve_(cs, in);
    if (r == 1) for (auto & c : pre) { Ev ev; ev.in = &in; if ((ev(c.first) & 1) != (u64)c.second) { fprintf(stderr, "TABBAD op %d\n", c.first->op); std::function<void(E, int)> dp = [&](E e, int d) { if (d > 14) return; Ev ev; ev.in = &in; fprintf(stderr, "%*sop %d bits %d fp %d aux %d val %llx now %llx\n", d, "", e->op, e->bits, e->fp, e->aux, (unsigned long long)e->val, (unsigned long long)ev(e)); for (int q = 0; q < e->nk; q++) dp(e->k[q], d + 1); }; dp(c.first, 0); break; } }
    return r;
  }
  return solve_(cs, in);
}
static int solve_(const Conds & cs, std::vector<u64> & in)
{
  double t0 = now();
  S_.queries++;
  u64 key = 0x12345;
  for (auto & c : cs) key += mix(c.first->hash * 2 + c.second);
  key = mix(key) | 1;
  if (cacheHas(key)) {
    S_.cached++;
    S_.unsat++;
    return 0;
  }
  std::set<E> seen;
  std::vector<E> vars, abs;
  for (auto & c : cs) collect(c.first, seen, vars, abs);
  bool fp = hasFP(seen);
  bool hasUF = false;
  for (E e : abs)
    if (e->op == OP_UF || e->op == OP_FMOD) hasUF = true;
  auto check = [&](const std::vector<u64> & cand) {
    Ev ev;
    ev.in = &cand;
    for (auto & c : cs)
      if ((ev(c.first) & 1) != (u64)c.second) return false;
    return true;
  };
  int res = -1;
  int lvl0 = abs.empty() ? 2 : 0;
  bool dbg = getenv("SYM_SOLVE") != nullptr;
  for (int lvl = lvl0; lvl <= 2 && res < 0; lvl++) {
    if (lvl == 1) {
      bool ad = false, other = false;
      for (E e : abs) (e->op == OP_FADD || e->op == OP_FSUB) ? ad = true : other = true;
      if (!ad || !other) continue;
    }
    Tr t;
    t.lvl = lvl;
    std::vector<Z3_ast> fs;
    for (auto & c : cs) {
      Z3_ast a = tr(t, c.first);
      fs.push_back(c.second ? a : znot(a));
    }
    pairLemmas(t);
    Z3_solver s = fp ? Z3_mk_solver_from_tactic(zc, Z3_mk_tactic(zc, "qffp"))
                     : Z3_mk_solver_from_tactic(zc, Z3_mk_tactic(zc, "qfbv"));
    Z3_solver_inc_ref(zc, s);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    unsigned to = lvl == 2 ? (abs.empty() ? opt_qtimeout : opt_full) : lvl == 0 ? 4000 : 6000;
    if (lvl == 2 && opt_cvc5 && !hasUF && to > 5000) to = 5000;
    std::string smt_text;
    if (lvl == 2 && opt_cvc5 && !hasUF) {
      // a tactic solver prints its converted goal once it has run: take the text from a plain one
      Z3_solver ps = Z3_mk_simple_solver(zc);
      Z3_solver_inc_ref(zc, ps);
      for (auto f : fs) Z3_solver_assert(zc, ps, f);
      for (auto f : t.side) Z3_solver_assert(zc, ps, f);
      smt_text = Z3_solver_to_string(zc, ps);
      Z3_solver_dec_ref(zc, ps);
    }
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), to);
    Z3_solver_set_params(zc, s, p);
    for (auto f : fs) Z3_solver_assert(zc, s, f);
    for (auto f : t.side) Z3_solver_assert(zc, s, f);
    std::vector<u64> last;
    int rounds = lvl == 0 ? 12 : lvl == 1 ? 8 : (hasUF ? 12 : 1);
    for (int r = 0; r < rounds; r++) {
      double q0 = now();
      Z3_lbool rr = Z3_solver_check(zc, s);
      if (dbg) fprintf(stderr, "  q lvl %d round %d -> %d  %.2fs (abs %zu, conds %zu)\n", lvl, r, rr, now() - q0, abs.size(), cs.size());
      if (rr == Z3_L_FALSE) {
        res = 0;
        S_.tier[lvl]++;
        break;
      }
      if (rr == Z3_L_UNDEF) {
        break;
      }
      Z3_model m = Z3_solver_get_model(zc, s);
      Z3_model_inc_ref(zc, m);
      std::vector<u64> cand = in;
      for (E v : vars) cand[v->aux] = modelBits(m, tr(t, v), v->bits, false);
      if (check(cand)) {
        in = cand;
        res = 1;
        S_.tier[lvl]++;
        Z3_model_dec_ref(zc, m);
        break;
      }
      last = cand;
      if (t.abs.empty()) {
        // exact encoding, yet native evaluation disagrees: NaN payload bits or an encoding fault
        g_native["model-mismatch"]++;
        if (dbg) fprintf(stderr, "  model mismatch at exact level\n");
        Z3_model_dec_ref(zc, m);
        break;
      }
      // refine: pin the abstract operations to their exact value on the model's operands
      S_.refine++;
      bool added = false;
      Ev ev;
      ev.in = &cand;
      for (E e : t.abs) {
        u64 v[3] = {0, 0, 0};
        const Expr * k[3] = {e->k[0], e->k[1], e->k[2]};
        std::vector<Z3_ast> pre;
        std::vector<Z3_ast> pre2;
        for (int i = 0; i < e->nk; i++) {
          v[i] = modelBits(m, tr(t, e->k[i]), e->k[i]->bits, e->k[i]->fp);
          pre.push_back(Z3_mk_eq(zc, tr(t, e->k[i]), e->k[i]->fp ? zfp(v[i], e->k[i]->bits) : zbv(v[i], e->k[i]->bits)));
        }
        u64 ex = evalOp(e->op, e->aux, e->bits, e->fp, v, k);
        u64 got = modelBits(m, t.memo[e], e->bits, e->fp);
        auto cst = [&](u64 x) { return e->fp ? zfp(x, e->bits) : zbv(x, e->bits); };
        if (ex != got) {
          Z3_solver_assert(zc, s, zimp(zand(pre), Z3_mk_eq(zc, t.memo[e], cst(ex))));
          added = true;
        }
        // also under the real operand values
        u64 rv[3] = {0, 0, 0};
        for (int i = 0; i < e->nk; i++) {
          rv[i] = ev(e->k[i]);
          pre2.push_back(Z3_mk_eq(zc, tr(t, e->k[i]), e->k[i]->fp ? zfp(rv[i], e->k[i]->bits) : zbv(rv[i], e->k[i]->bits)));
        }
        u64 ex2 = evalOp(e->op, e->aux, e->bits, e->fp, rv, k);
        Z3_solver_assert(zc, s, zimp(zand(pre2), Z3_mk_eq(zc, t.memo[e], cst(ex2))));
        if (e->fp) {
          monotone(t, s, e, v, ex);
          monotone(t, s, e, rv, ex2);
        }
      }
      Z3_model_dec_ref(zc, m);
      (void)added;
    }
    if (res < 0 && lvl == 0 && !last.empty() && !hasUF) {
      if (partial(cs, vars, in, last, false, fp, check) || partial(cs, vars, in, last, true, fp, check)) { res = 1; S_.tier[1]++; }
    }
    if (res < 0 && lvl == 2 && opt_cvc5 && !hasUF) {
      std::vector<u64> cand = in;
      int cr = cvc5_query(smt_text.c_str(), vars, cand, abs.empty() ? opt_qtimeout : opt_full);
      if (dbg) fprintf(stderr, "  cvc5 -> %d\n", cr);
      if (cr == 0) { res = 0; S_.tier[3]++; }
      if (cr == 1 && check(cand)) { in = cand; res = 1; S_.tier[3]++; }
    }
    Z3_solver_dec_ref(zc, s);
    Z3_params_dec_ref(zc, p);
  }
  if (res == 0) cachePut(key), S_.unsat++;
  else if (res == 1) S_.sat++;
  else {
    S_.unknown++;
  }
  if (res < 0 || (getenv("SYM_DUMP_SLOW") && now() - t0 > 4)) {
    if (const char * d = getenv("SYM_DUMP_UNKNOWN")) {
      char fn[200];
      snprintf(fn, sizeof fn, "%s/unk_%d_%llu.smt2", d, getpid(), (unsigned long long)S_.queries);
      Tr t;
      t.lvl = 2;
      Z3_solver s = Z3_mk_simple_solver(zc);
      Z3_solver_inc_ref(zc, s);
      for (auto & c : cs) {
        Z3_ast a = tr(t, c.first);
        Z3_solver_assert(zc, s, c.second ? a : znot(a));
      }
      for (auto f : t.side) Z3_solver_assert(zc, s, f);
      if (FILE * f = fopen(fn, "w")) {
        fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(zc, s));
        fclose(f);
      }
    }
  }
  S_.solver_s += now() - t0;
  return res;
}
static int cvc5_query(const char * smt2, std::vector<E> & vars, std::vector<u64> & in, unsigned ms)
{
  int pin[2], pout[2];
  if (pipe(pin) || pipe(pout)) return -1;
  pid_t pid = fork();
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(pin[0], 0);
    dup2(pout[1], 1);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    for (int i = 3; i < 256; i++) close(i);
    char tl[40];
    snprintf(tl, sizeof tl, "--tlimit=%u", ms);
    execlp("cvc5", "cvc5", "--lang=smt2", "--produce-models", "--fp-exp", tl, (char *)nullptr);
    _exit(127);
  }
  close(pin[0]);
  close(pout[1]);
  std::string q = "(set-logic QF_BVFP)\n";
  q += smt2;
  q += "\n(check-sat)\n";
  for (E v : vars) {
    char b[64];
    snprintf(b, sizeof b, "(get-value (v%u_%d))\n", v->aux, v->bits);
    q += b;
  }
  signal(SIGPIPE, SIG_IGN);
  size_t off = 0;
  while (off < q.size()) {
    ssize_t n = write(pin[1], q.data() + off, q.size() - off);
    if (n <= 0) break;
    off += n;
  }
  close(pin[1]);
  std::string out;
  char buf[4096];
  ssize_t n;
  while ((n = read(pout[0], buf, sizeof buf)) > 0) out.append(buf, n);
  close(pout[0]);
  int st;
  waitpid(pid, &st, 0);
  if (out.compare(0, 5, "unsat") == 0) return 0;
  if (getenv("SYM_SOLVE")) { fprintf(stderr, "cvc5 said: %s\n", out.substr(0, 300).c_str()); if (FILE * f = fopen("/tmp/cvc5_q.smt2", "w")) { fputs(q.c_str(), f); fclose(f); } }
  if (out.compare(0, 3, "sat") != 0) return -1;
  for (E v : vars) {
    char b[64];
    snprintf(b, sizeof b, "((v%u_%d ", v->aux, v->bits);
    size_t p = out.find(b);
    if (p == std::string::npos) continue;
    p += strlen(b);
    u64 x = 0;
    if (out.compare(p, 4, "true") == 0) x = 1;
    else if (out.compare(p, 2, "#b") == 0) {
      for (p += 2; out[p] == '0' || out[p] == '1'; p++) x = x * 2 + (out[p] - '0');
    }
    in[v->aux] = x;
  }
  return 1;
}
