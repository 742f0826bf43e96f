#include <functional>
// Symbolic run-time: expression DAG, shadow memory, path condition, exhaustive path exploration
// (one forked process per path) and the solver back end (z3).
#include <algorithm>
#include <array>
#include <pthread.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <time.h>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <cxxabi.h>
#include <typeinfo>
#include <z3.h>
#include "ops.h"
#include "sym.h"

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Expr {
  u32 op, aux;
  u8 bits, fp, nk, known;
  u32 id;
  Expr * k[3];
  u64 val, hash;
};
typedef Expr * E;

extern "C" {
E __sym_args[128];
E __sym_ret[32];
void * __sym_callee;
void * __sym_owner;
}

// ------------------------------------------------------------------ globals of one path
static bool g_on = false;      // recording?
static u64 g_concmis = 0;
static std::vector<u64> g_in;  // current input
struct VarInfo { std::string name; int bits; };
static std::vector<VarInfo> g_vars;
struct PfxEnt { u8 kind; u8 taken; u32 hash; u64 val; u32 site; };  // kind 0 branch, 1 exclude, 2 pin-taken
static std::vector<PfxEnt> g_pfx;
static size_t g_bound = 0;
struct Ent { E cond; u8 taken; u8 kind; u32 site; E pe; u64 pv; };  // kind 0 branch,1 exclude,2 pin,3 assume
static std::vector<Ent> g_path;
static size_t g_pos = 0;  // position in path counted over kinds 0..2
static bool g_diverged = false;
static u64 st_assert_sym = 0, st_assert_conc = 0;
static std::set<std::string> g_cover;
static std::map<std::string, u64> g_native;
static std::string g_viol, g_viol_detail;
static std::map<std::string, u64> g_assert_labels;
static u64 g_pins = 0, g_unsup = 0;

// ------------------------------------------------------------------ expression arena
static char * arena = nullptr, * arena_end = nullptr;
static u32 g_nid = 1;
static E * g_tab = nullptr;
static size_t g_tabsz = 0, g_tabn = 0;
static u64 mix(u64 h)
{
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
static inline u64 msk(int b) { return b >= 64 ? ~0ULL : ((1ULL << b) - 1); }
static inline i64 sx(u64 v, int b) { return b >= 64 ? (i64)v : ((i64)(v << (64 - b))) >> (64 - b); }
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float asf(u64 v) { float f; u32 w = (u32)v; memcpy(&f, &w, 4); return f; }
static u64 frd(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 frf(float f) { u32 v; memcpy(&v, &f, 4); return v; }

static const char * uf_names[] = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log",
                                  "pow", "hypot", "lround", "llround"};
static u64 evalUF(u32 aux, int bits, u64 a, u64 b)
{
  (void)bits;
  double x = asd(a), y = asd(b);
  switch (aux) {
    case 0: return frd(sin(x));
    case 1: return frd(cos(x));
    case 2: return frd(tan(x));
    case 3: return frd(asin(x));
    case 4: return frd(acos(x));
    case 5: return frd(atan(x));
    case 6: return frd(atan2(x, y));
    case 7: return frd(exp(x));
    case 8: return frd(log(x));
    case 9: return frd(pow(x, y));
    case 10: return frd(hypot(x, y));
    case 11: return (u64)lround(x);
    case 12: return (u64)llround(x);
    case 100: return frf(sinf(asf(a)));
    case 101: return frf(cosf(asf(a)));
  }
  return 0;
}

static u64 evalOp(u32 op, u32 aux, int bits, bool fp, const u64 * v, const Expr * const * k)
{
  (void)fp;
  u64 a = v[0], b = v[1];
  int kb = k[0] ? k[0]->bits : bits;
  u64 m = msk(bits);
  auto F = [&](double d, float f) -> u64 { return kb == 64 ? frd(d) : frf(f); };
  switch (op) {
    case OP_ADD: return (a + b) & m;
    case OP_SUB: return (a - b) & m;
    case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? (a / b) & m : m;
    case OP_UREM: return b ? (a % b) & m : a;
    case OP_SDIV: {
      i64 x = sx(a, bits), y = sx(b, bits);
      if (!y) return x >= 0 ? m : 1;
      if (y == -1) return (u64)(-(u64)x) & m;
      return (u64)(x / y) & m;
    }
    case OP_SREM: {
      i64 x = sx(a, bits), y = sx(b, bits);
      if (!y) return a;
      if (y == -1) return 0;
      return (u64)(x % y) & m;
    }
    case OP_SHL: return b >= (u64)bits ? 0 : (a << b) & m;
    case OP_LSHR: return b >= (u64)bits ? 0 : (a >> b) & m;
    case OP_ASHR: return b >= (u64)bits ? (sx(a, bits) < 0 ? m : 0) : (u64)(sx(a, bits) >> b) & m;
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    case OP_EQ: return a == b;
    case OP_ULT: return a < b;
    case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, kb) < sx(b, kb);
    case OP_SLE: return sx(a, kb) <= sx(b, kb);
    case OP_TRUNC: return a & m;
    case OP_ZEXT: return a;
    case OP_SEXT: return (u64)sx(a, kb) & m;
    case OP_EXTRACT: return (a >> aux) & m;
    case OP_CONCAT: return ((a << k[1]->bits) | b) & m;
    case OP_FADD: return F(asd(a) + asd(b), asf(a) + asf(b));
    case OP_FSUB: return F(asd(a) - asd(b), asf(a) - asf(b));
    case OP_FMUL: return F(asd(a) * asd(b), asf(a) * asf(b));
    case OP_FDIV: return F(asd(a) / asd(b), asf(a) / asf(b));
    case OP_FMOD: return F(fmod(asd(a), asd(b)), fmodf(asf(a), asf(b)));
    case OP_FNEG: return a ^ (kb == 64 ? 0x8000000000000000ULL : 0x80000000ULL);
    case OP_FABS: return a & (kb == 64 ? 0x7fffffffffffffffULL : 0x7fffffffULL);
    case OP_FSQRT: return F(sqrt(asd(a)), sqrtf(asf(a)));
    case OP_FFLOOR: return F(floor(asd(a)), floorf(asf(a)));
    case OP_FCEIL: return F(ceil(asd(a)), ceilf(asf(a)));
    case OP_FTRUNC: return F(trunc(asd(a)), truncf(asf(a)));
    case OP_FRINT: return F(rint(asd(a)), rintf(asf(a)));
    case OP_FROUND: return F(round(asd(a)), roundf(asf(a)));
    case OP_FMIN: return F(fmin(asd(a), asd(b)), fminf(asf(a), asf(b)));
    case OP_FMAX: return F(fmax(asd(a), asd(b)), fmaxf(asf(a), asf(b)));
    case OP_COPYSIGN: return F(copysign(asd(a), asd(b)), copysignf(asf(a), asf(b)));
    case OP_FEQ: return kb == 64 ? asd(a) == asd(b) : asf(a) == asf(b);
    case OP_FLT: return kb == 64 ? asd(a) < asd(b) : asf(a) < asf(b);
    case OP_FLE: return kb == 64 ? asd(a) <= asd(b) : asf(a) <= asf(b);
    case OP_FISNAN: return kb == 64 ? std::isnan(asd(a)) : std::isnan(asf(a));
    case OP_FISINF: return kb == 64 ? std::isinf(asd(a)) : std::isinf(asf(a));
    case OP_FPEXT: return frd((double)asf(a));
    case OP_FPTRUNC: return frf((float)asd(a));
    case OP_FPTOSI: {
      double x = kb == 64 ? asd(a) : (double)asf(a);
      if (std::isnan(x) || x >= std::ldexp(1.0, bits - 1) || x < -std::ldexp(1.0, bits - 1) - (bits < 53 ? 0.999999 : 0))
        return (1ULL << (bits - 1)) & m;
      return (u64)(i64)x & m;
    }
    case OP_FPTOUI: {
      double x = kb == 64 ? asd(a) : (double)asf(a);
      if (std::isnan(x) || x >= std::ldexp(1.0, bits) || x <= -1) return 0;
      return (u64)x & m;
    }
    case OP_SITOFP: return bits == 64 ? frd((double)sx(a, kb)) : frf((float)sx(a, kb));
    case OP_UITOFP: return bits == 64 ? frd((double)a) : frf((float)a);
    case OP_F2I: return a;
    case OP_I2F: return a;
    case OP_ITE: return v[0] ? v[1] : v[2];
    case OP_UF: return evalUF(aux, bits, a, b);
  }
  fprintf(stderr, "evalOp: bad op %u\n", op);
  _exit(99);
}

static E alloc_expr()
{
  if (arena + sizeof(Expr) > arena_end) {
    size_t n = 1 << 24;
    arena = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena_end = arena + n;
  }
  E e = (E)arena;
  arena += sizeof(Expr);
  return e;
}
static E mk_raw(u32 op, u32 aux, int bits, bool fp, int nk, E a, E b, E c, u64 val)
{
  u64 h = mix(op * 1000003ULL + aux * 7919ULL + bits * 31 + fp);
  if (op == OP_CONST) h = mix(h ^ val);
  E ks[3] = {a, b, c};
  for (int i = 0; i < nk; i++) h = mix(h * 31 + ks[i]->hash);
  if (!g_tab) {
    g_tabsz = 1 << 14;
    g_tab = (E *)calloc(g_tabsz, sizeof(E));
  }
  if (g_tabn * 2 > g_tabsz) {
    size_t nsz = g_tabsz * 2;
    E * nt = (E *)calloc(nsz, sizeof(E));
    for (size_t i = 0; i < g_tabsz; i++)
      if (g_tab[i]) {
        size_t p = g_tab[i]->hash & (nsz - 1);
        while (nt[p]) p = (p + 1) & (nsz - 1);
        nt[p] = g_tab[i];
      }
    free(g_tab);
    g_tab = nt;
    g_tabsz = nsz;
  }
  size_t p = h & (g_tabsz - 1);
  while (g_tab[p]) {
    E e = g_tab[p];
    if (e->hash == h && e->op == op && e->aux == aux && e->bits == bits && e->fp == fp &&
        e->nk == nk && (nk < 1 || e->k[0] == a) && (nk < 2 || e->k[1] == b) &&
        (nk < 3 || e->k[2] == c) && (op != OP_CONST || e->val == val))
      return e;
    p = (p + 1) & (g_tabsz - 1);
  }
  E e = alloc_expr();
  e->op = op; e->aux = aux; e->bits = bits; e->fp = fp; e->nk = nk; e->known = 0;
  e->k[0] = a; e->k[1] = b; e->k[2] = c;
  e->val = val; e->hash = h; e->id = g_nid++;
  g_tab[p] = e;
  g_tabn++;
  return e;
}
static E mkC(u64 v, int bits, bool fp = false)
{
  return mk_raw(OP_CONST, 0, bits, fp, 0, nullptr, nullptr, nullptr, v & msk(bits));
}
static inline bool isC(E e) { return e->op == OP_CONST; }
static inline bool fpNan(E e) { return e->bits == 64 ? std::isnan(asd(e->val)) : std::isnan(asf((u32)e->val)); }
static inline bool fpInf(E e, bool neg) { return e->val == (e->bits == 64 ? (neg ? 0xfff0000000000000ULL : 0x7ff0000000000000ULL) : (neg ? 0xff800000u : 0x7f800000u)); }
static E mkNot(E a);
static E mk(u32 op, u32 aux, int bits, bool fp, E a, E b = nullptr, E c = nullptr)
{
  int nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  u64 v[3] = {a ? a->val : 0, b ? b->val : 0, c ? c->val : 0};
  const Expr * ks[3] = {a, b, c};
  u64 val = evalOp(op, aux, bits, fp, v, ks);
  if ((!a || isC(a)) && (!b || isC(b)) && (!c || isC(c))) return mkC(val, bits, fp);
  switch (op) {
    case OP_AND:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == msk(bits)) return a;
        if (b->val == 1 && a->op == OP_ZEXT && a->k[0]->bits == 1) return a;
        // mask of low bits of a zext
        if (a->op == OP_ZEXT && (b->val & msk(a->k[0]->bits)) == msk(a->k[0]->bits)) return a;
      }
      if (a == b) return a;
      break;
    case OP_OR:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val == msk(bits)) return b;
      }
      if (a == b) return a;
      break;
    case OP_XOR:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->op == OP_XOR && isC(a->k[1])) return mk(OP_XOR, 0, bits, false, a->k[0], mkC(a->k[1]->val ^ b->val, bits));
        if (b->val == 1 && bits > 1 && a->op == OP_ZEXT && a->k[0]->bits == 1)
          return mk(OP_ZEXT, 0, bits, false, mkNot(a->k[0]));
      }
      if (a == b) return mkC(0, bits);
      break;
    case OP_ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->op == OP_ADD && isC(a->k[1]))
          return mk(OP_ADD, 0, bits, false, a->k[0], mkC(a->k[1]->val + b->val, bits));
      }
      break;
    case OP_SUB:
      if (isC(b)) return mk(OP_ADD, 0, bits, false, a, mkC(0 - b->val, bits));
      if (a == b) return mkC(0, bits);
      break;
    case OP_MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
      }
      break;
    case OP_SHL: case OP_LSHR: case OP_ASHR:
      if (isC(b) && b->val == 0) return a;
      if (op == OP_LSHR && isC(b) && b->val < (u64)bits)
        return mk(OP_ZEXT, 0, bits, false, mk(OP_EXTRACT, b->val, bits - b->val, false, a));
      break;
    case OP_EQ:
      if (isC(a)) std::swap(a, b);
      if (a == b) return mkC(1, 1);
      if (a->bits == 1 && isC(b)) return b->val ? a : mkNot(a);
      if (isC(b)) {
        if (a->op == OP_ZEXT || a->op == OP_SEXT) {
          E k = a->k[0];
          u64 lo = b->val & msk(k->bits);
          u64 back = a->op == OP_ZEXT ? lo : (u64)sx(lo, k->bits) & msk(a->bits);
          if (back != b->val) return mkC(0, 1);
          return mk(OP_EQ, 0, 1, false, k, mkC(lo, k->bits));
        }
        if (a->op == OP_ITE && !a->fp) {
          E t = a->k[1], f = a->k[2];
          if (isC(t) && isC(f)) {
            bool te = t->val == b->val, fe = f->val == b->val;
            if (te && fe) return mkC(1, 1);
            if (!te && !fe) return mkC(0, 1);
            return te ? a->k[0] : mkNot(a->k[0]);
          }
          if (isC(t) && t->val != b->val)
            return mk(OP_AND, 0, 1, false, mkNot(a->k[0]), mk(OP_EQ, 0, 1, false, f, b));
          if (isC(f) && f->val != b->val)
            return mk(OP_AND, 0, 1, false, a->k[0], mk(OP_EQ, 0, 1, false, t, b));
        }
        if (a->op == OP_ADD && isC(a->k[1]))
          return mk(OP_EQ, 0, 1, false, a->k[0], mkC(b->val - a->k[1]->val, a->bits));
        if (a->op == OP_XOR && isC(a->k[1]))
          return mk(OP_EQ, 0, 1, false, a->k[0], mkC(b->val ^ a->k[1]->val, a->bits));
      }
      break;
    case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE:
      if (a == b) return mkC(op == OP_ULE || op == OP_SLE, 1);
      if (op == OP_ULT && isC(b) && b->val == 0) return mkC(0, 1);
      if (op == OP_ULT && isC(b) && b->val == 1) return mk(OP_EQ, 0, 1, false, a, mkC(0, a->bits));
      if (op == OP_ULT && isC(a) && a->val == 0)
        return mkNot(mk(OP_EQ, 0, 1, false, b, mkC(0, b->bits)));
      if ((op == OP_SLT) && isC(b) && b->val == 0 && a->op == OP_ZEXT) return mkC(0, 1);
      break;
    case OP_FEQ:
      if ((isC(a) && fpNan(a)) || (isC(b) && fpNan(b))) return mkC(0, 1);
      if (a->id > b->id) std::swap(a, b);
      break;
    case OP_FLT:
      if (a == b) return mkC(0, 1);
      if (isC(a) && (fpNan(a) || fpInf(a, false))) return mkC(0, 1);
      if (isC(b) && (fpNan(b) || fpInf(b, true))) return mkC(0, 1);
      break;
    case OP_FLE:
      if ((isC(a) && fpNan(a)) || (isC(b) && fpNan(b))) return mkC(0, 1);
      break;
    // exact IEEE identities; NaN payloads are not modelled
    case OP_FADD:
      if (b->op == OP_FNEG) return mk(OP_FSUB, 0, bits, fp, a, b->k[0]);
      if (a->op == OP_FNEG) return mk(OP_FSUB, 0, bits, fp, b, a->k[0]);
      if (a->id > b->id) std::swap(a, b);
      break;
    case OP_FSUB:
      if (b->op == OP_FNEG) return mk(OP_FADD, 0, bits, fp, a, b->k[0]);
      break;
    case OP_FMUL:
      if (a->op == OP_FNEG) return mk(OP_FNEG, 0, bits, fp, mk(OP_FMUL, 0, bits, fp, a->k[0], b));
      if (b->op == OP_FNEG) return mk(OP_FNEG, 0, bits, fp, mk(OP_FMUL, 0, bits, fp, a, b->k[0]));
      if (a->id > b->id) std::swap(a, b);
      break;
    case OP_TRUNC: return mk(OP_EXTRACT, 0, bits, false, a);
    case OP_ZEXT:
      if (a->bits == bits) return a;
      if (a->op == OP_ZEXT) a = a->k[0];
      break;
    case OP_SEXT:
      if (a->bits == bits) return a;
      if (a->op == OP_ZEXT) return mk(OP_ZEXT, 0, bits, false, a->k[0]);
      break;
    case OP_EXTRACT:
      if (aux == 0 && a->bits == bits) return a;
      if (a->op == OP_EXTRACT) return mk(OP_EXTRACT, aux + a->aux, bits, false, a->k[0]);
      if (a->op == OP_CONCAT) {
        int lb = a->k[1]->bits;
        if ((int)aux + bits <= lb) return mk(OP_EXTRACT, aux, bits, false, a->k[1]);
        if ((int)aux >= lb) return mk(OP_EXTRACT, aux - lb, bits, false, a->k[0]);
      }
      if (a->op == OP_ZEXT || a->op == OP_SEXT) {
        int kb = a->k[0]->bits;
        if ((int)aux + bits <= kb) return mk(OP_EXTRACT, aux, bits, false, a->k[0]);
        if (a->op == OP_ZEXT && (int)aux >= kb) return mkC(0, bits);
        if (a->op == OP_ZEXT && aux == 0) return mk(OP_ZEXT, 0, bits, false, a->k[0]);
        if (a->op == OP_SEXT && aux == 0) return mk(OP_SEXT, 0, bits, false, a->k[0]);
      }
      if (aux == 0 && (a->op == OP_AND || a->op == OP_OR || a->op == OP_XOR))
        return mk(a->op, 0, bits, false, mk(OP_EXTRACT, 0, bits, false, a->k[0]),
                  mk(OP_EXTRACT, 0, bits, false, a->k[1]));
      if (a->op == OP_ITE)
        return mk(OP_ITE, 0, bits, false, a->k[0], mk(OP_EXTRACT, aux, bits, false, a->k[1]),
                  mk(OP_EXTRACT, aux, bits, false, a->k[2]));
      break;
    case OP_CONCAT:
      if (isC(a) && a->val == 0) return mk(OP_ZEXT, 0, bits, false, b);
      if (a->op == OP_EXTRACT && b->op == OP_EXTRACT && a->k[0] == b->k[0] &&
          a->aux == b->aux + b->bits)
        return mk(OP_EXTRACT, b->aux, bits, false, a->k[0]);
      break;
    case OP_F2I:
      if (a->op == OP_I2F) return a->k[0];
      break;
    case OP_I2F:
      if (a->op == OP_F2I) return a->k[0];
      break;
    case OP_FNEG:
      if (a->op == OP_FNEG) return a->k[0];
      break;
    case OP_FABS:
      if (a->op == OP_FABS) return a;
      if (a->op == OP_FNEG) return mk(OP_FABS, 0, bits, true, a->k[0]);
      break;
    case OP_ITE:
      if (isC(a)) return a->val ? b : c;
      if (b->op == OP_ITE && b->k[0] == a) b = b->k[1];
      if (c->op == OP_ITE && c->k[0] == a) c = c->k[2];
      if (b == c) return b;
      if (a->op == OP_XOR && isC(a->k[1])) return mk(OP_ITE, 0, bits, fp, a->k[0], c, b);
      if (bits == 1 && !fp) {
        if (isC(b) && isC(c)) return b->val ? a : mkNot(a);
        if (isC(b)) return b->val ? mk(OP_OR, 0, 1, false, a, c) : mk(OP_AND, 0, 1, false, mkNot(a), c);
        if (isC(c)) return c->val ? mk(OP_OR, 0, 1, false, mkNot(a), b) : mk(OP_AND, 0, 1, false, a, b);
      }
      if (!fp && isC(b) && isC(c) && b->val == 1 && c->val == 0) return mk(OP_ZEXT, 0, bits, false, a);
      break;
  }
  nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  if ((!a || isC(a)) && (!b || isC(b)) && (!c || isC(c))) return mkC(val, bits, fp);
  return mk_raw(op, aux, bits, fp, nk, a, b, c, val);
}
static E mkNot(E a) { return mk(OP_XOR, 0, 1, false, a, mkC(1, 1)); }
static E b1(u32 op, E a, E b) { return mk(op, 0, 1, false, a, b); }

static inline bool K_fp(u32 k) { return k & 0x1000; }
static inline int K_bits(u32 k) { return k & 0xff; }
static E shd(E e, u64 v, u32 k) { return e ? e : mkC(v, K_bits(k), K_fp(k)); }
// an operand may carry a shadow of the wrong sort when a pointer/int/fp pun slipped through
static E fix(E e, u32 k)
{
  if (e->bits != K_bits(k)) {
    if (e->bits > K_bits(k)) return mk(OP_EXTRACT, 0, K_bits(k), false, e->fp ? mk(OP_F2I, 0, e->bits, false, e) : e);
    return mk(OP_ZEXT, 0, K_bits(k), false, e);
  }
  if (e->fp != K_fp(k)) return mk(K_fp(k) ? OP_I2F : OP_F2I, 0, e->bits, K_fp(k), e);
  return e;
}
static void checkval(E e, u64 v)
{
  if (e && e->val != (v & msk(e->bits))) {
    if (e->fp) {
      if (e->bits == 64 && std::isnan(asd(e->val)) && std::isnan(asd(v))) return;
      if (e->bits == 32 && std::isnan(asf(e->val)) && std::isnan(asf(v))) return;
    }
    g_concmis++;
    if (getenv("SYM_DEBUG"))
      fprintf(stderr, "MISMATCH op %u bits %d expr %llx native %llx\n", e->op, e->bits,
              (unsigned long long)e->val, (unsigned long long)v);
  }
}

// ------------------------------------------------------------------ shadow memory
struct Page { E e[4096]; u8 ix[4096]; };
static std::unordered_map<u64, Page *> * g_pages;
static u8 g_bloom[65536];
static u64 g_lastpn = ~0ULL;
static Page * g_lastp = nullptr;
static inline bool maybe(u64 pn) { return g_bloom[pn & 0xffff]; }
static Page * page(u64 pn, bool create)
{
  if (pn == g_lastpn) return g_lastp;
  if (!create && !maybe(pn)) return nullptr;
  auto it = g_pages->find(pn);
  Page * p = nullptr;
  if (it != g_pages->end()) p = it->second;
  else if (create) {
    p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    (*g_pages)[pn] = p;
    g_bloom[pn & 0xffff] = 1;
  } else return nullptr;
  g_lastpn = pn;
  g_lastp = p;
  return p;
}
static inline E shGet(u64 a, u8 & ix)
{
  Page * p = page(a >> 12, false);
  if (!p) return nullptr;
  E e = p->e[a & 4095];
  if (!e) return nullptr;
  ix = p->ix[a & 4095];
  if (((e->val >> (8 * ix)) & 0xff) != *(u8 *)a) {  // stale (native code overwrote it)
    p->e[a & 4095] = nullptr;
    return nullptr;
  }
  return e;
}
// Native code reuses dead stack memory without our noticing: what was left there is forgotten before native calls.
static u64 g_stktop, g_stkmin = ~0ULL;
static std::vector<u64> * g_stk;
static void stkInit()
{
  pthread_attr_t at;
  void * b = nullptr;
  size_t n = 0;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &b, &n);
  pthread_attr_destroy(&at);
  g_stktop = (u64)b + n;
  g_stk = new std::vector<u64>;
}
static inline void shSet(u64 a, E e, u8 ix)
{
  Page * p = page(a >> 12, e != nullptr);
  if (!p) return;
  if (e && !p->e[a & 4095] && a < g_stktop && a >= (u64)__builtin_frame_address(0)) {
    g_stk->push_back(a);
    g_stkmin = std::min(g_stkmin, a);
  }
  p->e[a & 4095] = e;
  p->ix[a & 4095] = ix;
}
static void shClear(u64 a, u64 n)
{
  u64 e = a + n;
  while (a < e) {
    u64 pe = (a | 4095) + 1;
    u64 c = std::min(pe, e) - a;
    Page * p = maybe(a >> 12) ? page(a >> 12, false) : nullptr;
    if (p) memset(&p->e[a & 4095], 0, c * sizeof(E));
    a += c;
  }
}
static E byteOf(E e, u8 ix)
{
  if (e->fp) e = mk(OP_F2I, 0, e->bits, false, e);
  return mk(OP_EXTRACT, 8 * ix, 8, false, e);
}
static E memByte(u64 a)  // null if concrete
{
  u8 ix;
  E e = shGet(a, ix);
  return e ? byteOf(e, ix) : nullptr;
}

extern "C" {
void __sym_clear(void * p, u64 n)
{
  if (g_on) shClear((u64)p, n);
}
__attribute__((noinline)) void __sym_ext()
{
  u64 sp = (u64)__builtin_frame_address(0);
  if (g_stkmin >= sp || !g_on) return;
  u64 mn = ~0ULL;
  size_t w = 0;
  for (u64 a : *g_stk) {
    if (a < sp) { if (Page * p = page(a >> 12, false)) p->e[a & 4095] = nullptr; }
    else { Page * p = page(a >> 12, false); if (p && p->e[a & 4095]) { (*g_stk)[w++] = a; mn = std::min(mn, a); } }
  }
  g_stk->resize(w);
  g_stkmin = mn;
}
void __sym_branch(E e, u64 taken, u32 site);
void __sym_pin(E e, u64 v, u32 why);

E __sym_load(void * ptr, u32 size, u32 kind, u64 v)
{
  u64 a = (u64)ptr;
  if (!maybe(a >> 12) && !maybe((a + size - 1) >> 12)) return nullptr;
  if (!g_on) return nullptr;
  bool any = false;
  E es[16];
  u8 ix[16];
  if (size > 16) return nullptr;
  for (u32 i = 0; i < size; i++) {
    es[i] = shGet(a + i, ix[i]);
    any |= es[i] != nullptr;
  }
  if (!any) return nullptr;
  if (!kind) {  // unsupported type: concretise
    for (u32 i = 0; i < size; i++)
      if (es[i]) {
        E b = byteOf(es[i], ix[i]);
        g_unsup++;
        __sym_pin(b, b->val, PIN_UNSUP);
      }
    return nullptr;
  }
  E r = nullptr;
  E e0 = es[0];
  bool whole = e0 && e0->bits == 8 * size;
  for (u32 i = 0; whole && i < size; i++) whole = es[i] == e0 && ix[i] == i;
  if (whole) r = e0;
  else {
    for (u32 i = 0; i < size; i++) {
      E b = es[i] ? byteOf(es[i], ix[i]) : mkC(*(u8 *)(a + i), 8);
      r = r ? mk(OP_CONCAT, 0, r->bits + 8, false, b, r) : b;
    }
  }
  r = fix(r, kind);
  if (isC(r)) return nullptr;
  checkval(r, v);
  return r;
}
void __sym_store(void * ptr, E e, u32 size)
{
  u64 a = (u64)ptr;
  if (!g_on) return;
  if (!e || isC(e)) {
    if (!maybe(a >> 12) && !maybe((a + size - 1) >> 12)) return;
    shClear(a, size);
    return;
  }
  if (e->bits < 8 * size) e = mk(OP_ZEXT, 0, 8 * size, false, e);
  for (u32 i = 0; i < size; i++) shSet(a + i, e, i);
}
void __sym_memcpy(void * d, void * s, u64 n)
{
  if (!g_on || !n) return;
  u64 a = (u64)s, b = (u64)d;
  bool any = false;
  for (u64 p = a >> 12; p <= (a + n - 1) >> 12; p++) any |= maybe(p);
  if (!any) {
    shClear(b, n);
    return;
  }
  std::vector<std::pair<E, u8>> t(n);
  for (u64 i = 0; i < n; i++) {
    u8 ix = 0;
    E e = maybe((a + i) >> 12) ? shGet(a + i, ix) : nullptr;
    t[i] = {e, ix};
  }
  for (u64 i = 0; i < n; i++) shSet(b + i, t[i].first, t[i].second);
}
void __sym_memset(void * d, E e, u64 n)
{
  if (!g_on) return;
  shClear((u64)d, n);
  if (e && !isC(e))
    for (u64 i = 0; i < n; i++) shSet((u64)d + i, e, 0);
}
void __sym_byval(void * dst, void * src, u64 n)
{
  if (!g_on) return;
  if (src) __sym_memcpy(dst, src, n);
  else shClear((u64)dst, n);
}

// ------------------------------------------------------------------ expression hooks
E __sym_bin(u32 op, u32 kind, E a, u64 va, E b, u64 vb, u64 vr)
{
  if (!a && !b) return nullptr;
  if (!g_on) return nullptr;
  int bits = K_bits(kind);
  va &= msk(bits);
  vb &= msk(bits);
  E x = fix(shd(a, va, kind), kind), y = fix(shd(b, vb, kind), kind), r = nullptr;
  switch (op) {
    case OP_UMIN: r = mk(OP_ITE, 0, bits, false, b1(OP_ULT, x, y), x, y); break;
    case OP_UMAX: r = mk(OP_ITE, 0, bits, false, b1(OP_ULT, x, y), y, x); break;
    case OP_SMIN: r = mk(OP_ITE, 0, bits, false, b1(OP_SLT, x, y), x, y); break;
    case OP_SMAX: r = mk(OP_ITE, 0, bits, false, b1(OP_SLT, x, y), y, x); break;
    case OP_USUBSAT:
      r = mk(OP_ITE, 0, bits, false, b1(OP_ULT, x, y), mkC(0, bits), mk(OP_SUB, 0, bits, false, x, y));
      break;
    case OP_ROTL: {
      u64 s = vb % bits;
      if (!s) r = x;
      else
        r = mk(OP_CONCAT, 0, bits, false, mk(OP_EXTRACT, 0, bits - s, false, x),
               mk(OP_EXTRACT, bits - s, s, false, x));
      break;
    }
    case OP_UADDO: r = b1(OP_ULT, mk(OP_ADD, 0, bits, false, x, y), x); break;
    case OP_USUBO: r = b1(OP_ULT, x, y); break;
    case OP_SADDO: {
      E s = mk(OP_ADD, 0, bits, false, x, y), z = mkC(0, bits);
      E sa = b1(OP_SLT, x, z), sb = b1(OP_SLT, y, z), ss = b1(OP_SLT, s, z);
      r = b1(OP_AND, mkNot(b1(OP_XOR, sa, sb)), b1(OP_XOR, sa, ss));
      break;
    }
    case OP_SSUBO: {
      E s = mk(OP_SUB, 0, bits, false, x, y), z = mkC(0, bits);
      E sa = b1(OP_SLT, x, z), sb = b1(OP_SLT, y, z), ss = b1(OP_SLT, s, z);
      r = b1(OP_AND, b1(OP_XOR, sa, sb), b1(OP_XOR, sa, ss));
      break;
    }
    case OP_UMULO:
    case OP_SMULO: {
      if (bits <= 32) {
        u32 ex = op == OP_UMULO ? OP_ZEXT : OP_SEXT;
        E w = mk(OP_MUL, 0, 2 * bits, false, mk(ex, 0, 2 * bits, false, x), mk(ex, 0, 2 * bits, false, y));
        E lo = mk(OP_EXTRACT, 0, bits, false, w);
        r = mkNot(b1(OP_EQ, w, mk(ex, 0, 2 * bits, false, lo)));
      } else {
        // 64-bit: y == 0 or (x*y)/y == x
        E p = mk(OP_MUL, 0, bits, false, x, y);
        E z = b1(OP_EQ, y, mkC(0, bits));
        E q = mk(op == OP_UMULO ? OP_UDIV : OP_SDIV, 0, bits, false, p, y);
        r = b1(OP_AND, mkNot(z), mkNot(b1(OP_EQ, q, x)));
        if (op == OP_SMULO) {
          E m1 = mkC(~0ULL, bits), mn = mkC(1ULL << (bits - 1), bits);
          r = b1(OP_OR, r, b1(OP_AND, b1(OP_EQ, y, m1), b1(OP_EQ, x, mn)));
        }
      }
      break;
    }
    default: r = mk(op, 0, bits, K_fp(kind), x, y);
  }
  checkval(r, vr);
  return isC(r) ? nullptr : r;
}
static E fpcls(E x, u32 m)
{
  // LLVM fpclass mask: 0x3 nan, 0x4 -inf, 0x8 -normal, 0x10 -subnormal, 0x20 -zero, 0x40 +zero,
  // 0x80 +subnormal, 0x100 +normal, 0x200 +inf
  E bitsx = mk(OP_F2I, 0, x->bits, false, x);
  E r = mkC(0, 1);
  E nan = mk(OP_FISNAN, 0, 1, false, x);
  if (m & 3) {
    if ((m & 3) == 3) r = nan;
    else g_unsup++;
  }
  E neg = mk(OP_EXTRACT, x->bits - 1, 1, false, bitsx);
  E inf = mk(OP_FISINF, 0, 1, false, x);
  E zero = b1(OP_FEQ, x, mkC(0, x->bits, true));
  E minn = mkC(x->bits == 64 ? 0x0010000000000000ULL : 0x00800000ULL, x->bits, true);
  E ab = mk(OP_FABS, 0, x->bits, true, x);
  E sub = b1(OP_AND, b1(OP_FLT, ab, minn), mkNot(zero));
  E nrm = b1(OP_AND, b1(OP_FLE, minn, ab), mkNot(inf));
  E cls[4] = {inf, nrm, sub, zero};
  u32 nb[4] = {0x4, 0x8, 0x10, 0x20}, pb[4] = {0x200, 0x100, 0x80, 0x40};
  for (int i = 0; i < 4; i++) {
    bool n = m & nb[i], p = m & pb[i];
    E c = nullptr;
    if (n && p) c = cls[i];
    else if (n) c = b1(OP_AND, cls[i], neg);
    else if (p) c = b1(OP_AND, cls[i], mkNot(neg));
    if (c) r = b1(OP_OR, r, c);
  }
  return r;
}
E __sym_un(u32 op, u32 kind, u32 kind2, E a, u64 va, u64 vr)
{
  if (!a || !g_on) return nullptr;
  E x = fix(a, kind), r = nullptr;
  int bits = K_bits(kind2);
  u32 sub = op >> 8;
  op &= 0xff;
  switch (op) {
    case OP_FPCLASS: r = fpcls(x, sub); break;
    case OP_IABS:
      r = mk(OP_ITE, 0, bits, false, b1(OP_SLT, x, mkC(0, bits)), mk(OP_SUB, 0, bits, false, mkC(0, bits), x), x);
      break;
    case OP_BSWAP:
      for (int i = 0; i < bits / 8; i++) {
        E b = mk(OP_EXTRACT, 8 * i, 8, false, x);
        r = r ? mk(OP_CONCAT, 0, r->bits + 8, false, r, b) : b;
      }
      break;
    case OP_FPTOSI:
    case OP_FPTOUI: {
      // stay inside the defined range symbolically; anything else is concretised
      bool s = op == OP_FPTOSI;
      double lo = s ? -std::ldexp(1.0, bits - 1) : 0.0, hi = std::ldexp(1.0, bits - (s ? 1 : 0));
      E l, h;
      if (x->bits == 64) {
        double l2 = s ? (bits < 53 ? lo - 1.0 : lo) : -1.0;
        h = b1(OP_FLT, x, mkC(frd(hi), 64, true));
        l = (s && bits >= 53) ? b1(OP_FLE, mkC(frd(l2), 64, true), x) : b1(OP_FLT, mkC(frd(l2), 64, true), x);
      } else {
        float l2 = s ? (float)lo : -1.0f;
        h = b1(OP_FLT, x, mkC(frf((float)hi), 32, true));
        l = s ? b1(OP_FLE, mkC(frf(l2), 32, true), x) : b1(OP_FLT, mkC(frf(l2), 32, true), x);
      }
      E in = b1(OP_AND, l, h);
      bool iv = in->val;
      __sym_branch(in, iv, 0xfeed);
      if (!iv) {
        // out of range (or NaN) conversion: concretise the result class via the operand
        __sym_pin(x, va, PIN_CONV);
        return nullptr;
      }
      r = mk(op, 0, bits, false, x);
      break;
    }
    default: r = mk(op, 0, bits, K_fp(kind2), x);
  }
  checkval(r, vr);
  return isC(r) ? nullptr : r;
}
static E mkCmp(u32 pred, E x, E y)
{
  bool fp = x->fp;
  (void)fp;
  E nx, ny;
  switch (pred) {
    case 32: return b1(OP_EQ, x, y);
    case 33: return mkNot(b1(OP_EQ, x, y));
    case 34: return b1(OP_ULT, y, x);
    case 35: return b1(OP_ULE, y, x);
    case 36: return b1(OP_ULT, x, y);
    case 37: return b1(OP_ULE, x, y);
    case 38: return b1(OP_SLT, y, x);
    case 39: return b1(OP_SLE, y, x);
    case 40: return b1(OP_SLT, x, y);
    case 41: return b1(OP_SLE, x, y);
    // fcmp: 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true
    case 0: return mkC(0, 1);
    case 15: return mkC(1, 1);
    case 1: return b1(OP_FEQ, x, y);
    case 2: return b1(OP_FLT, y, x);
    case 3: return b1(OP_FLE, y, x);
    case 4: return b1(OP_FLT, x, y);
    case 5: return b1(OP_FLE, x, y);
    case 6: return b1(OP_OR, b1(OP_FLT, x, y), b1(OP_FLT, y, x));
    case 7:
    case 8: {
      nx = mk(OP_FISNAN, 0, 1, false, x);
      ny = mk(OP_FISNAN, 0, 1, false, y);
      E u = nx == ny ? nx : b1(OP_OR, nx, ny);
      return pred == 8 ? u : mkNot(u);
    }
    case 9: return mkNot(b1(OP_OR, b1(OP_FLT, x, y), b1(OP_FLT, y, x)));
    case 10: return mkNot(b1(OP_FLE, x, y));
    case 11: return mkNot(b1(OP_FLT, x, y));
    case 12: return mkNot(b1(OP_FLE, y, x));
    case 13: return mkNot(b1(OP_FLT, y, x));
    case 14: return mkNot(b1(OP_FEQ, x, y));
  }
  return nullptr;
}
E __sym_cmp(u32 pred, u32 kind, E a, u64 va, E b, u64 vb, u64 vr)
{
  if (!a && !b) return nullptr;
  if (!g_on) return nullptr;
  va &= msk(K_bits(kind));
  vb &= msk(K_bits(kind));
  E x = fix(shd(a, va, kind), kind), y = fix(shd(b, vb, kind), kind);
  E r = mkCmp(pred, x, y);
  checkval(r, vr);
  return isC(r) ? nullptr : r;
}
E __sym_sel(E c, u64 vc, u32 kind, E a, u64 va, E b, u64 vb)
{
  if (!c || !g_on) return vc & 1 ? a : b;
  va &= msk(K_bits(kind));
  vb &= msk(K_bits(kind));
  E x = fix(shd(a, va, kind), kind), y = fix(shd(b, vb, kind), kind);
  E r = mk(OP_ITE, 0, K_bits(kind), K_fp(kind), fix(c, 1), x, y);
  return isC(r) ? nullptr : r;
}

// ------------------------------------------------------------------ path condition
static void pushEnt(E c, bool taken, u8 kind, u32 site, E pe, u64 pv)
{
  {
    if (g_pos < g_pfx.size()) {
      auto & p = g_pfx[g_pos];
      if (p.kind != kind || p.taken != taken || p.hash != (u32)c->hash) {
        if (!g_diverged && getenv("SYM_DEBUG"))
        {
          std::function<void(E, int)> dp = [&](E e, int d) { if (d > 12) return; fprintf(stderr, "%*sop %d bits %d fp %d aux %d val %llx\n", d, "", e->op, e->bits, e->fp, e->aux, (unsigned long long)e->val); for (int q = 0; q < e->nk; q++) dp(e->k[q], d + 1); };
          dp(c, 0);
          fprintf(stderr, "site %x expected hash %x site %x\n", site, p.hash, p.site);
          for (size_t v = 0; v < g_vars.size(); v++) fprintf(stderr, " %s=%llx", g_vars[v].name.c_str(), (unsigned long long)(v < g_in.size() ? g_in[v] : 0));
        }
        if (!g_diverged && getenv("SYM_DEBUG"))
          fprintf(stderr, "DIVERGE at %zu kind %d/%d taken %d/%d\n", g_pos, p.kind, kind, p.taken, taken);
        g_diverged = true;
      }
    }
    g_pos++;
  }
  g_path.push_back({c, (u8)taken, kind, site, pe, pv});
}
static void setKnown(E c, bool t)
{
  c->known = t ? 1 : 2;
  // conjunctions / disjunctions propagate
  if (t && c->op == OP_AND && c->bits == 1) { setKnown(c->k[0], true); setKnown(c->k[1], true); }
  if (!t && c->op == OP_OR && c->bits == 1) { setKnown(c->k[0], false); setKnown(c->k[1], false); }
  if (c->op == OP_XOR && c->bits == 1 && isC(c->k[1])) setKnown(c->k[0], t ^ (c->k[1]->val & 1));
}
static size_t g_maxpath = 200000;
[[noreturn]] static void finish();
void __sym_branch(E e, u64 taken, u32 site)
{
  if (!e || !g_on) return;
  taken &= 1;
  e = fix(e, 1);
  if (e->val != taken) g_concmis++;
  while (e->op == OP_XOR && isC(e->k[1])) {
    e = e->k[0];
    taken ^= 1;
  }
  if (isC(e)) return;
  if (e->known) {
    return;
  }
  // a conjunction known to be decided by parts
  setKnown(e, taken);
  pushEnt(e, taken, 0, site, nullptr, 0);
  if (g_path.size() > g_maxpath) {
    g_native["path-length-cap"]++;
    finish();
  }
}
void __sym_pin(E e, u64 v, u32 why)
{
  if (!e || !g_on || isC(e)) return;
  v = e->val;
  if (e->bits == 1 && !e->fp) {
    __sym_branch(e, v, why);
    return;
  }
  if (e->fp) e = mk(OP_F2I, 0, e->bits, false, e);
  while (e->op == OP_ZEXT || e->op == OP_SEXT) e = e->k[0];
  v = e->val;
  if (e->bits == 1) {
    __sym_branch(e, v, why);
    return;
  }
  // a chain "base + const" pins the base
  if (e->op == OP_ADD && isC(e->k[1])) e = e->k[0], v = e->val;
  if (e->op == OP_ITE && isC(e->k[1]) && isC(e->k[2])) {
    __sym_branch(e->k[0], e->k[0]->val, why);
    return;
  }
  E c = b1(OP_EQ, e, mkC(v, e->bits));
  if (isC(c) || c->known == 1) return;
  g_pins++;
  if (getenv("SYM_PINS")) fprintf(stderr, "pin why=%u bits=%d v=%llx callee=%p\n", why, e->bits, (unsigned long long)v, __sym_callee);
  while (g_pos < g_pfx.size() && g_pfx[g_pos].kind == 1) {
    E x = b1(OP_EQ, e, mkC(g_pfx[g_pos].val, e->bits));
    pushEnt(x, false, 1, why, e, g_pfx[g_pos].val);
  }
  setKnown(c, true);
  pushEnt(c, true, 2, why, e, v);
}
void __sym_unsup(u32 opc, E e, u64 v)
{
  if (!e || !g_on || isC(e)) return;
  g_unsup++;
  char b[40];
  snprintf(b, sizeof b, "unsupported-opcode-%u", opc);
  g_native[b]++;
  __sym_pin(e, v, PIN_UNSUP);
}
void __sym_fn(void *, void *) {}
extern "C" const char * __sym_symname(void * p);
void __sym_post(void * fn, u32 n)
{
  if (__sym_owner == fn || !g_on) return;
  bool any = false;
  for (u32 i = 0; i < n; i++)
    if (__sym_args[i]) any = true;
  if (!any) return;
  for (u32 i = 0; i < n; i++) {
    E e = __sym_args[i];
    if (!e) continue;
    char b[64];
    snprintf(b, sizeof b, "native@%p", fn);
    g_native[b]++;
    __sym_pin(e, e->val, PIN_NATIVE);
  }
}

// ------------------------------------------------------------------ wrappers for native functions
#define RET(e) (__sym_owner = (void *)self, __sym_ret[0] = (e) && !isC(e) ? (e) : nullptr)
static E argE(int i) { return g_on ? __sym_args[i] : nullptr; }
static int cmpmem(const u8 * a, const u8 * b, u64 n, bool str, E & re)
{
  // result expression; the concrete result is its value
  re = nullptr;
  int res = 0;
  u64 stop = n;
  bool sym = false;
  for (u64 i = 0; i < n; i++) {
    bool s = g_on && (memByte((u64)a + i) || memByte((u64)b + i));
    sym |= s;
    if (!s) {
      if (a[i] != b[i]) { stop = i + 1; break; }
      if (str && !a[i]) { stop = i + 1; break; }
    }
  }
  for (u64 i = 0; i < stop; i++) {
    if (a[i] != b[i]) { res = (int)a[i] - (int)b[i]; break; }
    if (str && !a[i]) break;
  }
  if (sym) {
    E r = mkC(0, 32);
    for (u64 i = stop; i-- > 0;) {
      E x = memByte((u64)a + i), y = memByte((u64)b + i);
      E ex = x ? x : mkC(a[i], 8), ey = y ? y : mkC(b[i], 8);
      E eq = b1(OP_EQ, ex, ey);
      E d = mk(OP_SUB, 0, 32, false, mk(OP_ZEXT, 0, 32, false, ex), mk(OP_ZEXT, 0, 32, false, ey));
      E nx = r;
      if (str) nx = mk(OP_ITE, 0, 32, false, b1(OP_EQ, ex, mkC(0, 8)), mkC(0, 32), r);
      r = mk(OP_ITE, 0, 32, false, eq, nx, d);
    }
    re = r;
    res = (int)r->val;
  }
  return res;
}
static void pinA(int i)
{
  if (g_on && __sym_args[i]) __sym_pin(__sym_args[i], __sym_args[i]->val, PIN_ADDR);
}
int __symw_memcmp(const void * a, const void * b, size_t n)
{
  void * self = (void *)&__symw_memcmp;
  pinA(0); pinA(1); pinA(2);
  E e;
  int r = cmpmem((const u8 *)a, (const u8 *)b, n, false, e);
  RET(e);
  return r;
}
int __symw_bcmp(const void * a, const void * b, size_t n)
{
  void * self = (void *)&__symw_bcmp;
  pinA(0); pinA(1); pinA(2);
  E e;
  int r = cmpmem((const u8 *)a, (const u8 *)b, n, false, e);
  RET(e);
  return r;
}
int __symw_strcmp(const char * a, const char * b)
{
  void * self = (void *)&__symw_strcmp;
  E e;
  u64 n = std::max(strlen(a), strlen(b)) + 1;
  n = std::min(n, (u64)std::min(strlen(a), strlen(b)) + 1);
  // symbolic bytes may hide a longer/shorter string: walk while symbolic
  int r = cmpmem((const u8 *)a, (const u8 *)b, n, true, e);
  RET(e);
  return r;
}
int __symw_strncmp(const char * a, const char * b, size_t m)
{
  void * self = (void *)&__symw_strncmp;
  E e;
  u64 n = std::min((u64)m, (u64)std::min(strnlen(a, m), strnlen(b, m)) + 1);
  int r = cmpmem((const u8 *)a, (const u8 *)b, n, true, e);
  RET(e);
  return r;
}
size_t __symw_strlen(const char * s)
{
  void * self = (void *)&__symw_strlen;
  size_t i = 0;
  for (;; i++) {
    E e = g_on ? memByte((u64)s + i) : nullptr;
    if (e) {
      E z = b1(OP_EQ, e, mkC(0, 8));
      if (!isC(z)) __sym_branch(z, s[i] == 0, 0xbeef);
    }
    if (!s[i]) break;
  }
  RET((E) nullptr);
  return i;
}
void * __symw_memchr(const void * p, int c, size_t n)
{
  void * self = (void *)&__symw_memchr;
  pinA(0); pinA(2);
  E ce = argE(1);
  const u8 * s = (const u8 *)p;
  void * res = nullptr;
  for (size_t i = 0; i < n; i++) {
    E e = g_on ? memByte((u64)s + i) : nullptr;
    if (e || ce) {
      E x = e ? e : mkC(s[i], 8);
      E y = ce ? mk(OP_EXTRACT, 0, 8, false, ce) : mkC((u8)c, 8);
      E q = b1(OP_EQ, x, y);
      if (!isC(q)) __sym_branch(q, s[i] == (u8)c, 0xbee1);
    }
    if (s[i] == (u8)c) { res = (void *)(s + i); break; }
  }
  RET((E) nullptr);
  return res;
}
#define UF1(name, id) \
  double __symw_##name(double x) \
  { \
    void * self = (void *)&__symw_##name; \
    double r = name(x); \
    E a = argE(0); \
    RET(a ? mk(OP_UF, id, 64, true, fix(a, 64 | 0x1000)) : (E) nullptr); \
    return r; \
  }
#define UF2(name, id) \
  double __symw_##name(double x, double y) \
  { \
    void * self = (void *)&__symw_##name; \
    double r = name(x, y); \
    E a = argE(0), b = argE(1); \
    RET(a || b ? mk(OP_UF, id, 64, true, fix(shd(a, frd(x), 64 | 0x1000), 64 | 0x1000), \
                    fix(shd(b, frd(y), 64 | 0x1000), 64 | 0x1000)) \
               : (E) nullptr); \
    return r; \
  }
UF1(sin, 0) UF1(cos, 1) UF1(tan, 2) UF1(asin, 3) UF1(acos, 4) UF1(atan, 5) UF1(exp, 7) UF1(log, 8)
UF2(atan2, 6) UF2(pow, 9) UF2(hypot, 10)
#define OPF1(name, op) \
  double __symw_##name(double x) \
  { \
    void * self = (void *)&__symw_##name; \
    double r = name(x); \
    E a = argE(0); \
    RET(a ? mk(op, 0, 64, true, fix(a, 64 | 0x1000)) : (E) nullptr); \
    return r; \
  }
OPF1(sqrt, OP_FSQRT) OPF1(floor, OP_FFLOOR) OPF1(ceil, OP_FCEIL) OPF1(round, OP_FROUND)
OPF1(trunc, OP_FTRUNC)
#define OPF2(name, op) \
  double __symw_##name(double x, double y) \
  { \
    void * self = (void *)&__symw_##name; \
    double r = name(x, y); \
    E a = argE(0), b = argE(1); \
    RET(a || b ? mk(op, 0, 64, true, fix(shd(a, frd(x), 64 | 0x1000), 64 | 0x1000), \
                    fix(shd(b, frd(y), 64 | 0x1000), 64 | 0x1000)) \
               : (E) nullptr); \
    return r; \
  }
OPF2(fmin, OP_FMIN) OPF2(fmax, OP_FMAX) OPF2(fmod, OP_FMOD)
#define OPF2F(name, op) \
  float __symw_##name(float x, float y) \
  { \
    void * self = (void *)&__symw_##name; \
    float r = name(x, y); \
    E a = argE(0), b = argE(1); \
    RET(a || b ? mk(op, 0, 32, true, fix(shd(a, frf(x), 32 | 0x1000), 32 | 0x1000), \
                    fix(shd(b, frf(y), 32 | 0x1000), 32 | 0x1000)) \
               : (E) nullptr); \
    return r; \
  }
OPF2F(fminf, OP_FMIN) OPF2F(fmaxf, OP_FMAX) OPF2F(fmodf, OP_FMOD)
float __symw_sqrtf(float x)
{
  void * self = (void *)&__symw_sqrtf;
  E a = argE(0);
  RET(a ? mk(OP_FSQRT, 0, 32, true, a) : (E) nullptr);
  return sqrtf(x);
}
float __symw_sinf(float x)
{
  void * self = (void *)&__symw_sinf;
  E a = argE(0);
  RET(a ? mk(OP_UF, 100, 32, true, a) : (E) nullptr);
  return sinf(x);
}
float __symw_cosf(float x)
{
  void * self = (void *)&__symw_cosf;
  E a = argE(0);
  RET(a ? mk(OP_UF, 101, 32, true, a) : (E) nullptr);
  return cosf(x);
}
long __symw_lround(double x)
{
  void * self = (void *)&__symw_lround;
  E a = argE(0);
  long r = lround(x);
  E e = nullptr;
  if (a) e = __sym_un(OP_FPTOSI, 64 | 0x1000, 64, mk(OP_FROUND, 0, 64, true, fix(a, 64 | 0x1000)), frd(round(x)), (u64)r);
  RET(e);
  return r;
}
long long __symw_llround(double x)
{
  void * self = (void *)&__symw_llround;
  E a = argE(0);
  long long r = llround(x);
  E e = nullptr;
  if (a) e = __sym_un(OP_FPTOSI, 64 | 0x1000, 64, mk(OP_FROUND, 0, 64, true, fix(a, 64 | 0x1000)), frd(round(x)), (u64)r);
  RET(e);
  return r;
}

static void pinStr(const char * s)
{
  for (size_t i = 0;; i++) {
    if (E e = g_on ? memByte((u64)s + i) : nullptr) __sym_pin(e, e->val, PIN_NATIVE);
    if (!s[i]) break;
  }
}
double symc_strtod(const char * s, char ** e)
{
  void * self = (void *)&symc_strtod;
  pinStr(s);
  double r = strtod(s, e);
  RET((E) nullptr);
  return r;
}
float symc_strtof(const char * s, char ** e)
{
  void * self = (void *)&symc_strtof;
  pinStr(s);
  float r = strtof(s, e);
  RET((E) nullptr);
  return r;
}
// ------------------------------------------------------------------ harness API
static E newVar(const char * name, int bits)
{
  u32 i = g_vars.size();
  g_vars.push_back({name, bits});
  if (g_in.size() <= i) g_in.resize(i + 1, 0);
  g_in[i] &= msk(bits);
  return mk_raw(OP_VAR, i, bits, false, 0, nullptr, nullptr, nullptr, g_in[i]);
}
uint64_t sym_var(const char * name, int bits)
{
  void * self = (void *)&sym_var;
  if (!g_on) return 0;
  E v = newVar(name, bits);
  RET(mk(OP_ZEXT, 0, 64, false, v));
  return v->val;
}
static void assumeE(E e, bool c)
{
  if (!e) {
    if (!c) finish();
    return;
  }
  e = fix(e, 1);
  bool t = true;
  while (e->op == OP_XOR && isC(e->k[1])) { e = e->k[0]; t = !t; }
  if (e->known == (t ? 1 : 2)) return;
  if (c) {
    setKnown(e, t);
    pushEnt(e, t, 3, 0, nullptr, 0);
  } else {
    setKnown(e, !t);
    pushEnt(e, !t, 4, 0xa55e, nullptr, 0);
    finish();
  }
}
uint64_t sym_choice(const char * name, uint64_t n)
{
  void * self = (void *)&sym_choice;
  if (!g_on || n <= 1) { RET((E) nullptr); return 0; }
  int bits = 1;
  while ((1ULL << bits) < n) bits++;
  E v = newVar(name, bits);
  if (v->val >= n) { g_in[v->aux] = 0; v->val = 0; }
  if ((n & (n - 1)) != 0) assumeE(b1(OP_ULT, v, mkC(n, bits)), v->val < n);
  __sym_pin(v, v->val, PIN_USER);
  RET((E) nullptr);
  return v->val;
}
void sym_assume_(bool c)
{
  void * self = (void *)&sym_assume_;
  assumeE(argE(0), c);
  RET((E) nullptr);
}
void sym_assert_(bool c, const char * label)
{
  void * self = (void *)&sym_assert_;
  if (!g_on) return;
  E e = argE(0);
  g_assert_labels[label]++;
  if (e) {
    st_assert_sym++;
    __sym_branch(e, c, 0xa55f);
  } else st_assert_conc++;
  if (!c) {
    g_viol = label;
    finish();
  }
  RET((E) nullptr);
}
bool sym_and(bool a, bool b)
{
  void * self = (void *)&sym_and;
  E x = argE(0), y = argE(1);
  if (x || y) RET(b1(OP_AND, shd(x, a, 1), shd(y, b, 1)));
  else RET((E) nullptr);
  return a & b;
}
void sym_cover(const char * label)
{
  g_cover.insert(label);
}
void sym_make(void * p, size_t n, const char * name)
{
  if (!g_on) { memset(p, 0, n); return; }
  for (size_t i = 0; i < n; i++) {
    E v = newVar(name, 8);
    ((u8 *)p)[i] = (u8)v->val;
    shSet((u64)p + i, v, 0);
  }
}
uint64_t sym_pin(uint64_t v, int)
{
  void * self = (void *)&sym_pin;
  E e = argE(0);
  if (e) __sym_pin(e, v, PIN_USER);
  RET((E) nullptr);
  return v;
}
void sym_end() { finish(); }
int sym_replaying() { return 0; }
void sym_note(const char *, ...) {}
}  // extern "C"
struct HReg { const char * name; void (*fn)(); };
static std::vector<HReg> & regs()
{
  static std::vector<HReg> r;
  return r;
}
extern "C" void sym_register(const char * name, void (*fn)()) { regs().push_back({name, fn}); }

// operator new: fresh memory carries no shadow
void * operator new(size_t n)
{
  void * p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_on) shClear((u64)p, n);
  return p;
}
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
void * operator new(size_t n, const std::nothrow_t &) noexcept
{
  void * p = malloc(n ? n : 1);
  if (g_on && p) shClear((u64)p, n);
  return p;
}
#include "solve.inc"
#include "explore.inc"
