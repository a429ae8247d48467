/* Runtime for Solidity code translated to C: EVM words, memory, storage,
   call frames, ABI coding. One world per process, single-threaded. */
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

typedef unsigned _BitInt(256) W;
typedef signed _BitInt(256) SW;
typedef unsigned _BitInt(512) WW;
typedef uint64_t u64;
typedef unsigned __int128 u128;
#define UNUSED __attribute__((unused))
#define FN static UNUSED

#define MEMCAP (8u << 20)
#define MAXDEPTH 24
#define LOOPCAP (60u * 1000 * 1000)

enum { ST_OK = 0, ST_REVERT = 1, ST_INVALID = 2, ST_OOG = 3, ST_UNSUPPORTED = 4 };

typedef struct {
  uint8_t *mem;
  u64 hw; /* bytes of mem possibly non-zero */
  W self, caller, value;
  const uint8_t *cd;
  u64 cdlen;
  uint8_t *ret;
  u64 retlen, retcap;
  jmp_buf jb;
} Frame;

static Frame frames[MAXDEPTH];
static int depth = -1;
static Frame *fr;
static uint8_t *MEM;
static uint8_t *LRET; /* last return data seen by the current frame */
static u64 LRETLEN, LRETCAP;
static u64 loops;
static char unsupported_msg[256];

__attribute__((noreturn)) FN void rt_exit(int st) { longjmp(fr->jb, st + 1); }
__attribute__((noreturn)) FN void rt_oog(void) { rt_exit(ST_OOG); }
__attribute__((noreturn)) FN void rt_unsupported(const char *m) {
  snprintf(unsupported_msg, sizeof unsupported_msg, "%s", m);
  rt_exit(ST_UNSUPPORTED);
}
static inline void rt_loop(void) {
  if (++loops > LOOPCAP) rt_oog();
}

/* ---- memory ---- */
static inline u64 rt_touch(W a, u64 n) {
  if (a > MEMCAP - n) rt_oog();
  u64 o = (u64)a;
  if (o + n > fr->hw) fr->hw = o + n;
  return o;
}
static inline W ld256(const uint8_t *p) {
  u64 a, b, c, d;
  memcpy(&a, p, 8); memcpy(&b, p + 8, 8); memcpy(&c, p + 16, 8); memcpy(&d, p + 24, 8);
  return ((W)__builtin_bswap64(a) << 192) | ((W)__builtin_bswap64(b) << 128) | ((W)__builtin_bswap64(c) << 64) |
         (W)__builtin_bswap64(d);
}
static inline void st256(uint8_t *p, W v) {
  u64 a = __builtin_bswap64((u64)(v >> 192)), b = __builtin_bswap64((u64)(v >> 128)),
      c = __builtin_bswap64((u64)(v >> 64)), d = __builtin_bswap64((u64)v);
  memcpy(p, &a, 8); memcpy(p + 8, &b, 8); memcpy(p + 16, &c, 8); memcpy(p + 24, &d, 8);
}
static inline W y_mload(W a) { u64 o = rt_touch(a, 32); return ld256(MEM + o); }
static inline void y_mstore(W a, W v) { u64 o = rt_touch(a, 32); st256(MEM + o, v); }
static inline void y_mstore8(W a, W v) { u64 o = rt_touch(a, 1); MEM[o] = (uint8_t)v; }
FN u64 rt_range(W a, W n) {
  if (n == 0) return 0;
  if (n > MEMCAP || a > MEMCAP - n) rt_oog();
  return rt_touch(a, (u64)n);
}

/* ---- arithmetic ---- */
#define SMALL2(a, b) (((((a) | (b)) >> 64)) == 0)
static inline W y_add(W a, W b) { return a + b; }
static inline W y_sub(W a, W b) { return a - b; }
static inline W y_mul(W a, W b) { return SMALL2(a, b) ? (W)((u128)(u64)a * (u64)b) : a * b; }
__attribute__((noinline)) FN W big_div(W a, W b) { return a / b; }
__attribute__((noinline)) FN W big_mod(W a, W b) { return a % b; }
static inline W y_div(W a, W b) { if (b == 0) return 0; if (SMALL2(a, b)) return (W)((u64)a / (u64)b); return big_div(a, b); }
static inline W y_mod(W a, W b) { if (b == 0) return 0; if (SMALL2(a, b)) return (W)((u64)a % (u64)b); return big_mod(a, b); }
#define NEG(a) ((a) >> 255)
FN W y_sdiv(W a, W b) {
  if (b == 0) return 0;
  int s = (int)NEG(a) ^ (int)NEG(b);
  W x = NEG(a) ? -a : a, y = NEG(b) ? -b : b;
  W r = y_div(x, y);
  return s ? -r : r;
}
FN W y_smod(W a, W b) {
  if (b == 0) return 0;
  W x = NEG(a) ? -a : a, y = NEG(b) ? -b : b;
  W r = y_mod(x, y);
  return NEG(a) ? -r : r;
}
FN W y_exp(W a, W b) { W r = 1; while (b) { if (b & 1) r *= a; a *= a; b >>= 1; } return r; }
__attribute__((noinline)) FN W big_addmod(W a, W b, W m) { return (W)(((WW)a + (WW)b) % (WW)m); }
__attribute__((noinline)) FN W big_mulmod(W a, W b, W m) { return (W)(((WW)a * (WW)b) % (WW)m); }
static inline W y_addmod(W a, W b, W m) {
  if (m == 0) return 0;
  if (((a | b | m) >> 64) == 0) return (W)(u64)(((u128)(u64)a + (u64)b) % (u64)m);
  return big_addmod(a, b, m);
}
static inline W y_mulmod(W a, W b, W m) {
  if (m == 0) return 0;
  if (((a | b | m) >> 64) == 0) {
    if (((a | b) >> 32) == 0) return (W)(((u64)a * (u64)b) % (u64)m);
    return (W)(u64)(((u128)(u64)a * (u64)b) % (u64)m);
  }
  return big_mulmod(a, b, m);
}
static inline W y_not(W a) { return ~a; }
static inline W y_lt(W a, W b) { return a < b; }
static inline W y_gt(W a, W b) { return a > b; }
static inline W y_slt(W a, W b) { return (SW)a < (SW)b; }
static inline W y_sgt(W a, W b) { return (SW)a > (SW)b; }
static inline W y_eq(W a, W b) { return a == b; }
static inline W y_iszero(W a) { return a == 0; }
static inline W y_and(W a, W b) { return a & b; }
static inline W y_or(W a, W b) { return a | b; }
static inline W y_xor(W a, W b) { return a ^ b; }
static inline W y_shl(W s, W a) { return s > 255 ? (W)0 : a << (unsigned)s; }
static inline W y_shr(W s, W a) { return s > 255 ? (W)0 : a >> (unsigned)s; }
static inline W y_sar(W s, W a) {
  if (s > 255) return NEG(a) ? ~(W)0 : (W)0;
  return (W)((SW)a >> (unsigned)s);
}
static inline W y_byte(W i, W a) { return i > 31 ? (W)0 : (a >> (unsigned)(8 * (31 - (unsigned)i))) & 0xff; }
FN W y_signextend(W k, W a) {
  if (k > 30) return a;
  unsigned s = 248 - 8 * (unsigned)k;
  return (W)((SW)(a << s) >> s);
}

/* ---- keccak ---- */
static const u64 KRC[24] = {0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808aULL, 0x8000000080008000ULL,
  0x000000000000808bULL, 0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL, 0x000000000000008aULL,
  0x0000000000000088ULL, 0x0000000080008009ULL, 0x000000008000000aULL, 0x000000008000808bULL, 0x800000000000008bULL,
  0x8000000000008089ULL, 0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800aULL,
  0x800000008000000aULL, 0x8000000080008081ULL, 0x8000000000008080ULL, 0x0000000080000001ULL, 0x8000000080008008ULL};
static const int KROT[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
static const int KPI[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
FN void kperm(u64 s[25]) {
  for (int r = 0; r < 24; r++) {
    u64 bc[5], t;
    for (int i = 0; i < 5; i++) bc[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; i++) {
      t = bc[(i + 4) % 5] ^ ((bc[(i + 1) % 5] << 1) | (bc[(i + 1) % 5] >> 63));
      for (int j = 0; j < 25; j += 5) s[j + i] ^= t;
    }
    t = s[1];
    for (int i = 0; i < 24; i++) {
      int j = KPI[i];
      u64 b = s[j];
      s[j] = (t << KROT[i]) | (t >> (64 - KROT[i]));
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      u64 b[5];
      memcpy(b, s + j, 40);
      for (int i = 0; i < 5; i++) s[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]);
    }
    s[0] ^= KRC[r];
  }
}
FN W keccak(const uint8_t *p, u64 n) {
  u64 s[25] = {0};
  uint8_t *b = (uint8_t *)s, o[32];
  while (n >= 136) {
    for (int i = 0; i < 136; i++) b[i] ^= p[i];
    kperm(s);
    p += 136;
    n -= 136;
  }
  for (u64 i = 0; i < n; i++) b[i] ^= p[i];
  b[n] ^= 1;
  b[135] ^= 0x80;
  kperm(s);
  memcpy(o, s, 32);
  return ld256(o);
}
FN W y_keccak256(W a, W n) { u64 o = rt_range(a, n); return keccak(MEM + o, (u64)n); }

/* ---- accounts and storage, journalled ---- */
typedef struct { W addr; int cid; uint8_t *code; u64 codelen; W nonce; } Acct;
static Acct *accts;
static int naccts, capaccts;
typedef struct { W addr, slot, val; int used; } Slot;
static Slot *slots;
static u64 nslots, capslots;
typedef struct { u64 idx; W old; } Jent;
static Jent *jour;
static u64 njour, capjour;

FN Acct *rt_acct(W a) {
  for (int i = naccts - 1; i >= 0; i--) if (accts[i].addr == a) return &accts[i];
  return 0;
}
FN Acct *rt_newacct(W a, int cid, const uint8_t *code, u64 n) {
  if (naccts == capaccts) { capaccts = capaccts ? 2 * capaccts : 64; accts = realloc(accts, sizeof(Acct) * (u64)capaccts); }
  Acct *x = &accts[naccts++];
  x->addr = a; x->cid = cid; x->nonce = 1;
  x->code = malloc(n + 1); x->codelen = n;
  if (n) memcpy(x->code, code, n);
  return x;
}
FN u64 slot_hash(W a, W s) {
  u64 h = (u64)a * 0x9e3779b97f4a7c15ULL;
  for (int i = 0; i < 4; i++) { h ^= (u64)(s >> (64 * i)); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; }
  return h;
}
FN u64 slot_find(W a, W s) {
  if (nslots * 2 >= capslots) {
    u64 oc = capslots;
    Slot *o = slots;
    capslots = capslots ? capslots * 2 : 1 << 16;
    slots = calloc(capslots, sizeof(Slot));
    if (njour) { /* indices move: rebuild the journal */
      u64 *map = malloc(oc * sizeof(u64));
      for (u64 i = 0; i < oc; i++) if (o[i].used) {
        u64 k = slot_hash(o[i].addr, o[i].slot) & (capslots - 1);
        while (slots[k].used) k = (k + 1) & (capslots - 1);
        slots[k] = o[i];
        map[i] = k;
      }
      for (u64 i = 0; i < njour; i++) jour[i].idx = map[jour[i].idx];
      free(map);
    } else
      for (u64 i = 0; i < oc; i++) if (o[i].used) {
        u64 k = slot_hash(o[i].addr, o[i].slot) & (capslots - 1);
        while (slots[k].used) k = (k + 1) & (capslots - 1);
        slots[k] = o[i];
      }
    free(o);
  }
  u64 k = slot_hash(a, s) & (capslots - 1);
  while (slots[k].used && !(slots[k].addr == a && slots[k].slot == s)) k = (k + 1) & (capslots - 1);
  if (!slots[k].used) { slots[k].used = 1; slots[k].addr = a; slots[k].slot = s; slots[k].val = 0; nslots++; }
  return k;
}
FN W y_sload(W s) { u64 k = slot_find(fr->self, s); return slots[k].val; }
FN void y_sstore(W s, W v) {
  u64 k = slot_find(fr->self, s);
  if (njour == capjour) { capjour = capjour ? 2 * capjour : 4096; jour = realloc(jour, sizeof(Jent) * capjour); }
  jour[njour].idx = k;
  jour[njour++].old = slots[k].val;
  slots[k].val = v;
}
FN void rt_rollback(u64 j, int na) {
  while (njour > j) { njour--; slots[jour[njour].idx].val = jour[njour].old; }
  while (naccts > na) { naccts--; free(accts[naccts].code); }
}

/* ---- revert ---- */
FN void rt_setret(const uint8_t *p, u64 n) {
  if (n > fr->retcap) { fr->retcap = n + 4096; fr->ret = realloc(fr->ret, fr->retcap); }
  if (n) memcpy(fr->ret, p, n);
  fr->retlen = n;
}
__attribute__((noreturn)) FN void rt_revert(const uint8_t *p, u64 n) { rt_setret(p, n); rt_exit(ST_REVERT); }
__attribute__((noreturn)) FN void rt_revert0(void) { rt_revert(0, 0); }
__attribute__((noreturn)) FN void rt_panic(unsigned c) {
  uint8_t b[36] = {0x4e, 0x48, 0x7b, 0x71};
  b[35] = (uint8_t)c;
  rt_revert(b, 36);
}
__attribute__((noreturn)) FN void rt_error(const char *s, u64 n) {
  uint8_t b[4 + 64 + 1024] = {0x08, 0xc3, 0x79, 0xa0};
  if (n > 1000) n = 1000;
  b[35] = 0x20;
  st256(b + 36, (W)n);
  memcpy(b + 68, s, n);
  rt_revert(b, 68 + (n + 31) / 32 * 32);
}

/* checked arithmetic; bits = width of the type */
#define MAXU(b) ((b) == 256 ? ~(W)0 : (((W)1 << ((b) & 255)) - 1))
static inline W c_add(W a, W b, int n) { W r = a + b; if (r < a || (n < 256 && r > MAXU(n))) rt_panic(0x11); return r; }
static inline W c_sub(W a, W b) { if (b > a) rt_panic(0x11); return a - b; }
static inline W c_mul(W a, W b, int n) {
  W r;
  if (SMALL2(a, b)) r = (W)((u128)(u64)a * (u64)b);
  else { WW x = (WW)a * (WW)b; if (x >> 256) rt_panic(0x11); r = (W)x; }
  if (n < 256 && r > MAXU(n)) rt_panic(0x11);
  return r;
}
static inline W c_div(W a, W b) { if (b == 0) rt_panic(0x12); return y_div(a, b); }
static inline W c_mod(W a, W b) { if (b == 0) rt_panic(0x12); return y_mod(a, b); }
FN W sx(W a, int n) { return n >= 256 ? a : (W)((SW)(a << (256 - n)) >> (256 - n)); }
FN W c_sadd(W a, W b, int n) {
  W r = a + b;
  if (n == 256 ? ((~(a ^ b) & (a ^ r)) >> 255) != 0 : sx(r, n) != r) rt_panic(0x11);
  return r;
}
FN W c_ssub(W a, W b, int n) {
  W r = a - b;
  if (n == 256 ? (((a ^ b) & (a ^ r)) >> 255) != 0 : sx(r, n) != r) rt_panic(0x11);
  return r;
}
FN W c_smul(W a, W b, int n) {
  int s = (int)NEG(a) ^ (int)NEG(b);
  W x = NEG(a) ? -a : a, y = NEG(b) ? -b : b;
  WW p = (WW)x * (WW)y;
  WW lim = ((WW)1 << (n - 1)) - (s ? 0 : 1);
  if (p > lim) rt_panic(0x11);
  return s ? -(W)p : (W)p;
}
FN W c_sdiv(W a, W b, int n, int chk) {
  if (b == 0) rt_panic(0x12);
  if (chk && b == ~(W)0 && a == sx((W)1 << (n - 1), n)) rt_panic(0x11);
  return sx(y_sdiv(a, b), n);
}
FN W c_smod(W a, W b) { if (b == 0) rt_panic(0x12); return y_smod(a, b); }
FN W c_exp(W a, W b, int n) {
  W r = 1;
  while (b) {
    if (b & 1) r = c_mul(r, a, n);
    b >>= 1;
    if (b) { if (r == 0) return 0; if (a > 1 || b) a = (a <= 1) ? a : c_mul(a, a, n); }
  }
  return r;
}

/* ---- type descriptors ---- */
enum { T_UINT, T_INT, T_BOOL, T_ADDR, T_BYTESN, T_BYTES, T_ARR, T_SARR, T_STRUCT };
typedef struct TD TD;
struct TD { int k; int n; u64 len; const TD *base; const TD *const *mem; };

FN int td_dyn(const TD *t) {
  if (t->k == T_BYTES || t->k == T_ARR) return 1;
  if (t->k == T_SARR) return td_dyn(t->base);
  if (t->k == T_STRUCT) { for (int i = 0; i < t->n; i++) if (td_dyn(t->mem[i])) return 1; }
  return 0;
}
FN int td_ref(const TD *t) { return t->k >= T_BYTES; }
FN u64 td_head(const TD *t) {
  if (td_dyn(t)) return 32;
  if (t->k == T_SARR) return t->len * td_head(t->base);
  if (t->k == T_STRUCT) { u64 s = 0; for (int i = 0; i < t->n; i++) s += td_head(t->mem[i]); return s; }
  return 32;
}
FN W td_clean(const TD *t, W v) {
  switch (t->k) {
  case T_UINT: return v & MAXU(t->n);
  case T_INT: return sx(v, t->n);
  case T_BOOL: return v != 0;
  case T_ADDR: return v & MAXU(160);
  case T_BYTESN: return t->n == 32 ? v : v & ~MAXU(256 - 8 * t->n);
  }
  return v;
}

/* ---- allocation ---- */
FN W rt_alloc(W n) {
  W p = y_mload(0x40);
  if (n > ((W)1 << 62) || p > ((W)1 << 62)) rt_panic(0x41);
  W e = p + ((n + 31) & ~(W)31);
  if (e > (((W)1 << 64) - 1)) rt_panic(0x41);
  y_mstore(0x40, e);
  return p;
}
FN void rt_zero(W p, W n) { if (n) { u64 o = rt_range(p, n); memset(MEM + o, 0, (u64)n); } }
FN W rt_default(const TD *t);
FN W rt_newstatic(const TD *t) { /* zeroed static array or struct */
  u64 n = t->k == T_SARR ? t->len : (u64)t->n;
  W p = rt_alloc((W)n * 32);
  const TD *b = t->base;
  if (t->k == T_SARR && !td_ref(b)) { rt_zero(p, (W)n * 32); return p; }
  rt_range(p, (W)n * 32);
  for (u64 i = 0; i < n; i++) y_mstore(p + 32 * i, rt_default(t->k == T_SARR ? b : t->mem[i]));
  return p;
}
FN W rt_default(const TD *t) {
  if (t->k == T_BYTES || t->k == T_ARR) return 0x60;
  if (t->k == T_SARR || t->k == T_STRUCT) return rt_newstatic(t);
  return 0;
}
FN W rt_newdyn(const TD *t, W len) { /* new T[](len), new bytes(len) */
  if (len > ((W)1 << 64) - 1) rt_panic(0x41);
  W n = t->k == T_BYTES ? len : len * 32;
  W p = rt_alloc(n + 32);
  y_mstore(p, len);
  if (t->k == T_ARR && td_ref(t->base)) { for (W i = 0; i < len; i++) { rt_loop(); y_mstore(p + 32 + 32 * i, rt_default(t->base)); } }
  else rt_zero(p + 32, (n + 31) & ~(W)31);
  return p;
}
FN W rt_bytes(const uint8_t *d, u64 n) {
  W p = rt_alloc((W)n + 32);
  y_mstore(p, n);
  u64 o = rt_range(p, (W)n + 32);
  rt_range(p, ((W)n + 63) & ~(W)31);
  memcpy(MEM + o + 32, d, n);
  if (n & 31) memset(MEM + o + 32 + n, 0, 32 - (n & 31));
  return p;
}
/* vm.readFile, relative to $SOL_ROOT (only the repository's own tests use it) */
FN W rt_readfile(W s) {
  char path[1024];
  u64 n = (u64)y_mload(s);
  const char *root = getenv("SOL_ROOT");
  if (!root || n > 512) rt_unsupported("vm.readFile");
  u64 k = (u64)snprintf(path, sizeof path, "%s/", root);
  if (k + n >= sizeof path) rt_unsupported("vm.readFile");
  memcpy(path + k, MEM + (u64)s + 32, n);
  path[k + n] = 0;
  FILE *f = fopen(path, "rb");
  if (!f) rt_unsupported("vm.readFile");
  fseek(f, 0, SEEK_END);
  long z = ftell(f);
  fseek(f, 0, SEEK_SET);
  W p = rt_alloc((W)z + 32 + 31 & ~(W)31);
  y_mstore(p, (W)z);
  if (z && fread(MEM + (u64)p + 32, 1, (size_t)z, f) != (size_t)z) { fclose(f); rt_unsupported("vm.readFile"); }
  fclose(f);
  return p;
}
FN W rt_tab64(const u64 *t, u64 n) { W p = rt_alloc((W)n * 32); for (u64 i = 0; i < n; i++) y_mstore(p + 32 * i, t[i]); return p; }
FN W rt_tabW(const W *t, u64 n) { W p = rt_alloc((W)n * 32); for (u64 i = 0; i < n; i++) y_mstore(p + 32 * i, t[i]); return p; }

/* ---- ABI encoding into a growing buffer ---- */
typedef struct { uint8_t *p; u64 n, cap; } Buf;
FN void b_need(Buf *b, u64 n) {
  if (n > MEMCAP) { free(b->p); rt_oog(); }
  if (n > b->cap) { b->cap = n * 2 + 1024; b->p = realloc(b->p, b->cap); }
}
FN u64 b_zeros(Buf *b, u64 n) { b_need(b, b->n + n); memset(b->p + b->n, 0, n); u64 o = b->n; b->n += n; return o; }
FN void b_word(Buf *b, W v) { u64 o = b_zeros(b, 32); st256(b->p + o, v); }

FN void enc_val(const TD *t, W v, Buf *b);
/* encode a sequence of n values (get(i) reads memory at base+32*i) */
FN void enc_seq_mem(const TD *const *ts, const TD *same, u64 n, W base, Buf *b) {
  u64 start = b->n, hs = 0;
  int anydyn = 0;
  for (u64 i = 0; i < n; i++) { const TD *t = same ? same : ts[i]; hs += td_head(t); anydyn |= td_dyn(t); if (same) { hs = n * td_head(t); break; } }
  if (hs > MEMCAP) { free(b->p); rt_oog(); }
  if (!anydyn) { for (u64 i = 0; i < n; i++) { const TD *t = same ? same : ts[i]; enc_val(t, y_mload(base + 32 * (W)i), b); } return; }
  u64 h = b_zeros(b, hs);
  for (u64 i = 0; i < n; i++) {
    const TD *t = same ? same : ts[i];
    W v = y_mload(base + 32 * (W)i);
    if (td_dyn(t)) { st256(b->p + h, (W)(b->n - start)); h += 32; enc_val(t, v, b); }
    else { Buf x = {0}; enc_val(t, v, &x); memcpy(b->p + h, x.p, x.n); h += x.n; free(x.p); }
  }
}
FN void enc_val(const TD *t, W v, Buf *b) {
  switch (t->k) {
  case T_BYTES: {
    W n = y_mload(v);
    u64 o = rt_range(v + 32, n);
    b_word(b, n);
    u64 z = b_zeros(b, ((u64)n + 31) / 32 * 32);
    if (n) memcpy(b->p + z, MEM + o, (u64)n);
    return;
  }
  case T_ARR: {
    W n = y_mload(v);
    if (n > MEMCAP) { free(b->p); rt_oog(); }
    b_word(b, n);
    enc_seq_mem(0, t->base, (u64)n, v + 32, b);
    return;
  }
  case T_SARR: enc_seq_mem(0, t->base, t->len, v, b); return;
  case T_STRUCT: enc_seq_mem(t->mem, 0, (u64)t->n, v, b); return;
  default: b_word(b, td_clean(t, v));
  }
}
FN void enc_args(const TD *const *ts, int n, const W *vals, Buf *b) {
  u64 start = b->n, hs = 0;
  for (int i = 0; i < n; i++) hs += td_head(ts[i]);
  u64 h = b_zeros(b, hs);
  for (int i = 0; i < n; i++) {
    if (td_dyn(ts[i])) { st256(b->p + h, (W)(b->n - start)); h += 32; enc_val(ts[i], vals[i], b); }
    else { Buf x = {0}; enc_val(ts[i], vals[i], &x); memcpy(b->p + h, x.p, x.n); h += x.n; free(x.p); }
  }
}
FN void enc_packed(const TD *t, W v, Buf *b, int elem) {
  int n = 32;
  W w = td_clean(t, v);
  switch (t->k) {
  case T_BYTES: {
    W m = y_mload(v);
    u64 o = rt_range(v + 32, m), z = b_zeros(b, (u64)m);
    if (m) memcpy(b->p + z, MEM + o, (u64)m);
    return;
  }
  case T_ARR: { W m = y_mload(v); if (m > MEMCAP) { free(b->p); rt_oog(); } for (W i = 0; i < m; i++) enc_packed(t->base, y_mload(v + 32 + 32 * i), b, 1); return; }
  case T_SARR: for (u64 i = 0; i < t->len; i++) enc_packed(t->base, y_mload(v + 32 * (W)i), b, 1); return;
  case T_STRUCT: rt_unsupported("encodePacked of a struct");
  case T_UINT: case T_INT: n = t->n / 8; break;
  case T_BOOL: n = 1; break;
  case T_ADDR: n = 20; break;
  case T_BYTESN: n = t->n; w >>= (256 - 8 * t->n) & 255; break;
  }
  if (elem) { b_word(b, td_clean(t, v)); return; }
  uint8_t x[32];
  st256(x, w);
  u64 z = b_zeros(b, (u64)n);
  memcpy(b->p + z, x + 32 - n, (u64)n);
}
FN W buf_mem(Buf *b) { W p = rt_bytes(b->p, b->n); free(b->p); return p; }
FN W rt_abi_encode(const TD *const *ts, int n, const W *vals, int withsel, W sel) {
  Buf b = {0};
  if (withsel) { b_zeros(&b, 4); uint8_t x[32]; st256(x, sel); memcpy(b.p, x, 4); }
  Buf c = {0};
  enc_args(ts, n, vals, &c);
  u64 z = b_zeros(&b, c.n);
  if (c.n) memcpy(b.p + z, c.p, c.n);
  free(c.p);
  return buf_mem(&b);
}
FN W rt_abi_packed(const TD *const *ts, int n, const W *vals) {
  Buf b = {0};
  for (int i = 0; i < n; i++) enc_packed(ts[i], vals[i], &b, 0);
  return buf_mem(&b);
}

/* ---- ABI decoding from a byte range into memory ---- */
#define U64MAX (((W)1 << 64) - 1)
typedef struct { const uint8_t *p; u64 n; } Src;
FN W s_word(Src s, W off) { /* calldata semantics: zeros beyond the end */
  if (off >= s.n) return 0;
  u64 o = (u64)off;
  if (o + 32 <= s.n) return ld256(s.p + o);
  uint8_t x[32] = {0};
  memcpy(x, s.p + o, s.n - o);
  return ld256(x);
}
FN W dec_clean(const TD *t, W v) { if (td_clean(t, v) != v) rt_revert0(); return v; }
FN W dec_val(const TD *t, Src s, W off);
FN W dec_at(const TD *t, Src s, W head, W base) { /* head word location, base for offsets */
  if (td_dyn(t)) {
    W o = s_word(s, head);
    if (o > U64MAX) rt_revert0();
    return dec_val(t, s, base + o);
  }
  return dec_val(t, s, head);
}
FN W dec_val(const TD *t, Src s, W off) {
  W end = s.n;
  switch (t->k) {
  case T_BYTES: {
    if (!((SW)(off + 0x1f) < (SW)end)) rt_revert0();
    W n = s_word(s, off);
    if (n > U64MAX) rt_panic(0x41);
    W p = rt_alloc(n + 32);
    y_mstore(p, n);
    if (off + 32 + n > end) rt_revert0();
    u64 o = rt_range(p + 32, (n + 31) & ~(W)31);
    if (n) memcpy(MEM + o, s.p + (u64)off + 32, (u64)n);
    if (n & 31) memset(MEM + o + (u64)n, 0, 32 - ((u64)n & 31));
    return p;
  }
  case T_ARR: {
    if (!((SW)(off + 0x1f) < (SW)end)) rt_revert0();
    W n = s_word(s, off);
    if (n > U64MAX) rt_panic(0x41);
    W p = rt_alloc(n * 32 + 32);
    y_mstore(p, n);
    u64 h = td_head(t->base);
    if (off + 32 + n * h > end) rt_revert0();
    rt_range(p + 32, n * 32);
    for (W i = 0; i < n; i++) y_mstore(p + 32 + 32 * i, dec_at(t->base, s, off + 32 + i * h, off + 32));
    return p;
  }
  case T_SARR: {
    u64 h = td_head(t->base);
    if (td_dyn(t->base) && !((SW)(off + 0x1f) < (SW)end)) rt_revert0();
    W p = rt_alloc((W)t->len * 32);
    if (off + (W)t->len * h > end) rt_revert0();
    for (u64 i = 0; i < t->len; i++) y_mstore(p + 32 * (W)i, dec_at(t->base, s, off + (W)i * h, off));
    return p;
  }
  case T_STRUCT: {
    u64 hs = 0;
    for (int i = 0; i < t->n; i++) hs += td_head(t->mem[i]);
    if (off > end || end - off < hs) rt_revert0();
    W p = rt_alloc((W)t->n * 32);
    W h = off;
    for (int i = 0; i < t->n; i++) { y_mstore(p + 32 * (W)i, dec_at(t->mem[i], s, h, off)); h += td_head(t->mem[i]); }
    return p;
  }
  default: return dec_clean(t, s_word(s, off));
  }
}
/* cdflag[i]: leave in calldata; dynamic ones produce offset and length (absolute calldata offsets) */
FN void rt_abi_dec(const TD *const *ts, const uint8_t *cdflag, int n, Src s, W add, W *out) {
  u64 hs = 0;
  for (int i = 0; i < n; i++) hs += td_head(ts[i]);
  if (s.n < hs) rt_revert0();
  W h = 0;
  int k = 0;
  for (int i = 0; i < n; i++) {
    const TD *t = ts[i];
    if (cdflag && cdflag[i] && td_ref(t)) {
      if (td_dyn(t)) {
        W o = s_word(s, h);
        if (o > U64MAX) rt_revert0();
        if (t->k == T_BYTES || t->k == T_ARR) {
          if (!((SW)(o + 0x1f) < (SW)(W)s.n)) rt_revert0();
          W len = s_word(s, o);
          if (len > U64MAX) rt_revert0();
          W st = t->k == T_BYTES ? (W)1 : (W)td_head(t->base);
          if (o + 32 + len * st > s.n) rt_revert0();
          out[k++] = o + 32 + add;
          out[k++] = len;
        } else out[k++] = o + add;
      } else out[k++] = h + add;
    } else out[k++] = dec_at(t, s, h, 0);
    h += td_head(t);
  }
}
FN W rt_cd2mem(const TD *t, W off, W len) { /* copy a calldata value into memory */
  Src s = {fr->cd, fr->cdlen};
  if (t->k == T_BYTES) {
    W p = rt_alloc(len + 32);
    y_mstore(p, len);
    u64 o = rt_range(p + 32, (len + 31) & ~(W)31);
    for (u64 i = 0; i < (u64)len; i++) MEM[o + i] = off + i < s.n ? s.p[(u64)off + i] : 0;
    if (len & 31) memset(MEM + o + (u64)len, 0, 32 - ((u64)len & 31));
    return p;
  }
  if (t->k == T_ARR) {
    W p = rt_alloc(len * 32 + 32);
    y_mstore(p, len);
    u64 h = td_head(t->base);
    for (W i = 0; i < len; i++) y_mstore(p + 32 + 32 * i, dec_at(t->base, s, off + i * h, off));
    return p;
  }
  return dec_val(t, s, off);
}
FN W y_calldataload(W a) { Src s = {fr->cd, fr->cdlen}; return s_word(s, a); }
FN W y_calldatasize(void) { return fr->cdlen; }
FN void rt_copyin(W d, W s, W n, const uint8_t *src, u64 sn) {
  u64 o = rt_range(d, n);
  for (u64 i = 0; i < (u64)n; i++) MEM[o + i] = (s + i < sn) ? src[(u64)s + i] : 0;
}
FN void y_calldatacopy(W d, W s, W n) { rt_copyin(d, s, n, fr->cd, fr->cdlen); }
FN W y_returndatasize(void) { return LRETLEN; }
FN void y_returndatacopy(W d, W s, W n) { if (s + n < s || s + n > LRETLEN) rt_exit(ST_INVALID); rt_copyin(d, s, n, LRET, LRETLEN); }
FN W y_extcodesize(W a) { Acct *x = rt_acct(a & MAXU(160)); return x ? x->codelen : 0; }
FN void y_extcodecopy(W a, W d, W s, W n) { Acct *x = rt_acct(a & MAXU(160)); rt_copyin(d, s, n, x ? x->code : 0, x ? x->codelen : 0); }
FN W y_extcodehash(W a) { Acct *x = rt_acct(a & MAXU(160)); return x ? keccak(x->code, x->codelen) : 0; }
FN void y_mcopy(W d, W s, W n) { u64 a = rt_range(d, n), b = rt_range(s, n); if (n) memmove(MEM + a, MEM + b, (u64)n); }
FN W y_msize(void) { return (fr->hw + 31) & ~31ULL; }
FN W y_address(void) { return fr->self; }
FN W y_caller(void) { return fr->caller; }
FN W y_callvalue(void) { return fr->value; }
FN W y_gas(void) { return 1000000000ULL; }
FN W rt_code(W a) { Acct *x = rt_acct(a & MAXU(160)); return rt_bytes(x ? x->code : (const uint8_t *)"", x ? x->codelen : 0); }
FN W y_codesize(void) { return y_extcodesize(fr->self); }
FN void y_codecopy(W d, W s, W n) { y_extcodecopy(fr->self, d, s, n); }
FN W y_zero0(void) { return 0; }
FN W y_zero1(W a) { (void)a; return 0; }
FN W y_pop(W a) { (void)a; return 0; }
__attribute__((noreturn)) FN void y_revert(W a, W n) { u64 o = rt_range(a, n); rt_revert(MEM + o, (u64)n); }
__attribute__((noreturn)) FN void y_return(W a, W n) { u64 o = rt_range(a, n); rt_setret(MEM + o, (u64)n); rt_exit(ST_OK); }
__attribute__((noreturn)) FN void y_stop(void) { rt_setret(0, 0); rt_exit(ST_OK); }
__attribute__((noreturn)) FN void y_invalid(void) { rt_exit(ST_INVALID); }

/* ---- storage composite values ---- */
FN u64 td_slots(const TD *t) {
  if (t->k == T_SARR) return t->len * td_slots(t->base);
  if (t->k == T_STRUCT) { u64 s = 0; for (int i = 0; i < t->n; i++) s += td_slots(t->mem[i]); return s ? s : 1; }
  return 1;
}
FN W slot_kec(W s) { uint8_t x[32]; st256(x, s); return keccak(x, 32); }
FN W rt_mapslot(W key, W slot) { uint8_t x[64]; st256(x, key); st256(x + 32, slot); return keccak(x, 64); }
FN W rt_sto2mem(const TD *t, W s) {
  switch (t->k) {
  case T_ARR: {
    W n = y_sload(s), d = slot_kec(s);
    if (n > MEMCAP) rt_oog();
    W p = rt_alloc(32 + n * 32);
    y_mstore(p, n);
    for (W i = 0; i < n; i++) y_mstore(p + 32 + 32 * i, rt_sto2mem(t->base, d + i * td_slots(t->base)));
    return p;
  }
  case T_SARR: {
    W p = rt_alloc((W)t->len * 32);
    for (u64 i = 0; i < t->len; i++) y_mstore(p + 32 * (W)i, rt_sto2mem(t->base, s + (W)i * td_slots(t->base)));
    return p;
  }
  case T_STRUCT: {
    W p = rt_alloc((W)t->n * 32);
    for (int i = 0; i < t->n; i++) { y_mstore(p + 32 * (W)i, rt_sto2mem(t->mem[i], s)); s += td_slots(t->mem[i]); }
    return p;
  }
  case T_BYTES: {
    W v = y_sload(s);
    if (!(v & 1)) { W n = (v & 0xff) >> 1; uint8_t x[32]; st256(x, v); return rt_bytes(x, (u64)n & 31); }
    W n = v >> 1, d = slot_kec(s);
    if (n > MEMCAP) rt_oog();
    W p = rt_alloc(32 + n);
    y_mstore(p, n);
    for (W i = 0; i * 32 < n; i++) y_mstore(p + 32 + 32 * i, y_sload(d + i));
    return p;
  }
  default: return td_clean(t, y_sload(s));
  }
}
FN void rt_stoclear(const TD *t, W s) {
  switch (t->k) {
  case T_ARR: { W n = y_sload(s), d = slot_kec(s); for (W i = 0; i < n; i++) { rt_loop(); rt_stoclear(t->base, d + i * td_slots(t->base)); } y_sstore(s, 0); return; }
  case T_SARR: for (u64 i = 0; i < t->len; i++) rt_stoclear(t->base, s + (W)i * td_slots(t->base)); return;
  case T_STRUCT: for (int i = 0; i < t->n; i++) { rt_stoclear(t->mem[i], s); s += td_slots(t->mem[i]); } return;
  default: y_sstore(s, 0);
  }
}
/* st: type of the memory value, t: type of the storage location */
FN void rt_mem2sto(const TD *st, const TD *t, W p, W s) {
  switch (t->k) {
  case T_ARR: {
    W n = st->k == T_SARR ? (W)st->len : y_mload(p), b = st->k == T_SARR ? p : p + 32, d = slot_kec(s);
    W old = y_sload(s);
    y_sstore(s, n);
    for (W i = 0; i < n; i++) { rt_loop(); rt_mem2sto(st->base, t->base, y_mload(b + 32 * i), d + i * td_slots(t->base)); }
    for (W i = n; i < old; i++) rt_stoclear(t->base, d + i * td_slots(t->base));
    return;
  }
  case T_SARR: for (u64 i = 0; i < t->len; i++) {
      if (i < (st->k == T_SARR ? st->len : ~0ULL)) rt_mem2sto(st->base, t->base, y_mload(p + 32 * (W)i), s + (W)i * td_slots(t->base));
      else rt_stoclear(t->base, s + (W)i * td_slots(t->base));
    }
    return;
  case T_STRUCT: for (int i = 0; i < t->n; i++) { rt_mem2sto(st->mem[i], t->mem[i], y_mload(p + 32 * (W)i), s); s += td_slots(t->mem[i]); } return;
  case T_BYTES: {
    W n = y_mload(p);
    if (n < 32) { W v = n ? y_mload(p + 32) & ~(n == 32 ? (W)0 : (~(W)0 >> (unsigned)(8 * n))) : (W)0; y_sstore(s, v | (n * 2)); return; }
    W d = slot_kec(s);
    y_sstore(s, n * 2 + 1);
    for (W i = 0; i * 32 < n; i++) y_sstore(d + i, y_mload(p + 32 + 32 * i));
    return;
  }
  default: y_sstore(s, td_clean(t, p));
  }
}

/* ---- calls ---- */
typedef void (*rt_entry)(void);
typedef struct { const char *name; rt_entry disp; void (*ctor)(const uint8_t *args, u64 n); } Contract;
extern const Contract CONTRACTS[];
extern const int NCONTRACTS;

FN int rt_run(W self, W caller, const uint8_t *cd, u64 n, rt_entry f, void (*ctor)(const uint8_t *, u64)) {
  if (depth + 1 >= MAXDEPTH) return ST_OOG;
  u64 j = njour;
  int na = naccts;
  depth++;
  Frame *volatile old = fr;
  fr = &frames[depth];
  if (!fr->mem) fr->mem = mmap(0, MEMCAP + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  MEM = fr->mem;
  memset(MEM, 0, fr->hw);
  fr->hw = 0;
  fr->self = self; fr->caller = caller; fr->value = 0;
  fr->cd = cd; fr->cdlen = n; fr->retlen = 0;
  LRETLEN = 0;
  int st = setjmp(fr->jb);
  if (st == 0) {
    y_mstore(0x40, 0x80);
    if (ctor) ctor(cd, n); else f();
    st = ST_OK;
  } else st--;
  if (st != ST_OK) rt_rollback(j, na);
  if (st == ST_INVALID || st == ST_OOG || st == ST_UNSUPPORTED) fr->retlen = 0;
  if (fr->retlen > LRETCAP) { LRETCAP = fr->retlen + 4096; LRET = realloc(LRET, LRETCAP); }
  if (fr->retlen) memcpy(LRET, fr->ret, fr->retlen);
  LRETLEN = fr->retlen;
  depth--;
  fr = old;
  MEM = fr ? fr->mem : 0;
  return st;
}
FN int rt_callraw(W to, const uint8_t *d, u64 n) {
  Acct *x = rt_acct(to & MAXU(160));
  if (!x) { LRETLEN = 0; return ST_OK; }
  if (x->cid < 0) { LRETLEN = 0; return x->codelen && x->code[0] == 0 ? ST_OK : (x->codelen ? ST_INVALID : ST_OK); }
  uint8_t *c = malloc(n + 1);
  if (n) memcpy(c, d, n);
  int st = rt_run(to & MAXU(160), fr ? fr->self : (W)0xca11e4, c, n, CONTRACTS[x->cid].disp, 0);
  free(c);
  if (st == ST_UNSUPPORTED) { if (fr) rt_exit(ST_UNSUPPORTED); }
  return st;
}
FN W y_call(W g, W to, W v, W in, W insz, W out, W outsz) {
  (void)g; (void)v;
  u64 i = rt_range(in, insz), o = rt_range(out, outsz);
  int st = rt_callraw(to, MEM + i, (u64)insz);
  u64 k = (u64)outsz < LRETLEN ? (u64)outsz : LRETLEN;
  if (k) memcpy(MEM + o, LRET, k);
  return st == ST_OK;
}
FN W y_staticcall(W g, W to, W in, W insz, W out, W outsz) { return y_call(g, to, 0, in, insz, out, outsz); }
/* high-level external call: encode at the free pointer, call, check, leave return data at the free pointer */
FN void rt_extcall(W to, const TD *const *ts, int n, const W *vals, W sel, int checkcode) {
  Buf b = {0};
  b_zeros(&b, 4);
  uint8_t x[32];
  st256(x, sel);
  memcpy(b.p, x, 4);
  Buf c = {0};
  enc_args(ts, n, vals, &c);
  u64 z = b_zeros(&b, c.n);
  if (c.n) memcpy(b.p + z, c.p, c.n);
  free(c.p);
  u64 o = rt_range(y_mload(0x40), b.n);
  memcpy(MEM + o, b.p, b.n);
  if (checkcode && y_extcodesize(to) == 0) { free(b.p); rt_revert0(); }
  int st = rt_callraw(to, b.p, b.n);
  free(b.p);
  if (st != ST_OK) rt_revert(LRET, LRETLEN);
}
FN void rt_extret(const TD *const *ts, int n, W *out) {
  W p = y_mload(0x40);
  u64 hs = 0;
  int dyn = 0;
  for (int i = 0; i < n; i++) { hs += td_head(ts[i]); dyn |= td_dyn(ts[i]); }
  u64 sz = dyn ? LRETLEN : (LRETLEN < hs ? LRETLEN : hs);
  u64 o = rt_range(p, sz);
  if (sz) memcpy(MEM + o, LRET, sz);
  y_mstore(0x40, p + ((sz + 31) & ~31ULL));
  uint8_t *c = malloc(sz + 1);
  memcpy(c, LRET, sz);
  Src s = {c, sz};
  rt_abi_dec(ts, 0, n, s, 0, out);
  free(c);
}
FN void rt_return_enc(const TD *const *ts, int n, const W *vals) {
  Buf b = {0};
  enc_args(ts, n, vals, &b);
  rt_setret(b.p, b.n);
  free(b.p);
}
/* low-level bytes call */
FN W rt_lowcall(W to, W data, W *retp) {
  W n = y_mload(data);
  u64 o = rt_range(data + 32, n);
  int st = rt_callraw(to, MEM + o, (u64)n);
  *retp = LRETLEN ? rt_bytes(LRET, LRETLEN) : (W)0x60;
  return st == ST_OK;
}

/* ---- creation ---- */
static W next_addr;
FN W rt_mkaddr(void) {
  uint8_t x[32];
  next_addr++;
  st256(x, next_addr);
  return keccak(x, 32) & MAXU(160);
}
FN W rt_mkaddr2(W salt, W codehash) {
  uint8_t x[85];
  uint8_t t[32];
  x[0] = 0xff;
  st256(t, fr ? fr->self : (W)0); memcpy(x + 1, t + 12, 20);
  st256(x + 21, salt);
  st256(x + 53, codehash);
  return keccak(x, 85) & MAXU(160);
}
FN int rt_deploy(int cid, const uint8_t *args, u64 n, W *addr, int withsalt, W salt) {
  W a;
  if (withsalt) { a = rt_mkaddr2(salt, keccak((const uint8_t *)CONTRACTS[cid].name, strlen(CONTRACTS[cid].name)) ^ keccak(args, n)); if (rt_acct(a)) { LRETLEN = 0; return ST_REVERT; } }
  else a = rt_mkaddr();
  u64 j = njour;
  int na = naccts;
  uint8_t code[40] = {0xfe};
  snprintf((char *)code + 1, 38, "%s", CONTRACTS[cid].name);
  rt_newacct(a, cid, code, 1 + strlen((char *)code + 1));
  uint8_t *c = malloc(n + 1);
  if (n) memcpy(c, args, n);
  int st = rt_run(a, fr ? fr->self : (W)0xca11e4, c, n, 0, CONTRACTS[cid].ctor);
  free(c);
  if (st != ST_OK) rt_rollback(j, na);
  *addr = a;
  return st;
}
FN W rt_new(int cid, const TD *const *ts, int n, const W *vals, int withsalt, W salt) {
  Buf b = {0};
  enc_args(ts, n, vals, &b);
  W a = 0;
  int st = rt_deploy(cid, b.p, b.n, &a, withsalt, salt);
  free(b.p);
  if (st == ST_UNSUPPORTED) rt_exit(st);
  if (st != ST_OK) rt_revert(LRET, LRETLEN);
  return a;
}
/* init code interpreter: enough of the EVM for data-deploying stubs */
FN int rt_initcode(const uint8_t *code, u64 n, Buf *out) {
  W st[64];
  int sp = 0;
  u64 pc = 0, steps = 0;
  uint8_t *m = calloc(1, 1 << 20);
  int ok = 0;
#define POP() (sp > 0 ? st[--sp] : (bad = 1, (W)0))
#define PUSH(x) do { W px_ = (x); if (sp < 64) st[sp++] = px_; else bad = 1; } while (0)
  int bad = 0;
  while (!bad && pc < n && steps++ < 100000) {
    uint8_t op = code[pc++];
    if (op >= 0x5f && op <= 0x7f) {
      W v = 0;
      for (int i = 0; i < op - 0x5f; i++) v = (v << 8) | (pc + (u64)i < n ? code[pc + (u64)i] : 0);
      pc += (u64)(op - 0x5f);
      PUSH(v);
    } else if (op >= 0x80 && op <= 0x8f) { int k = op - 0x7f; if (sp < k) bad = 1; else PUSH(st[sp - k]); }
    else if (op >= 0x90 && op <= 0x9f) { int k = op - 0x8f; if (sp <= k) bad = 1; else { W t = st[sp - 1]; st[sp - 1] = st[sp - 1 - k]; st[sp - 1 - k] = t; } }
    else if (op == 0x01) { W a = POP(), b = POP(); PUSH(a + b); }
    else if (op == 0x02) { W a = POP(), b = POP(); PUSH(a * b); }
    else if (op == 0x03) { W a = POP(), b = POP(); PUSH(a - b); }
    else if (op == 0x14) { W a = POP(), b = POP(); PUSH(a == b); }
    else if (op == 0x15) { W a = POP(); PUSH(a == 0); }
    else if (op == 0x34) PUSH(0);
    else if (op == 0x38) PUSH(n);
    else if (op == 0x3d) PUSH(0);
    else if (op == 0x50) { (void)POP(); }
    else if (op == 0x5b) {}
    else if (op == 0x39) {
      W d = POP(), s = POP(), l = POP();
      if (d > (1 << 20) || l > (1 << 20) - d) { bad = 1; break; }
      for (u64 i = 0; i < (u64)l; i++) m[(u64)d + i] = (s + i < n) ? code[(u64)s + i] : 0;
    } else if (op == 0x52) { W d = POP(), v = POP(); if (d > (1 << 20) - 32) { bad = 1; break; } st256(m + (u64)d, v); }
    else if (op == 0x53) { W d = POP(), v = POP(); if (d > (1 << 20) - 1) { bad = 1; break; } m[(u64)d] = (uint8_t)v; }
    else if (op == 0xf3) {
      W d = POP(), l = POP();
      if (bad || d > (1 << 20) || l > (1 << 20) - d) { bad = 1; break; }
      u64 z = b_zeros(out, (u64)l);
      if (l) memcpy(out->p + z, m + (u64)d, (u64)l);
      ok = 1;
      break;
    } else if (op == 0x00) { ok = 1; break; }
    else bad = 1;
  }
  free(m);
  return ok && !bad;
}
FN W rt_create(W off, W n, int two, W salt) {
  u64 o = rt_range(off, n);
  Buf out = {0};
  W a = 0;
  if (n > 49152) return 0; /* init code limit */
  if (rt_initcode(MEM + o, (u64)n, &out) && out.n <= 24576 && !(out.n && out.p[0] == 0xef)) {
    a = two ? rt_mkaddr2(salt, keccak(MEM + o, (u64)n)) : rt_mkaddr();
    if (two && rt_acct(a)) a = 0;
    else rt_newacct(a, -1, out.p, out.n);
  }
  free(out.p);
  LRETLEN = 0;
  return a;
}
FN W y_create(W v, W o, W n) { (void)v; return rt_create(o, n, 0, 0); }
FN W y_create2(W v, W o, W n, W s) { (void)v; return rt_create(o, n, 1, s); }

/* ---- exported interface ---- */
FN void w_out(W v, uint8_t *p) { st256(p, v); }
int vm_call(const uint8_t *addr, const uint8_t *d, u64 n, const uint8_t **out, u64 *outn) {
  loops = 0;
  int st = rt_callraw(ld256(addr), d, n);
  *out = LRET; *outn = LRETLEN;
  return st;
}
int vm_deploy(int cid, const uint8_t *args, u64 n, uint8_t *addr, const uint8_t **out, u64 *outn) {
  loops = 0;
  W a = 0;
  int st = rt_deploy(cid, args, n, &a, 0, 0);
  w_out(a, addr);
  *out = LRET; *outn = LRETLEN;
  return st;
}
void vm_setcode(const uint8_t *addr, const uint8_t *code, u64 n) { rt_newacct(ld256(addr), -1, code, n); }
int vm_getcode(const uint8_t *addr, const uint8_t **out, u64 *n) { Acct *x = rt_acct(ld256(addr)); if (!x) return 0; *out = x->code; *n = x->codelen; return 1; }
void vm_snapshot(u64 *j, int *na) { *j = njour; *na = naccts; }
void vm_rollback(u64 j, int na) { rt_rollback(j, na); }
const char *vm_unsupported(void) { return unsupported_msg; }
typedef struct { const char *name; rt_entry f; } Hook;
extern const Hook HOOKS[];
extern const int NHOOKS;
/* run hook k (an internal or free function) in the storage context of addr; data are ABI-encoded arguments after 4 bytes */
int vm_hook(int k, const uint8_t *addr, const uint8_t *d, u64 n, const uint8_t **out, u64 *outn) {
  loops = 0;
  int st = rt_run(ld256(addr), (W)0xca11e4, d, n, HOOKS[k].f, 0);
  *out = LRET; *outn = LRETLEN;
  return st;
}
int vm_ncontracts(void) { return NCONTRACTS; }
const char *vm_contract(int i) { return CONTRACTS[i].name; }
int vm_nhooks(void) { return NHOOKS; }
const char *vm_hookname(int i) { return HOOKS[i].name; }
