// Copy-on-write paged byte memory with per-byte addressability and optional
// per-byte symbolic content.
#pragma once
#include "expr.h"
#include <cstdlib>

static const u64 PGSZ = 1024;
static const u64 MMAP_BASE = 0x60000000ull;
enum { V_NONE = 0, V_OK = 1, V_RZ = 2 /* stack red zone */, V_FREED = 3, V_RO = 4 };

struct Page {
  uint32_t rc;
  Expr **sym;            // null or PGSZ entries
  uint8_t data[PGSZ];
  uint8_t st[PGSZ];      // addressability state
};
struct L3 { uint32_t rc; Page *p[256]; };
struct L2 { uint32_t rc; L3 *p[128]; };
struct L1 { uint32_t rc; L2 *p[128]; };

extern u64 g_pagesAlive;

struct Mem {
  L1 *root;
  u64 tlbPg[64];
  Page *tlb[64];
  u64 wtlbPg[64];
  Page *wtlb[64];
  u64 mmapTop = MMAP_BASE;
  static Page *zeroPage() {
    static Page *z = nullptr;
    if (!z) { z = (Page *)calloc(1, sizeof(Page)); z->rc = 1u << 30; memset(z->st, V_OK, PGSZ); }
    return z;
  }
  Mem() { root = (L1 *)calloc(1, sizeof(L1)); root->rc = 1; flush(); }
  ~Mem() { drop1(root); }
  void flush() {
    for (int i = 0; i < 64; i++) tlbPg[i] = wtlbPg[i] = ~0ull;
  }
  Mem(const Mem &) = delete;
  Mem *clone() {
    Mem *m = new Mem();
    free(m->root);
    m->root = root;
    m->mmapTop = mmapTop;
    root->rc++;
    // our write TLB entries are no longer exclusively ours
    for (int i = 0; i < 64; i++) wtlbPg[i] = ~0ull;
    return m;
  }
  static void drop1(L1 *r) {
    if (--r->rc) return;
    for (int i = 0; i < 128; i++) if (r->p[i]) drop2(r->p[i]);
    free(r);
  }
  static void drop2(L2 *r) {
    if (--r->rc) return;
    for (int i = 0; i < 128; i++) if (r->p[i]) drop3(r->p[i]);
    free(r);
  }
  static void drop3(L3 *r) {
    if (--r->rc) return;
    for (int i = 0; i < 256; i++) if (r->p[i]) dropP(r->p[i]);
    free(r);
  }
  static void dropP(Page *p) {
    if (--p->rc) return;
    g_pagesAlive--;
    free(p->sym);
    free(p);
  }
  Page *rd(u64 addr) {
    u64 pg = addr / PGSZ;
    unsigned h = pg & 63;
    if (tlbPg[h] == pg) return tlb[h];
    if (pg >= (1u << 22)) return nullptr;
    Page *p = nullptr;
    if (L2 *l2 = root->p[pg >> 15])
      if (L3 *l3 = l2->p[(pg >> 8) & 127]) p = l3->p[pg & 255];
    if (!p) {
      if (addr >= MMAP_BASE && addr < mmapTop) return zeroPage();
      return nullptr;
    }
    tlbPg[h] = pg;
    tlb[h] = p;
    return p;
  }
  Page *wr(u64 addr, bool create = false) {
    u64 pg = addr / PGSZ;
    unsigned h = pg & 63;
    if (wtlbPg[h] == pg) return wtlb[h];
    if (pg >= (1u << 22)) return nullptr;
    if (!create && !rd(addr)) return nullptr;
    if (root->rc > 1) {
      L1 *n = (L1 *)malloc(sizeof(L1));
      *n = *root;
      n->rc = 1;
      for (int i = 0; i < 128; i++) if (n->p[i]) n->p[i]->rc++;
      root->rc--;
      root = n;
    }
    L2 *&l2 = root->p[pg >> 15];
    if (!l2) { l2 = (L2 *)calloc(1, sizeof(L2)); l2->rc = 1; }
    else if (l2->rc > 1) {
      L2 *n = (L2 *)malloc(sizeof(L2));
      *n = *l2; n->rc = 1;
      for (int i = 0; i < 128; i++) if (n->p[i]) n->p[i]->rc++;
      l2->rc--; l2 = n;
    }
    L3 *&l3 = l2->p[(pg >> 8) & 127];
    if (!l3) { l3 = (L3 *)calloc(1, sizeof(L3)); l3->rc = 1; }
    else if (l3->rc > 1) {
      L3 *n = (L3 *)malloc(sizeof(L3));
      *n = *l3; n->rc = 1;
      for (int i = 0; i < 256; i++) if (n->p[i]) n->p[i]->rc++;
      l3->rc--; l3 = n;
    }
    Page *&p = l3->p[pg & 255];
    if (!p) {
      p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; g_pagesAlive++;
      if (addr >= MMAP_BASE && addr < mmapTop) memset(p->st, V_OK, PGSZ);
    }
    else if (p->rc > 1) {
      Page *n = (Page *)malloc(sizeof(Page));
      memcpy(n, p, sizeof(Page));
      g_pagesAlive++;
      n->rc = 1;
      if (p->sym) { n->sym = (Expr **)malloc(PGSZ * sizeof(Expr *)); memcpy(n->sym, p->sym, PGSZ * sizeof(Expr *)); }
      p->rc--; p = n;
    }
    tlbPg[h] = pg; tlb[h] = p;
    wtlbPg[h] = pg; wtlb[h] = p;
    return p;
  }
  void setState(u64 a, u64 n, uint8_t st) {
    while (n) {
      Page *p = wr(a, true);
      u64 o = a % PGSZ, k = PGSZ - o < n ? PGSZ - o : n;
      memset(p->st + o, st, k);
      a += k; n -= k;
    }
  }
  void fill(u64 a, u64 n, uint8_t v) {
    while (n) {
      Page *p = wr(a, true);
      u64 o = a % PGSZ, k = PGSZ - o < n ? PGSZ - o : n;
      memset(p->data + o, v, k);
      if (p->sym) memset(p->sym + o, 0, k * sizeof(Expr *));
      a += k; n -= k;
    }
  }
  uint8_t stateAt(u64 a) { Page *p = rd(a); return p ? p->st[a % PGSZ] : V_NONE; }
  // raw byte access (no checks)
  bool rawByte(u64 a, uint8_t &v, Expr *&e) {
    Page *p = rd(a);
    if (!p) return false;
    u64 o = a % PGSZ;
    e = p->sym ? p->sym[o] : nullptr;
    v = p->data[o];
    return true;
  }
  void putByte(u64 a, uint8_t v, Expr *e) {
    Page *p = wr(a);
    u64 o = a % PGSZ;
    if (e && isC(e)) { v = (uint8_t)e->c; e = nullptr; }
    p->data[o] = v;
    if (e) {
      if (!p->sym) p->sym = (Expr **)calloc(PGSZ, sizeof(Expr *));
      p->sym[o] = e;
    } else if (p->sym) p->sym[o] = nullptr;
  }
};
