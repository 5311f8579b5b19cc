/* An allocator to install with vl_set_alloc_func: it fills the blocks it
 * returns with a pattern, puts guards around them, counts the live ones and
 * can be told to fail.  Blocks that did not come from it, are released twice
 * or were written beyond their ends are counted in vfm_bad.  */
#ifndef VF_MEM_H
#define VF_MEM_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <vl/generic.h>
typedef struct vfm_h { uint64_t magic; size_t size; struct vfm_h *next, *prev; } vfm_h;   /* 32 bytes */
#define VFM_LIVE 0x5ca1ab1e0ddba11ULL
#define VFM_DEAD 0xdeadbea7deadbea7ULL
static vfm_h vfm_list = {0, 0, &vfm_list, &vfm_list};
static long vfm_live, vfm_total, vfm_bad, vfm_fail_at = -1; static int vfm_fill = 0xa5;
static int vfm_check(vfm_h *h) { int i; unsigned char *t = (unsigned char *)(h + 1) + h->size; if (h->magic != VFM_LIVE) return 0; for (i = 0; i < 32; ++i) if (t[i] != 0xc3) return 0; return 1; }
static void *vfm_malloc(size_t n) { vfm_h *h; if (vfm_fail_at >= 0 && vfm_total >= vfm_fail_at) { vfm_total++; return NULL; } h = malloc(sizeof *h + n + 32); if (!h) return NULL; vfm_total++; vfm_live++; h->magic = VFM_LIVE; h->size = n; h->next = vfm_list.next; h->prev = &vfm_list; h->next->prev = h; vfm_list.next = h; memset(h + 1, vfm_fill, n); memset((unsigned char *)(h + 1) + n, 0xc3, 32); return h + 1; }
static void *vfm_calloc(size_t n, size_t k) { void *p = vfm_malloc(n * k); if (p) memset(p, 0, n * k); return p; }
static void vfm_free(void *p) { vfm_h *h; if (!p) return; h = (vfm_h *)p - 1; if (!vfm_check(h)) { vfm_bad++; if (h->magic != VFM_LIVE) return; } h->next->prev = h->prev; h->prev->next = h->next; h->magic = VFM_DEAD; memset(p, 0xdd, h->size); vfm_live--; free(h); }
static void *vfm_realloc(void *p, size_t n) { void *q; vfm_h *h; if (!p) return vfm_malloc(n); h = (vfm_h *)p - 1; if (h->magic != VFM_LIVE) { vfm_bad++; return NULL; } q = vfm_malloc(n); if (q) { memcpy(q, p, h->size < n ? h->size : n); vfm_free(p); } return q; }
static void vfm_scan(void) { vfm_h *h; for (h = vfm_list.next; h != &vfm_list; h = h->next) if (!vfm_check(h)) vfm_bad++; }
static void vfm_install(void) { vl_set_alloc_func(vfm_malloc, vfm_realloc, vfm_calloc, vfm_free); }
#endif
