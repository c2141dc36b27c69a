/* Patches: bytes or lengths that a case takes instead of what its generator chose. */
#include "guided.h"
pset_t gp_cur;
static pset_t eff;
void gp_begin(G *g)
{
    memset(&eff, 0, sizeof eff);
    if (g->mode == G_FUZZ) return;
    eff.n = g_put(g, NPATCH + 1, gp_cur.n);
    for (u32 i = 0; i < eff.n; i++) {
        patch_t *p = &eff.p[i], *c = &gp_cur.p[i];
        p->what = (u8)g_put(g, NIN, c->what);
        p->w = (u8)g_put(g, 9, c->w);
        p->off = g_put(g, 1u << 21, c->off);
        for (int j = 0; j < 4; j++) p->v |= (u64)g_put(g, 65536, (u32)(c->v >> (16 * j)) & 0xffff) << (16 * j);
        if (g->verbose) g_note(g, "patch %u:+%u/%u=%llx ", p->what, p->off, p->w, (unsigned long long)p->v);
    }
}
int gp_has(int what) { for (u32 i = 0; i < eff.n; i++) if (eff.p[i].what == what) return 1; return 0; }
void gp_apply(int what, u8 *p, size_t n)
{
    for (u32 i = 0; i < eff.n; i++)
        if (eff.p[i].what == what)
            for (u32 j = 0; j < eff.p[i].w; j++)
                if (eff.p[i].off + j < n) p[eff.p[i].off + j] = (u8)(eff.p[i].v >> (8 * j));
}
size_t gp_len(int what, size_t v, size_t max)
{
    for (u32 i = 0; i < eff.n; i++) if (eff.p[i].what == what) v = eff.p[i].v > max ? max : (size_t)eff.p[i].v;
    return v;
}
#ifndef GUIDED
void gi_input(int what, const u8 *p, size_t n) { (void)what; (void)p; (void)n; }
void gi_length(int what, size_t v) { (void)what; (void)v; }
#endif
