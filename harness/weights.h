/* C14: the mean weight of every value seen at a program point, in two groups of runs. */
#ifndef WEIGHTS_H
#define WEIGHTS_H
#include <stdint.h>
#include <string.h>
#define NPC 65536
#define NS 16                               /* runs in a group */
typedef struct { uint32_t pc, type, points, pad; double mean[2]; } w_found_t;
#endif
#ifdef WEIGHTS_IMPL
static struct { uint32_t pc; int type; double s[2], q[2]; uint32_t v; } PV[NPC];
static uint32_t used[NPC], nused;
static unsigned w_hw(uint64_t v) { return (unsigned)__builtin_popcountll(v); }
static void w_acc(uintptr_t pc, int type, unsigned v)
{
    uint32_t i = ((uint32_t)pc * 2654435761u + (uint32_t)type * 977u) % NPC;
    while (PV[i].pc && (PV[i].pc != (uint32_t)pc || PV[i].type != type)) i = (i + 1) % NPC;
    if (!PV[i].pc) {
        if (nused > NPC / 2) return;
        PV[i].pc = (uint32_t)pc;
        PV[i].type = type;
        used[nused++] = i;
    }
    PV[i].v += v;
}
static void w_new(void)
{
    for (uint32_t i = 0; i < nused; i++) memset(&PV[used[i]], 0, sizeof PV[0]);
    nused = 0;
}
static void w_sample(void) { for (uint32_t i = 0; i < nused; i++) PV[used[i]].v = 0; }
static void w_add(int group)
{
    for (uint32_t i = 0; i < nused; i++) {
        double v = PV[used[i]].v;
        PV[used[i]].s[group] += v;
        PV[used[i]].q[group] += v * v;
    }
}
static void w_find(w_found_t *w)
{
    memset(w, 0, sizeof *w);
    w->points = nused;
    for (uint32_t i = 0; i < nused && !w->pc; i++) {
        double m0 = PV[used[i]].s[0] / NS, m1 = PV[used[i]].s[1] / NS;
        double v0 = PV[used[i]].q[0] / NS - m0 * m0, v1 = PV[used[i]].q[1] / NS - m1 * m1;
        double d = m0 < m1 ? m1 - m0 : m0 - m1, big = m0 < m1 ? m1 : m0;
        if (d < 2.5 || d < 0.2 * big) continue;
        if (d * d * NS < 81 * (v0 + v1)) continue;       /* nine standard errors */
        w->pc = PV[used[i]].pc;
        w->type = (uint32_t)PV[used[i]].type;
        w->mean[0] = m0;
        w->mean[1] = m1;
    }
}
#endif
