#ifndef LITMUS_H
#define LITMUS_H
/* Every variable has a slot of its own; index in the table of values: x 0, y 1, z 2, w 3, i 4, h 5, b 6, p 7. */
#define V64 __attribute__((aligned(64)))
struct sh { long x V64; long y V64; long z V64; long w V64; int i V64; short h V64; unsigned char b V64; void *p V64; };
#define NV 8
#define MAXTH 3
typedef void (*thr_t)(struct sh *s, long *r);
enum { K_MP, K_SB, K_R, K_22W, K_LB, K_CORR, K_TEAR, K_CHAIN, K_CTRL_SB, K_S, K_SAME };
/* K_SAME: message passing between threads of one CPU, through the relaxed helpers; only the compiler could reorder. */
struct litmus { const char *name; int kind, nt; thr_t t[MAXTH]; int flag; };
#endif
