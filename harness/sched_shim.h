#ifndef SCHED_SHIM_H
#define SCHED_SHIM_H
void sched_shim_on(unsigned seed);
void sched_shim_off(void);
unsigned long sched_shim_switches(void);
#define INTERLEAVE (1u << 21)
#define REFUSE (1u << 22)
#define FREE_RUN (1u << 23)
#endif
