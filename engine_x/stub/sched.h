int sched_getcpu(void);
