#ifndef VEXEC_SCHED_H
#define VEXEC_SCHED_H
extern volatile int sched_active;
void sched_point(void);   /* another thread may go on here */
void sched_block(void);   /* another thread has to go on first */
void sched_setup(int n, unsigned long seed, long slice);
void sched_go(void);
void sched_enter(int t);
void sched_leave(void);
unsigned long sched_stop(void);
#endif
