/* Controlled scheduler: real threads, one running at a time. */
#pragma once
#include <stdint.h>
#include <stddef.h>
struct vs_cfg {
    uint64_t seed;
    int mode;            /* 0 random walk, 1 PCT, 2 explicit list of switch points */
    unsigned p_sync;     /* random: switch with probability 1/p_sync at synchronization accesses (0 = never) */
    unsigned p_mem;      /* random: the same at plain accesses */
    unsigned depth;      /* PCT: number of priority changes */
    unsigned len;        /* PCT: estimated number of steps */
    unsigned long budget;/* forced yields before the run counts as hanging */
    long tick_ns;        /* virtual time that passes with every reading of the clock */
};
void vs_config(const struct vs_cfg* cfg); /* for a vs_run with cfg NULL */
void vs_run(const struct vs_cfg* cfg, int nthreads, void (*fn)(int));
int  vs_self(void);              /* thread number, -1 outside */
void vs_yield(void);             /* driver-level scheduling point */
void vs_sleep(long ns);          /* advance the virtual clock */
void vs_force(void);             /* forced switch (spinning) */
int  vs_hung(void);
uint64_t vs_rand(void);
extern void (*vs_on_hang)(void); /* called when the budget is exhausted; must not return */
extern unsigned long vs_steps, vs_switches;
