// interface between sched.cpp (runtime, uninstrumented) and sched_api.cpp
#pragma once
#include <stddef.h>
#include <unistd.h>

namespace rt {
struct Hooks
{
    void* arg;
    int (*choose)(void*, int); // -1: abandon the execution
    void (*thread)(void*, void* (*) (void*), void*);
    void (*step)(void*, int tid, unsigned long op);
};
bool active();
void set_active(bool);
int self();
const char* run(int n, void (**bodies)(void*), void** args, int preemptions,
                Hooks* h, unsigned long* points);
void fail(const char* msg);
void point();
void wait_until(bool (*)(void*), void*);
void describe_pc(void* pc, char* out, size_t n); // in sched_api.cpp
} // namespace rt
inline void pause_forever() { pause(); }
