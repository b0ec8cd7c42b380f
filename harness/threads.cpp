// verification unit: threads, latches and conditions (the pthread configuration, as the Makefile builds it)
#if !defined(HAVE_PTHREADS)
#define HAVE_PTHREADS
#endif
#include <map>
#include <atomic>
#include <time.h>
#include <pthread.h>
#define private public
#define protected public
#include "lockfree.cpp"
#include "condition.cpp"
#include "thread.cpp"
#undef private
#undef protected
#include <stddef.h>
#include <new>

class AThread : public Thread { public: AThread() {} int run(); };	// run(): some user's code
int user_run(AThread* t);
int AThread::run() { return user_run(this); }

extern "C" {
unsigned long L_size() { return sizeof(AThread); }
unsigned long L_state() { return offsetof(AThread, state); }
unsigned long L_id() { return offsetof(AThread, thread_id); }
unsigned long L_latch() { return sizeof(Latch); }
unsigned long L_cond() { return sizeof(Condition); }
unsigned long L_main() { return sizeof(MainThread); }
unsigned long L_mutex() { return offsetof(Latch, mutex); }
int L_New() { return Thread::New; }
int L_Started() { return Thread::Started; }
int L_Ended() { return Thread::Ended; }
int L_EDEADLK() { return EDEADLK; }
int L_EBUSY() { return EBUSY; }
int L_ETIMEDOUT() { return ETIMEDOUT; }
int L_ERRORCHECK() { return PTHREAD_MUTEX_ERRORCHECK; }

void l_new(void* p) { new(p) Latch(); }
void l_del(Latch* l) { l->~Latch(); }
bool l_probe(Latch* l) { return l->probe(); }
void l_enter(Latch* l) { l->enter(); }
bool l_holding(Latch* l) { return l->holding(); }
void l_leave(Latch* l) { l->leave(); }

void c_new(void* p) { new(p) Condition(); }
void c_del(Condition* c) { c->~Condition(); }
bool c_ok(Condition* c) { return c->ok(); }
void c_wait(Condition* c, Latch* l) { c->wait(l); }
void c_timed(Condition* c, long* ms, Latch* l) { c->wait(*ms, l); }
void c_signal(Condition* c) { c->signal(); }
void c_broadcast(Condition* c) { c->broadcast(); }

void t_new(void* p) { new(p) AThread(); }
void t_del(AThread* t) { t->Thread::~Thread(); }
void t_resume(AThread* t) { t->resume(); }
void* t_proc(AThread* t) { return Thread::ThreadProc((void*)static_cast<Thread*>(t)); }
void t_exit(AThread* t, int code) { t->exit(code); }
Thread* t_joinAny() { return Thread::joinAny(); }
void t_join(AThread* t) { t->join(); }
Thread* t_current() { return Thread::current(); }
ThreadId t_currentId() { return Thread::currentId(); }
ThreadId t_id(AThread* t) { return t->id(); }
void t_yield(unsigned long ms) { Thread::yield(ms); }
void m_new(void* p) { new(p) MainThread(); }
void m_del(MainThread* t) { t->~MainThread(); }
}
