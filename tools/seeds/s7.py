T = '''
#include <thread.h>
#include <condition.h>
#include <stdio.h>
#include <unistd.h>
#include <pthread.h>
struct Job : Thread { int ms; Job(int m) : ms(m) { resume(); } int run() { usleep(ms*1000); return 0; } int st() { return state; } };
'''
SRC = ['src/condition.cpp', 'src/lockfree.cpp', 'src/thread.cpp']
SEEDS = {
's29_one_waiter': dict(property='C29', needs='a thread that ends while one thread waits in join() for another thread and a second waits in joinAny()', breaks='the wake-up goes to the waiter that has no use for it, and joinAny() sleeps on',
  edits=[('src/thread.cpp', "		ended_threads_condition.broadcast();\n	}\n	thread_latch.leave();\n	return ret;", "		ended_threads_condition.signal();\n	}\n	thread_latch.leave();\n	return ret;")], srcs=SRC,
  demo=T + '''static Job* longer;
static void* joiner(void*) { longer->join(); return 0; }
int main() {
	alarm(20);
	longer = new Job(4000);
	pthread_t p; pthread_create(&p, 0, joiner, 0); usleep(300000);		// waits first
	struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	Job* s = new Job(300);
	Thread* t = Thread::joinAny();
	clock_gettime(CLOCK_MONOTONIC, &b);
	long ms = (b.tv_sec-a.tv_sec)*1000+(b.tv_nsec-a.tv_nsec)/1000000;
	printf("joinAny() %s after %ld ms\\n", t == s ? "returned the thread that ended" : "returned another thread", ms);
	return t == s && ms < 3000 ? 0 : 1;
}
'''),
's29_delete_ended': dict(property='C29', needs='an ended thread that is deleted without being joined, while others run', breaks='it stays counted as ended, and joinAny() searches for it for ever',
  edits=[('include/thread.h', "		if (state == Ended)\n			ended_count--;", "		if (state == Started)\n			ended_count--;")], srcs=SRC,
  demo=T + '''int main() {
	alarm(20);
	Job* a = new Job(1), *b = new Job(500);
	while (*(volatile int*)0 == 0 && false) ; while (a->st() != 2) usleep(1000);
	usleep(50000);
	delete a;
	Thread* t = Thread::joinAny();
	printf("%s\\n", t == b ? "ok" : "another thread");
	return t == b && Thread::joinAny() == 0 ? 0 : 1;
}
'''.replace("while (*(volatile int*)0 == 0 && false) ; ", "")),
's29_holding_keeps': dict(property='C29', needs='asking for a free latch whether this thread holds it', breaks='the question gains the latch, so other threads wait for ever',
  edits=[('include/lockfree.h', "	if (ret == 0)\n		leave();\n	return false;", "	return false;")], srcs=SRC,
  demo=T + '''static Latch l;
static void* other(void*) { bool b = l.probe(); if (b) l.leave(); return (void*)(long)b; }
int main() {
	alarm(20);
	bool h = l.holding();
	pthread_t p; pthread_create(&p, 0, other, 0); void* r; pthread_join(p, &r);
	printf("held %d, another thread can enter %d\\n", h, (int)(long)r);
	return !h && r ? 0 : 1;
}
'''),
}
