// Helpers of the demonstrations: event loops, fibers, waiting with a limit.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <time.h>
#include <functional>
#include <atomic>
#include <vector>
#include <string>
#include <thread>
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kconnection.h"
#include "kserver.h"
#include "kthread.h"
#include "kasync_worker.h"
#include "kmalloc.h"
static void fail(const char* what) { printf("BROKEN: %s\n", what); fflush(stdout); _exit(1); }
static void pass() { printf("ok\n"); fflush(stdout); _exit(0); }
#define CHECK(x) do { if (!(x)) fail(#x); } while (0)
static long now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
template <class F> static bool wait_for(F f, int ms = 10000) { long e = now_ms() + ms; while (!f()) { if (now_ms() > e) return false; usleep(500); } return true; }
struct Fn { std::function<void()> f; };
static kev_result run_post(KOPAQUE, void* arg, int) { Fn* p = (Fn*)arg; p->f(); delete p; return kev_ok; }
static void post(kselector* s, std::function<void()> f) { kgl_selector_module.next(s, NULL, run_post, new Fn{ f }, 0); }
static int run_fiber(void* arg, int) { Fn* p = (Fn*)arg; p->f(); delete p; return 0; }
static void spawn(kselector* s, std::function<void()> f) { if (kfiber_create2(s, run_fiber, new Fn{ f }, 0, 0, NULL) != 0) fail("cannot create a fiber"); }
static void spawn_here(std::function<void()> f) { if (kfiber_create(run_fiber, new Fn{ f }, 0, 0, NULL) != 0) fail("cannot create a fiber"); }
static void loops(int n) {
	signal(SIGPIPE, SIG_IGN);
	kasync_init();
	selector_manager_init(n, false);
	selector_manager_start(NULL, true);
	std::atomic<int>* up = new std::atomic<int>(0);
	int m = get_selector_count();
	for (int i = 0; i < m; i++) post(get_selector_by_index(i), [up] { (*up)++; });
	if (!wait_for([up, m] { return *up == m; })) fail("the loops do not start");
}
static kselector* loop(int i) { return get_selector_by_index(i % get_selector_count()); }
static const char* own_loopback() { static char b[32]; unsigned p = getpid(); snprintf(b, sizeof b, "127.%u.%u.%u", 1 + (p >> 16) % 250, (p >> 8) & 255, 1 + (p & 255) % 254); return b; }
