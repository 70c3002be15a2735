/* watchMemory(mb): end this process by SIGXCPU, as if it were out of time, once it holds more memory than that.  A program
   that recurses for ever, or one that a defect keeps running, would otherwise take all of the machine's memory before its
   time is up. */
#ifndef WATCH_H
#define WATCH_H
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>

static unsigned long watchPages;

static void watchTick(int s) {
	char b[128];
	unsigned long n = 0;
	int f = open("/proc/self/statm", O_RDONLY);
	(void) s;
	if (f < 0) return;
	ssize_t k = read(f, b, sizeof b - 1);
	close(f);
	if (k <= 0) return;
	b[k] = 0;
	const char *c = b;
	while (*c && *c != ' ') c++;
	if (*c) for (c++; *c >= '0' && *c <= '9'; c++) n = 10 * n + (unsigned long) (*c - '0');
	if (n > watchPages) {
		signal(SIGXCPU, SIG_DFL);
		kill(getpid(), SIGXCPU);
	}
}

static void watchMemory(unsigned long mb) {
	static struct sigaction a;
	struct itimerval t = {{0, 20000}, {0, 20000}};
	a.sa_handler = watchTick;
	a.sa_flags = SA_RESTART;
	watchPages = mb * ((1ul << 20) / (unsigned long) sysconf(_SC_PAGESIZE));
	sigaction(SIGPROF, &a, 0);
	setitimer(ITIMER_PROF, &t, 0);
}
#endif
