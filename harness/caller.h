// State of the process that belongs to the caller.
#pragma once
#include <string>
#include <vector>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <signal.h>
#include <sched.h>
#include <locale.h>
#include <sys/resource.h>
#include <unistd.h>
namespace vh {

// what else of the process belongs to the caller: a call that borrows any of it has to give it back
struct Caller {
	cpu_set_t cpus;
	int prio, umaskv;
	std::string loc, cwd, env;
	std::vector<std::string> handlers;
	static Caller now() {
		Caller s;
		CPU_ZERO(&s.cpus);
		sched_getaffinity(0, sizeof s.cpus, &s.cpus);
		s.prio = getpriority(PRIO_PROCESS, 0);
		s.umaskv = umask(022); umask(s.umaskv);
		const char* l = setlocale(LC_ALL, NULL);
		s.loc = l ? l : "";
		char buf[4096];
		s.cwd = getcwd(buf, sizeof buf) ? buf : "";
		for(char** e = environ; *e; e++) { s.env += *e; s.env += '\n'; }
		for(int g = 1; g < 32; g++) {
			struct sigaction sa;
			memset(&sa, 0, sizeof sa);
			sigaction(g, NULL, &sa);
			s.handlers.push_back(std::string((char*) &sa.sa_handler, sizeof sa.sa_handler) + fmt("%d", sa.sa_flags));
		}
		return s;
	}
	const char* differs(const Caller& o) const {
		return !CPU_EQUAL(&cpus, &o.cpus) ? "set of processors" : prio != o.prio ? "priority" : umaskv != o.umaskv ? "umask" : loc != o.loc ? "locale" :
			cwd != o.cwd ? "working directory" : env != o.env ? "environment" : handlers != o.handlers ? "signal handlers" : NULL;
	}
};

}
