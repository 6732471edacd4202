/* Runs a program and counts its file system operations on paths under DIR
 * and on its standard output; does what it is told at some of them.
 *
 *   tracer LOG DIR FD N=ACTION,N=ACTION... PROGRAM ARG...
 *
 * N is the number of an operation, starting with 1; or KIND:N, the number among those of its
 * kind: out (standard output), the name of an operation on the file that the environment
 * says is TRACED_DUMP, index-NAME for other files.  Actions:
 *   kill      the program is killed before the operation
 *   halfkill  a write or read is cut to half its length, then the program is killed
 *   half      a write or read is cut to half its length
 *   lostE     a file that was written is closed: half of it is gone, and the close fails with errno E
 *   errE      the operation is not done, it fails with errno E
 * full=N: from operation N on there is no space for anything that is written.
 *   sleepMS   the operation begins MS milliseconds later; everything else goes on
 * all=stop: every operation waits.
 *   stop      the operation waits for a line on standard input that says what
 *             to do with it: "go" or one of the other actions
 * Every operation is written to LOG as: number, name, path; what is written to
 * standard error as: 0, stderr, bytes in hexadecimal; what a read gave as: 0, got,
 * number of bytes, path.  "stopped N" is written to descriptor FD when an operation waits.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static const struct op { long nr; const char *name; int path, fd, count; } ops[] = {
	/* arguments that hold a path, a descriptor and a length; 0: none */
	{SYS_openat, "open", 2, 0, 0}, {SYS_open, "open", 1, 0, 0}, {SYS_creat, "open", 1, 0, 0},
	{SYS_read, "read", 0, 1, 3}, {SYS_pread64, "read", 0, 1, 3}, {SYS_readv, "read", 0, 1, 0},
	{SYS_write, "write", 0, 1, 3}, {SYS_pwrite64, "write", 0, 1, 3}, {SYS_writev, "write", 0, 1, 0},
	{SYS_copy_file_range, "write", 0, 3, 0}, {SYS_sendfile, "write", 0, 1, 0}, {SYS_splice, "write", 0, 3, 0},
	{SYS_close, "close", 0, 1, 0}, {SYS_fsync, "sync", 0, 1, 0}, {SYS_fdatasync, "sync", 0, 1, 0},
	{SYS_ftruncate, "truncate", 0, 1, 0}, {SYS_truncate, "truncate", 1, 0, 0}, {SYS_fallocate, "truncate", 0, 1, 0},
	{SYS_mkdirat, "mkdir", 2, 0, 0}, {SYS_mkdir, "mkdir", 1, 0, 0},
	{SYS_renameat, "rename", 2, 0, 0}, {SYS_renameat2, "rename", 2, 0, 0}, {SYS_rename, "rename", 1, 0, 0},
	{SYS_linkat, "link", 2, 0, 0}, {SYS_link, "link", 1, 0, 0}, {SYS_symlinkat, "link", 3, 0, 0}, {SYS_symlink, "link", 2, 0, 0},
	{SYS_unlinkat, "unlink", 2, 0, 0}, {SYS_unlink, "unlink", 1, 0, 0}, {SYS_rmdir, "unlink", 1, 0, 0},
	{SYS_fstat, "stat", 0, 1, 0}, {SYS_newfstatat, "stat", 2, 0, 0}, {SYS_stat, "stat", 1, 0, 0}, {SYS_lstat, "stat", 1, 0, 0},
	{SYS_statx, "stat", 2, 0, 0}, {SYS_lseek, "seek", 0, 1, 0}, {SYS_getdents64, "list", 0, 1, 0},
	{SYS_flock, "lock", 0, 1, 0}, {SYS_utimensat, "chtime", 2, 0, 0}, {SYS_fchmodat, "chmod", 2, 0, 0}, {SYS_fchmod, "chmod", 0, 1, 0},
	{SYS_mmap, "map", 0, 5, 0},
};
#define NOPS (int)(sizeof ops / sizeof *ops)

static unsigned long long *reg(struct user_regs_struct *r, int i)
{
	switch (i) {
	case 1: return &r->rdi;
	case 2: return &r->rsi;
	case 3: return &r->rdx;
	case 4: return &r->r10;
	case 5: return &r->r8;
	default: return &r->r9;
	}
}

static int get_string(pid_t pid, unsigned long long at, char *buf, size_t max)
{
	size_t n = 0;
	while (n < max - 1) {
		size_t k = 4096 - (at + n) % 4096;
		if (k > max - 1 - n)
			k = max - 1 - n;
		struct iovec l = {buf + n, k}, r = {(void *)(at + n), k};
		ssize_t got = process_vm_readv(pid, &l, 1, &r, 1, 0);
		if (got <= 0)
			break;
		char *e = memchr(buf + n, 0, got);
		if (e)
			return 1;
		n += got;
	}
	buf[n] = 0;
	return n > 0;
}

/* what is known of each thread */
static struct thread { pid_t pid; double wake; long fail; int die; long mapped; char *reading; } threads[4096];
static int nthreads;
static struct thread *thread(pid_t pid)
{
	for (int i = 0; i < nthreads; i++)
		if (threads[i].pid == pid)
			return &threads[i];
	if (nthreads == 4096)
		exit(99);
	threads[nthreads] = (struct thread){pid, 0, 0, 0, 0, NULL};
	return &threads[nthreads++];
}

/* the action of the plan for this key */
static const char *planned(const char *plan, const char *key)
{
	while (plan && strncmp(plan, key, strlen(key)))
		plan = (plan = strchr(plan, ',')) ? plan + 1 : NULL;
	return plan ? plan + strlen(key) : "";
}

static struct kind { char name[32]; int seen; } kinds[64];
static int count(const char *name)
{
	int i = 0;
	while (i < 63 && *kinds[i].name && strcmp(kinds[i].name, name))
		i++;
	strcpy(kinds[i].name, name);
	return ++kinds[i].seen;
}

static double now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

int main(int argc, char **argv)
{
	if (argc < 6)
		return 98;
	FILE *log = fopen(argv[1], "w");
	const char *dir = argv[2], *plan = argv[4];
	int notify = atoi(argv[3]);
	setvbuf(log, NULL, _IOLBF, 0);
	pid_t child = fork();
	if (child == 0) {
		int null = open("/dev/null", O_RDONLY);
		dup2(null, 0);
		close(null);
		close(notify);
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execv(argv[5], argv + 5);
		_exit(97);
	}
	int status, n = 0, result = 99;
	waitpid(child, &status, 0);
	if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL))
		return 96;
	ptrace(PTRACE_SYSCALL, child, 0, 0);
	for (;;) {
		/* threads that sleep are left in their stop until it is time */
		int asleep = 0;
		for (int i = 0; i < nthreads; i++)
			if (threads[i].wake) {
				asleep = 1;
				if (now() >= threads[i].wake) {
					threads[i].wake = 0;
					ptrace(PTRACE_SYSCALL, threads[i].pid, 0, 0);
				}
			}
		pid_t pid = waitpid(-1, &status, __WALL | (asleep ? WNOHANG : 0));
		if (pid == 0) {
			usleep(2000);
			continue;
		}
		if (pid < 0)
			break;
		if (WIFEXITED(status) || WIFSIGNALED(status)) {
			if (pid == child)
				result = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
			continue;
		}
		if (!WIFSTOPPED(status))
			continue;
		int sig = WSTOPSIG(status);
		struct thread *t = thread(pid);
		if (sig != (SIGTRAP | 0x80)) {
			if (status >> 16)
				sig = 0; /* a ptrace event */
			else if (sig == SIGSTOP)
				sig = 0; /* a new thread */
			ptrace(PTRACE_SYSCALL, pid, 0, sig);
			continue;
		}
		struct __ptrace_syscall_info info;
		if (ptrace(PTRACE_GET_SYSCALL_INFO, pid, sizeof info, &info) <= 0) {
			ptrace(PTRACE_SYSCALL, pid, 0, 0);
			continue;
		}
		if (info.op == PTRACE_SYSCALL_INFO_EXIT) {
			if (t->die) {
				kill(child, SIGKILL);
				continue;
			}
			if (t->fail) {
				struct user_regs_struct r;
				ptrace(PTRACE_GETREGS, pid, 0, &r);
				r.rax = -t->fail;
				ptrace(PTRACE_SETREGS, pid, 0, &r);
				t->fail = 0;
			} else if (t->reading && info.exit.rval > 0)
				fprintf(log, "0 got %ld %s\n", t->mapped ? t->mapped : (long)info.exit.rval, t->reading);
			free(t->reading);
			t->reading = NULL;
			ptrace(PTRACE_SYSCALL, pid, 0, 0);
			continue;
		}
		if (info.op != PTRACE_SYSCALL_INFO_ENTRY) {
			ptrace(PTRACE_SYSCALL, pid, 0, 0);
			continue;
		}
		const struct op *op = NULL;
		for (int i = 0; i < NOPS; i++)
			if (ops[i].nr == (long)info.entry.nr)
				op = &ops[i];
		char path[PATH_MAX + 1] = "";
		int ours = 0;
		if (op && op->path) {
			ours = get_string(pid, info.entry.args[op->path - 1], path, sizeof path) && strstr(path, dir);
			if (!ours && *path && *path != '/') { /* relative to the directory it works in, or to an open one */
				char link[64], base[PATH_MAX + 1];
				if (op->path == 2 && (int)info.entry.args[0] != AT_FDCWD)
					sprintf(link, "/proc/%d/fd/%d", (int)pid, (int)info.entry.args[0]);
				else
					sprintf(link, "/proc/%d/cwd", (int)pid);
				ssize_t k = readlink(link, base, PATH_MAX);
				base[k > 0 ? k : 0] = 0;
				ours = strstr(base, dir) != NULL;
			}
		} else if (op) {
			char link[64];
			long fd = (long)(int)info.entry.args[op->fd - 1];
			if (fd >= 0) {
				sprintf(link, "/proc/%d/fd/%ld", (int)pid, fd);
				ssize_t k = readlink(link, path, PATH_MAX);
				path[k > 0 ? k : 0] = 0;
				ours = strstr(path, dir) || (fd == 1 && !strcmp(op->name, "write"));
				if (fd == 1)
					strcpy(path, "(stdout)");
			}
		}
		if (op && !strcmp(op->name, "write") && op->count && info.entry.args[0] == 2) {
			static unsigned char buf[65536];
			size_t len = info.entry.args[2] < sizeof buf ? info.entry.args[2] : sizeof buf;
			struct iovec l = {buf, len}, r = {(void *)info.entry.args[1], len};
			ssize_t got = process_vm_readv(pid, &l, 1, &r, 1, 0);
			fprintf(log, "0 stderr ");
			for (ssize_t i = 0; i < got; i++)
				fprintf(log, "%02x", buf[i]);
			fprintf(log, "\n");
		}
		if (ours) {
			n++;
			t->mapped = strcmp(op->name, "map") ? 0 : info.entry.args[1];
			free(t->reading);
			t->reading = t->mapped || !strcmp(op->name, "read") ? strdup(path) : NULL;
			fprintf(log, "%d %s %s\n", n, op->name, path);
			char key[64], of[32];
			sprintf(key, "%d=", n);
			const char *a = planned(plan, key), *dump = getenv("TRACED_DUMP");
			if (dump) {
				sprintf(of, "%s%s", strcmp(path, "(stdout)") ? strcmp(path, dump) ? "index-" : "" : "out", strcmp(path, "(stdout)") ? op->name : "");
				sprintf(key, "%s:%d=", of, count(of));
				if (!*a)
					a = planned(plan, key);
			}
			const char *full = strstr(plan, "full=");
			if (!*a && full && n >= atoi(full + 5) && strcmp(path, "(stdout)") && (!strcmp(op->name, "write") || !strcmp(op->name, "mkdir")))
				a = "err28";
			if (!*a && !strncmp(plan, "all=stop", 8))
				a = "stop";
			char line[64];
			if (!strncmp(a, "stop", 4)) {
				size_t k = 0;
				dprintf(notify, "stopped %d\n", n);
				while (k < sizeof line - 1 && read(0, line + k, 1) == 1 && line[k] != '\n')
					k++;
				line[k] = 0;
				a = k ? line : "kill"; /* nobody is there any more */
			}
			struct user_regs_struct r;
			if (!strncmp(a, "half", 4)) {
				ptrace(PTRACE_GETREGS, pid, 0, &r);
				if (op->count && *reg(&r, op->count) > 1) {
					*reg(&r, op->count) /= 2;
					ptrace(PTRACE_SETREGS, pid, 0, &r);
				}
				t->die = !strncmp(a, "halfkill", 8);
			} else if (!strncmp(a, "kill", 4)) {
				kill(child, SIGKILL);
				continue;
			} else if (!strncmp(a, "sleep", 5)) {
				t->wake = now() + atol(a + 5) / 1000.0;
				continue;
			} else if (!strncmp(a, "lost", 4)) {
				/* as on a file system that stores late and tells so when the file is closed */
				char link[64];
				struct stat st;
				sprintf(link, "/proc/%d/fd/%d", (int)pid, (int)info.entry.args[0]);
				if (!strcmp(op->name, "close") && !lstat(link, &st) && st.st_mode & S_IWUSR && !stat(link, &st) && S_ISREG(st.st_mode))
					if (truncate(link, st.st_size / 2))
						return 95;
				ptrace(PTRACE_GETREGS, pid, 0, &r);
				r.orig_rax = -1;
				ptrace(PTRACE_SETREGS, pid, 0, &r);
				t->fail = atol(a + 4);
			} else if (!strncmp(a, "err", 3)) {
				ptrace(PTRACE_GETREGS, pid, 0, &r);
				r.orig_rax = -1;
				ptrace(PTRACE_SETREGS, pid, 0, &r);
				t->fail = atol(a + 3);
			}
		}
		ptrace(PTRACE_SYSCALL, pid, 0, 0);
	}
	fclose(log);
	return result;
}
