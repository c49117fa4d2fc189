/* oomrun SETUP... -- STATEMENT [PROBE]: carries the statement out again and again, each time with the n-th allocation
 * (and with every one from the n-th on) failing, on a fresh database made by the SETUP statements; a statement that
 * reports an error, or ends normally, must leave the database usable and must not report success it did not achieve */
#define _GNU_SOURCE
#include <engine/query.h>
#include <engine/database.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static long left = -1;
static int always;

/* the generated scanner ends the process itself: its allocations are left alone */
extern void *yyalloc(size_t, void *), *yyrealloc(void *, size_t, void *);

static int fails(void *from)
{
	char *p = from;

	if (left < 0 || (p >= (char *)yyalloc && p < (char *)yyalloc + 64) || (p >= (char *)yyrealloc && p < (char *)yyrealloc + 64))
		return 0;
	if (left == 0)
		return always ? 1 : (left = -1, 1);
	left--;
	return 0;
}

void *malloc(size_t n) { return fails(__builtin_return_address(0)) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return fails(__builtin_return_address(0)) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return fails(__builtin_return_address(0)) ? NULL : __libc_realloc(p, n); }

static struct database db;

/* 0: an error was reported; 1: success; and how many rows */
static int run(const char *sql, long *rows)
{
	char *q = strdup(sql);
	struct query_output *o = query_execute(&db, q);
	int ok = 0;

	*rows = 0;
	if (o) {
		ok = o->status != ST_ERROR;
		if (o->status == ST_OK_WITH_RESULTS)
			while (query_cur_step(&o->results) == MIDORIDB_ROW)
				++*rows;
		query_free(o);
	}
	free(q);
	return ok;
}

/* exit codes: 0 the statement used every allocation it wanted, 1 bad, 3 go on */
static int child(int argc, char **argv, int sep, long n, int all)
{
	long rows, affected, want, base;
	int ok;

	if (database_open(&db))
		return 1;
	for (int i = 1; i < sep; i++)
		run(argv[i], &rows);
	base = -1;
	if (argc > sep + 2 && run(argv[sep + 2], &base) == 0)
		base = -1;

	left = n;
	always = all;
	ok = run(argv[sep + 1], &affected);
	all = left > 0;				/* it wanted fewer than n */
	left = -1;
	always = 0;

	if (argc > sep + 2) {
		if (!run(argv[sep + 2], &rows)) {
			/* the table the statement should have made is missing */
			if (ok)
				return 1;
		} else {
			want = atol(argv[sep + 3]);
			if (ok && rows != want)
				return 1;
			if (!ok && rows != base && !getenv("PARTIAL"))
				return 1;
		}
	}
	return all ? 0 : 3;
}

int main(int argc, char **argv)
{
	int sep, st;

	for (sep = 1; sep < argc && strcmp(argv[sep], "--"); sep++)
		;
	if (getenv("ONE"))
		return child(argc, argv, sep, atol(getenv("ONE")), 0);
	for (int all = 0; all < 2; all++)
		for (long n = 0; n < 5000; n++) {
			pid_t p = fork();
			if (!p) {
				freopen("/dev/null", "w", stdout);
				freopen("/dev/null", "w", stderr);
				alarm(20);
				_exit(child(argc, argv, sep, n, all));
			}
			waitpid(p, &st, 0);
			if (WIFSIGNALED(st)) {
				printf("allocation %ld%s: signal %d\n", n, all ? " and later" : "", WTERMSIG(st));
				return 1;
			}
			if (WEXITSTATUS(st) == 1) {
				printf("allocation %ld%s: the outcome is not what was reported\n", n, all ? " and later" : "");
				return 1;
			}
			if (WEXITSTATUS(st) == 0)
				break;
		}
	return 0;
}
