/* sz_test_with_eb reads its bounds from one fixed absolute path; in the check that path means a scratch file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
static FILE *go(const char *p, const char *m) {
	const char *e = getenv("CPSZ_EBS");
	if (e && !strncmp(p, "/Users/", 7)) p = e;
	int w = strchr(m, 'w') != 0;
	int fd = open(p, w ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY, 0644);
	return fd < 0 ? 0 : fdopen(fd, m);
}
FILE *fopen(const char *p, const char *m) { return go(p, m); }
FILE *fopen64(const char *p, const char *m) { return go(p, m); }
