/* Native replay driver: feeds the solver's values to the harness. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void VP_ENTRY(void);
static uint64_t vals[100000];
static size_t nvals, pos;
uint64_t vp_next(unsigned bits)
{
	(void)bits;
	if (pos < nvals)
		return vals[pos++];
	pos++;
	return 0;	/* values the solver left unconstrained */
}
void vp_fail(const char *msg, const char *file, int line)
{
	printf("VP_FAIL %s (%s:%d)\n", msg, file, line);
	fflush(stdout);
	_exit(10);
}
void vp_assume_failed(const char *file, int line)
{
	printf("VP_ASSUME %s:%d\n", file, line);
	fflush(stdout);
	_exit(77);
}
void vp_hit(const char *name)
{
	printf("VP_HIT %s\n", name);
	fflush(stdout);
}
int main(int argc, char **argv)
{
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
	char line[256];
	if (f == NULL) {
		fprintf(stderr, "usage: replay VALUES\n");
		return 2;
	}
	while (fgets(line, sizeof(line), f) != NULL && nvals < 100000) {
		if (line[0] == '#' || line[0] == '\n')
			continue;
		vals[nvals++] = strtoull(line, NULL, 0);
	}
	fclose(f);
	VP_ENTRY();
	printf("VP_END\n");
	return 0;
}
