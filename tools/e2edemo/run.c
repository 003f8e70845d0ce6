#include "kit.h"
// run [-c] [-p N] file=content... SQL : prints what the script prints and every file left
int main(int argc, char** argv)
{
	open_();
	int i = 1;
	for (; i < argc - 1; ++i) {
		if (!strcmp(argv[i], "-c")) { fql_set_force_cartesian(H, 1); continue; }
		if (!strcmp(argv[i], "-o")) { fql_set_overwrite(H, 1); continue; }
		if (!strcmp(argv[i], "-h")) { fql_set_print_header(H, 0); continue; }
		if (!strcmp(argv[i], "-P")) { fql_set_print_plan(H, 1); continue; }
		if (!strcmp(argv[i], "-t")) { fql_set_threading(H, 1); continue; }
		if (!strcmp(argv[i], "-p")) { fql_set_pipe_factor(H, atoi(argv[++i])); continue; }
		if (!strcmp(argv[i], "-s")) { fql_set_schema_name(H, argv[++i]); continue; }
		char* e = strchr(argv[i], '='); *e = 0;
		char* o = e + 1, *w = o; for (char* p = o; *p; ++p) { if (*p == '\\' && p[1] == 'n') { *w++ = '\n'; ++p; } else *w++ = *p; } *w = 0;
		put(argv[i], e + 1);
	}
	int rc = run(argv[i]);
	size_t n; const char* d = vfs_stdout(&n); if (n) fwrite(d, 1, n, stdout);
	printf("rc=%d\n", rc);
	fql_free(H);
	for (int k = 0; k < vfs_count(); ++k) { d = vfs_get(vfs_name(k), &n); if (argc > 2) printf("[%s] %.*s\n", vfs_name(k), (int)n, d); }
	return 0;
}
