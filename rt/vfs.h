// In-memory file system standing in for the real one (run.py renames the code's calls: fopen -> vp_fopen, ...).
#ifndef VFS_H
#define VFS_H
#include <stddef.h>
void vfs_put(const char* name, const char* data, size_t n);   // create or replace
const char* vfs_get(const char* name, size_t* n);             // NULL: no such file
int vfs_exists(const char* name);
int vfs_count(void);                                          // files there
const char* vfs_name(int i);                                  // i-th file
int vfs_open_files(void);                                     // streams, descriptors and mappings not closed
void vfs_stdin(const char* data, size_t n);                   // what the code reads from standard input (data must stay)
const char* vfs_stdout(size_t* n);                            // what was written to standard output
extern int vfs_fail_at;                                       // fail the n-th file operation from now on (0: none)
extern int vfs_quotes;                                        // files hold fields in double quotes (the CSV stand-in takes them off unless told QUOTE_NONE)
void vfs_clear(void);                                         // forget every file and all output, and give back their memory
void vfs_setenv(const char* name, const char* value);         // environment of the code
#endif
