// Interface of the external CSV library (not installed here), as far as the code under test uses it.
// The implementation the checks link is rt/csv_stub.c or a harness' own.
#ifndef VP_CSV_H
#define VP_CSV_H
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
enum { CSV_GOOD = 0, CSV_FAIL = -2 };
enum { QUOTE_NONE = 0, QUOTE_ALL, QUOTE_WEAK, QUOTE_RFC4180 };
struct csv_field { const char* data; unsigned len; };
struct csv_record { const char* rec; size_t reclen; struct csv_field* fields; int size; void* _in; };
struct csv_reader { size_t offset; int quotes; int trim; int normal; unsigned failsafe_max; void* _in; char delim[32]; };
struct csv_writer { int quotes; void* _in; };
struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_close(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char*);
int csv_reader_open_mmap(struct csv_reader*, const char*);
int csv_reader_seek(struct csv_reader*, size_t);
int csv_reader_reset(struct csv_reader*);
void csv_reader_set_delim(struct csv_reader*, const char*);
const char* csv_reader_get_delim(struct csv_reader*);
size_t csv_reader_get_file_size(const struct csv_reader*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, unsigned);
int csv_nparse(struct csv_reader*, struct csv_record*, const char*, size_t);
struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);
struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char*);
int csv_writer_close(struct csv_writer*);
int csv_writer_isopen(struct csv_writer*);
int csv_writer_mktmp(struct csv_writer*);
char* csv_writer_export_tmp(struct csv_writer*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_line_ending(struct csv_writer*, const char*);
void csv_writer_set_file(struct csv_writer*, FILE*);
FILE* csv_writer_get_file(struct csv_writer*);
struct csv_field csv_writer_get_delim_field(struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(struct csv_writer*);
char* csv_writer_detach_filename(struct csv_writer*);
int csv_write_field(struct csv_writer*, const struct csv_field*);
void csv_perror(void);
#endif
