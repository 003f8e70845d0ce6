#!/bin/bash
# exit 0 when the property holds in the cases demo.c tries; run in /repo
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/o"
ren=
for x in fopen open_memstream fclose fwrite fputs fputc fflush ftello ftell ferror putc fread feof fsync open close fdopen fstat mkstemp mmap munmap madvise remove unlink rename access chmod realpath opendir readdir closedir getenv; do ren="$ren -D$x=vp_$x"; done
cc="gcc -std=gnu11 -O1 -g -w -D_GNU_SOURCE -U_FORTIFY_SOURCE -DSCHEMA_DATADIR=\"/nonexistent\" -fsanitize=address -I. -Iutil -Ilib -Ilib/include -I$d"
ls util/*.c lib/*.c | xargs -P8 -I{} sh -c 'f={}; '"$(printf '%q ' $cc $ren)"' -c $f -o '"$t"'/o/$(echo $f | tr / _).o' || exit 3
$cc -c "$d/vfs.c" -o "$t/o/vfs.o" || exit 3
$cc $ren -c "$d/demo.c" -o "$t/o/demo.o" || exit 3
gcc -fsanitize=address "$t"/o/*.o -Wl,--unresolved-symbols=ignore-all -no-pie -lm -lpthread -lpcre2-8 -o "$t/demo" || exit 3
cd "$t"
ASAN_OPTIONS=detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=100000 timeout 60 ./demo
