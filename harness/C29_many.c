// The same result whatever the pipe factor, when records, groups and list entries outnumber every queue.
//@ lib
//@ fs
//@ nolabels
//@ cfg both d1 -DQ=2 -DPF=1
//@ cfg both d -DQ=2
//@ cfg both g1 -DQ=0 -DPF=1
//@ cfg both o1 -DQ=3 -DPF=1
//@ cfg both in1 -DQ=4 -DPF=1
//@ cfg both j1 -DQ=5 -DPF=1
//@ cfg both s1 -DQ=9 -DPF=1
//@ cfg both n1 -DQ=10 -DPF=1
//@ cfg both x1 -DQ=14 -DPF=1
//@ cfg both y1 -DQ=16 -DPF=1
//@ inst 60000000
//@ samples 4
//@ bounds 10 statements (9 of them with pipe factor 1) over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
