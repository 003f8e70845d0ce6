// Some hundred groups: a later record falls into the group it equals, wherever that is.
//@ lib
//@ fs
//@ nolabels
//@ cfg both g -DQ=0
//@ cfg both s -DQ=9
//@ cfg both c -DQ=11
//@ cfg both d -DQ=15 -DPF=1
//@ inst 60000000
//@ samples 4
//@ bounds 4 statements over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
