// Aggregates over some hundred groups, a later record falling into any of them.
//@ lib
//@ fs
//@ nolabels
//@ cfg both g -DQ=0
//@ cfg both h -DQ=1
//@ cfg both a -DQ=7
//@ inst 60000000
//@ samples 4
//@ bounds 3 statements over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
