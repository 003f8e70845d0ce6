// Sorting some hundred records, equal keys among them.
//@ lib
//@ fs
//@ nolabels
//@ cfg both o -DQ=3
//@ cfg both e -DQ=12
//@ cfg both c -DQ=11
//@ inst 60000000
//@ samples 4
//@ bounds 3 statements over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
