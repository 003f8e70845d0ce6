// A list of some hundred entries.
//@ lib
//@ fs
//@ nolabels
//@ cfg both in -DQ=4
//@ cfg both not -DQ=8
//@ inst 60000000
//@ samples 4
//@ bounds 2 statements over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
