// Joins of some hundred records.
//@ lib
//@ fs
//@ nolabels
//@ cfg both j -DQ=5
//@ cfg both l -DQ=6
//@ cfg both y -DQ=16
//@ inst 60000000
//@ samples 4
//@ bounds 3 statements over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
