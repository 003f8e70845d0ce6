// UPDATE and DELETE of some records among hundreds.
//@ lib
//@ fs
//@ nolabels
//@ cfg both u -DQ=13
//@ cfg both x -DQ=14
//@ cfg both x1 -DQ=14 -DPF=1
//@ inst 60000000
//@ samples 4
//@ bounds 2 statements over a table of 293 records, 290 of them with distinct keys, the keys and values of the rest picked among 5 positions
//@ outside other keys and sizes
#include "many.h"
