// Whole numbers beyond 32 bits: joins.
//@ lib
//@ fs
//@ nolabels
//@ samples 4
//@ cfg quick q7 -DQ=7 -DR=2
//@ cfg thorough q7r3 -DQ=7 -DR=3
//@ cfg quick q21 -DQ=21 -DR=2
//@ cfg thorough q21r3 -DQ=21 -DR=3
//@ bounds 2 statements over a table of 3 rows (2 where another table is involved, thorough 3) and one of 1 row whose numbers are any of 1, 2^32, 2^32+1, 1-2^32 and 2^63-1
//@ outside other numbers, more rows
#include "big.h"
