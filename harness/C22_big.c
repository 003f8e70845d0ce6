// Whole numbers beyond 32 bits: ORDER BY and TOP.
//@ lib
//@ fs
//@ nolabels
//@ samples 4
//@ cfg both q0 -DQ=0 -DR=3
//@ cfg both q1 -DQ=1 -DR=3
//@ cfg quick q15 -DQ=15 -DR=2
//@ cfg thorough q15r3 -DQ=15 -DR=3
//@ cfg both q16 -DQ=16 -DR=3
//@ cfg both q17 -DQ=17 -DR=3
//@ bounds 5 statements over a table of 3 rows (2 where another table is involved, thorough 3) and one of 1 row whose numbers are any of 1, 2^32, 2^32+1, 1-2^32 and 2^63-1
//@ outside other numbers, more rows
#include "big.h"
