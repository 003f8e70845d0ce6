// Whole numbers beyond 32 bits: comparisons.
//@ lib
//@ fs
//@ nolabels
//@ samples 4
//@ cfg both q9 -DQ=9 -DR=3
//@ bounds 1 statement over a table of 3 rows (2 where another table is involved, thorough 3) and one of 1 row whose numbers are any of 1, 2^32, 2^32+1, 1-2^32 and 2^63-1
//@ outside other numbers, more rows
#include "big.h"
