SXFLAGS="-std=c++11 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-math-errno -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_EXTERN_TEMPLATE=0 -w"
