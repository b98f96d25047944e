#include "matrix.h"
void c23_i() { mx::run_c23<int>(); }
void c24_i() { mx::run_c24<int>(); }
