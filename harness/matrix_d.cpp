#include "matrix.h"
void c23_d() { mx::run_c23<double>(); }
void c24_d() { mx::run_c24<double>(); }
