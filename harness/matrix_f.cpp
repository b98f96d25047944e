#include "matrix.h"
void c23_f() { mx::run_c23<float>(); }
void c24_f() { mx::run_c24<float>(); }
