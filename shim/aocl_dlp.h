// Stand-in for AOCL-DLP's header (the library is not installed): only what fp16_helpers.hpp names.
#ifndef AOCL_DLP_STUB_H
#define AOCL_DLP_STUB_H
#include <stdint.h>
typedef uint16_t float16;
extern "C" void aocl_gemm_f16f16f16of16(char, char, char, int, int, int, float16, const float16 *, int, char, const float16 *, int, char, float16, float16 *, int, void *);
#endif
