// One sequence of records in a section of its own; included once per sequence.
// 0..5: one record; 6..41: two; 42..257: three
#define SEQ_N BOOST_PP_ITERATION()
#if SEQ_N % SEQ_MOD == SEQ_REM
#undef LIBEMB_DEBUG_FILTER_COEFS_SECTION
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION ".seq_" BOOST_PP_STRINGIZE(SEQ_N)
#if SEQ_N < 6
#define SEQ_V SEQ_N
#elif SEQ_N < 42
#define SEQ_V (SEQ_N - 6)
#else
#define SEQ_V (SEQ_N - 42)
#endif
#define SEQ_DIGIT SEQ_V % 6
#include "records_kind.h"
#if SEQ_N >= 6
#undef SEQ_DIGIT
#define SEQ_DIGIT SEQ_V / 6 % 6
#include "records_kind.h"
#endif
#if SEQ_N >= 42
#undef SEQ_DIGIT
#define SEQ_DIGIT SEQ_V / 36 % 6
#include "records_kind.h"
#endif
#undef SEQ_DIGIT
#undef SEQ_V
#endif
#undef SEQ_N
