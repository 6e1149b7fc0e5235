/* Stand-in for PCRE2: the engine's header with its functions replaced by models.
   Harnesses choose whether the outcome of compile and match is explored freely
   (vf_regex_real = 0) or is what the pattern says (vf_regex_real = 1): the
   symbolic build then interprets the pattern over symbolic text (regex_sym.c),
   the native build asks the real PCRE2 (native.c). */
#ifndef VF_PCRE2_H
#define VF_PCRE2_H
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include "/usr/include/pcre2.h"
#ifndef VF_PCRE2_REAL
#undef pcre2_compile
#undef pcre2_get_error_message
#undef pcre2_match_data_create_from_pattern
#undef pcre2_match_data_create
#undef pcre2_match
#undef pcre2_match_data_free
#undef pcre2_code_free
#undef pcre2_jit_compile
#undef pcre2_jit_match
#define pcre2_compile vf_pcre2_compile
#define pcre2_get_error_message vf_pcre2_get_error_message
#define pcre2_match_data_create_from_pattern vf_pcre2_match_data_create_from_pattern
#define pcre2_match_data_create vf_pcre2_match_data_create
#define pcre2_match vf_pcre2_match
#define pcre2_match_data_free vf_pcre2_match_data_free
#define pcre2_code_free vf_pcre2_code_free
#define pcre2_jit_compile vf_pcre2_jit_compile
#define pcre2_jit_match vf_pcre2_match
pcre2_code *pcre2_compile(PCRE2_SPTR, PCRE2_SIZE, uint32_t, int *, PCRE2_SIZE *, pcre2_compile_context *);
int pcre2_get_error_message(int, PCRE2_UCHAR *, PCRE2_SIZE);
pcre2_match_data *pcre2_match_data_create_from_pattern(const pcre2_code *, pcre2_general_context *);
pcre2_match_data *pcre2_match_data_create(uint32_t, pcre2_general_context *);
int pcre2_match(const pcre2_code *, PCRE2_SPTR, PCRE2_SIZE, PCRE2_SIZE, uint32_t, pcre2_match_data *, pcre2_match_context *);
int pcre2_jit_compile(pcre2_code *, uint32_t);
void pcre2_match_data_free(pcre2_match_data *);
void pcre2_code_free(pcre2_code *);
#endif
#endif
