/* P31: applications and libraries built with and without ARGUS_REGEX */
#include "common.h"
#include <string.h>
#define NAMES X(IPV4) X(IPV6) X(DOMAIN) X(URL) X(HTTP) X(PORT) X(EMAIL) X(EMAIL_STRICT) X(ISO_DATE) X(ISO_TIME) X(USERNAME) X(PASSWORD) X(UUID) X(UNIX_PATH) X(FILENAME) X(SEMVER) X(POS_INT) X(NEG_INT) X(FLOAT) X(HEX)
#include "argus/regex.h"
#define X(n) { validator_entry_t *e = V_RE_##n(); if (k-- == 0) return e->data.regex; }
static regex_data_t with_(int k) { NAMES return (regex_data_t){0}; }
#undef X
#undef ARGUS_REGEX
#undef ARGUS_REGEX_H
#include "argus/regex.h"
#define X(n) { validator_entry_t *e = V_RE_##n(); if (k-- == 0) return e->data.regex; }
static regex_data_t without_(int k) { NAMES return (regex_data_t){0}; }
#undef X
/* the library as it is built without pattern support */
#define regex_validator regex_validator_off
#define format_regex_validator format_regex_validator_off
#include "../source/callbacks/validators/regex_validator.c"
#undef regex_validator
#undef format_regex_validator
extern int vf_regex_real;
#define COUNT_(n) +1
#define X(n) +1
enum { TOTAL = 0 NAMES };
#undef X
void alike(void) { /* what an application is compiled with does not change what its patterns accept */
  int k = (int)sx_choose(TOTAL, "pattern"); regex_data_t a = with_(k), b = without_(k); if (vf_eq(a.pattern, b.pattern)) { sx_reach("same"); return; }
  char *v = vf_strset(1 + (size_t)sx_choose(2, "length"), "!a1", "text"); O s[] = { OPTION_STRING('s', "str", VALIDATOR(V_REGEX(a))), OPTION_END() }, t[] = { OPTION_STRING('s', "str", VALIDATOR(V_REGEX(b))), OPTION_END() }; vf_regex_real = 1; vf_on_exit = no_exit; argus_t x, y; int p = GO(x, TAB(s), vf_cat("--str=", v)), q = GO(y, TAB(t), vf_cat("--str=", v)); CHECK(!p == !q, "a pattern accepts the same whatever the application is compiled with");
}
void off(void) { /* without pattern support nothing passes unjudged */
  char *v = vf_strmax(3, "text"), *p = vf_strmax(2, "pattern"); argus_t a = argus_init((O[]){ OPTION_END() }, "prog", "1"); vf_on_exit = no_exit; vf_capture = 1; validator_data_t d = { .regex = { .pattern = sx_choose(2, "given") ? p : NULL, .hint = NULL } };
  int st = regex_validator_off(&a, v, d); CHECK(st != 0 && a.error_code == st, "a library without pattern support accepts no value that has a pattern"); CHECK(vf_outlen[1] > 0, "it says so"); sx_reach("refused");
}
