/* Values of types of the application's own: its handlers store them, its free handlers release them. */
#include "common.h"
#include <stdlib.h>
#include <string.h>
typedef struct { int id; char tag; } obj_t;
enum { MAXOBJ = 12 };
static obj_t *made[MAXOBJ]; static int gone[MAXOBJ], nmade, by_lib, ncall, failing, fail_how, fail_status, free_status; static char who[MAXOBJ]; static const char *said[MAXOBJ];
static size_t base; static bool parsing; static argus_t *ctx; static int64_t plain;
#define RELEASED "what an application's handler stored is released once, by the application's function"
static void drop(obj_t *o) { bool known = false; for (int i = 0; i < nmade; i++) if (made[i] == o && !gone[i]) { gone[i]++; known = true; } CHECK(known, RELEASED); free(o); }
static int own_free(O *o) { CHECK(o->is_allocated, RELEASED); obj_t *x = o->value.as_ptr; CHECK(x != NULL, RELEASED); CHECK(x->tag == o->sname || x->tag == (o->name ? o->name[0] : 0), RELEASED); drop(x); by_lib++; return free_status; }
static int own(argus_t *a, O *o, char *v) {
  CHECK(parsing && a == ctx, "handlers run while parsing, with the parser"); int n = ncall++; CHECK(n < MAXOBJ, "the harness has room"); who[n] = o->name[0]; said[n] = v; bool fails = n + 1 == failing; if (fails && fail_how == 0) return fail_status;
  if (o->is_allocated) drop(o->value.as_ptr); obj_t *x = malloc(sizeof *x); sx_assume(x != NULL); x->id = n; x->tag = o->sname ? o->sname : o->name[0]; made[nmade++] = x; o->value.as_ptr = x; o->is_allocated = true; return fails ? fail_status : 0;
}
/* stores without allocating */
static int flat(argus_t *a, O *o, char *v) { CHECK(parsing && a == ctx, "handlers run while parsing, with the parser"); int n = ncall++; who[n] = o->name[0]; said[n] = v; if (n + 1 == failing) return fail_status; o->value.as_int64 = plain; return 0; }
static int post_status; static O *judged; static int judge(argus_t *a, void *p, validator_data_t d) { (void)a; judged = p; obj_t *x = judged->value.as_ptr; bool live = false; for (int i = 0; i < nmade; i++) if (made[i] == x && !gone[i]) live = true; CHECK(live, "a validator of the value sees what the handler stored"); CHECK(d.custom == 77, "a validator gets its data"); return post_status; }
static void all_gone(void) { for (int i = 0; i < nmade; i++) CHECK(gone[i] == 1, RELEASED); CHECK(sx_live() == base, "nothing else is left either"); }
static void over(int code) { CHECK(code == 0, "only help and version end the program"); all_gone(); sx_reach("ended"); }
static O *table(O **sub) {
  O s[] = { HELP_OPTION(), OPTION_BASE('s', "sub", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free)), POSITIONAL_BASE("word", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free), FLAGS(FLAG_OPTIONAL)), OPTION_END() }; *sub = TAB(s);
  O t[] = { HELP_OPTION(), OPTION_BASE('e', "end", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free), ENV_VAR("END")), OPTION_BASE('f', "flat", VALUE_TYPE_CUSTOM, HANDLER(flat), FREE_HANDLER(own_free)), OPTION_BASE('g', "gate", VALUE_TYPE_FLAG, HANDLER(flat)), GROUP_START("g"), OPTION_BASE('k', "kin", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free), VALIDATOR(MAKE_VALIDATOR(judge, NULL, _V_DATA_CUSTOM_(77), ORDER_POST))), GROUP_END(), OPTION_BASE('d', "def", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free), DEFAULT("text")), SUBCOMMAND("cmd", *sub), POSITIONAL_BASE("pos", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free), FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  O *r = TAB(t); static validator_entry_t e, *l[2]; e = *t[5].validators[0]; l[0] = &e; l[1] = NULL; r[5].validators = l; return r;
}
static void judged_values(argus_t *a, const char *const *names, const char *last) { for (int i = 0; names[i]; i++) { obj_t *want = NULL; for (int k = 0; k < nmade; k++) if (!gone[k] && made[k]->tag == last[i]) want = made[k]; if (want) { CHECK(argus_get(a, names[i]).as_ptr == want && argus_is_set(a, names[i]), "what the handler stored is read back"); } } }
/* every sequence of these */
static void sequence(int most, bool vars) {
  O *sub, *t = table(&sub); char *av[12], ew[12]; const char *et[12]; int c = 1, ne = 0, st = 0, n = 1 + (int)sx_choose((uint64_t)most, "tokens"); bool root = true, help = false, pos = false; av[0] = "prog"; failing = (int)sx_choose((uint64_t)(most + 1), "failing"); fail_how = failing ? (int)sx_choose(2, "stored") : 0; fail_status = 1 + (int)(sx_var(32, "status") & 0x7f); sx_assume(fail_status != ARGUS_SHOULD_EXIT); free_status = sx_choose(2, "free status") ? 9 : 0; plain = (int64_t)sx_var(64, "plain");
  char *v = vf_strn(1 + sx_choose(Q(1, 2), "length"), "value");
  for (int i = 0; i < n; i++) {
    int k = (int)sx_choose(11, "token"); bool dead = st || help; char w = 0; const char *x = v;
    switch (k) {
      case 0: av[c++] = root ? vf_cat("-e", v) : vf_cat("-s", v); w = root ? 'e' : 's'; break;
      case 1: av[c++] = root ? "--end" : "--sub"; av[c++] = v; w = root ? 'e' : 's'; break;
      case 2: av[c++] = root ? vf_cat("--kin=", v) : vf_cat("--sub=", v); w = root ? 'k' : 's'; break;
      case 3: av[c++] = root ? vf_cat("-f", v) : "-e1"; w = root ? 'f' : 0; if (!w && !dead) st = 1; break;
      case 4: av[c++] = "word"; x = "word"; if (!pos) w = root ? 'p' : 'w'; else if (!dead) st = 1; if (!dead) pos = true; break;
      case 5: av[c++] = "cmd"; if (root) { if (!dead) { root = false; pos = false; } } else { x = "cmd"; if (!pos) w = 'w'; else if (!dead) st = 1; if (!dead) pos = true; } break;
      case 6: av[c++] = "--nope"; if (!dead) st = 1; break;
      case 7: av[c++] = "--help"; if (!dead) help = true; break;
      case 8: av[c++] = root ? vf_cat("-d", v) : "--sub="; w = root ? 'd' : 's'; if (!root) x = ""; break;
      case 9: av[c++] = "-g"; if (root) { w = 'g'; x = NULL; } else if (!dead) st = 1; break;
      default: av[c++] = root ? "-e" : "-s"; if (i + 1 < n) { av[c++] = "--nope"; i++; x = "--nope"; w = root ? 'e' : 's'; } else if (!dead) st = 1;
    }
    if (w && !dead) { ew[ne] = w; et[ne++] = x; if (ne == failing) st = 2; }
  }
  if (vars && !sx_choose(2, "short")) { t[1].flags |= FLAG_ENV_OVERRIDE; }
  if (vars) { char *ev = vf_strn(1, "variable"); vf_env("END", ev); bool has = false; for (int i = 0; i < ne; i++) if (ew[i] == 'e') has = true; if (!st && !help && (!has || (t[1].flags & FLAG_ENV_OVERRIDE))) { ew[ne] = 'e'; et[ne++] = ev; if (ne == failing) st = 2; } }
  post_status = (int)sx_choose(2, "verdict") ? 33 : 0; bool kin = false; for (int i = 0; i < ne; i++) if (ew[i] == 'k') kin = true; if (post_status && !kin) sx_end(); if (failing > ne) sx_end();
  av[c] = NULL; vf_capture = vf_vague = 1; vf_on_exit = over; argus_t a = argus_init(t, "prog", "1"); ctx = &a; base = sx_live(); parsing = true; errno = ERANGE; int got = argus_parse(&a, c, av); parsing = false;
  CHECK(!help, "help ends the program"); CHECK(ncall == ne, "each value reaches its handler once"); for (int i = 0; i < ne; i++) { CHECK(who[i] == ew[i], "each value reaches its handler once"); if (et[i]) CHECK(said[i] && vf_eq(said[i], et[i]), "a handler gets the text as it was given"); else CHECK(!said[i], "a flag has no text"); }
  if (st == 2) { CHECK(got == fail_status, "a handler's refusal is returned"); all_gone(); sx_reach("refused"); } else if (st) { CHECK(got > 0, "an error is returned"); all_gone(); sx_reach("rejected"); } else if (post_status) { CHECK(got == post_status, "a validator's refusal is returned"); all_gone(); sx_reach("judged"); }
  else {
    sx_reach("accepted"); CHECK(got == 0, "what every handler accepts is accepted"); int live = 0; for (int i = 0; i < nmade; i++) live += !gone[i]; static const char *const rn[] = {"end", "kin", "def", ".pos", NULL}, *const sn[] = {"cmd.sub", "cmd.word", NULL}; judged_values(&a, rn, "ekdp"); if (!root) judged_values(&a, sn, "sw"); for (int i = 0; i < ne; i++) if (ew[i] == 'f') CHECK(argus_get(&a, "flat").as_int64 == plain, "what the handler stored is read back");
    if (argus_is_set(&a, ".def")) { bool given = false; for (int i = 0; i < ne; i++) if (ew[i] == 'd') given = true; if (!given) CHECK(vf_eq(argus_get(&a, ".def").as_string, "text"), "a default is read as declared"); } by_lib = 0; argus_free(&a); CHECK(by_lib == live, RELEASED); all_gone();
  }
  argus_free(&a); all_gone();
}
void custom_any(void) { sequence(Q(4, 5), false); }
void custom_variables(void) { sequence(Q(3, 4), true); }
/* a long way in */
void custom_deep(void) {
  O *t = NULL, *root = NULL; int d = 1 + (int)sx_choose(8, "depth"), at = (int)sx_choose((uint64_t)(d + 1), "level"); failing = (int)sx_choose(3, "failing"); fail_how = (int)sx_choose(2, "stored"); fail_status = 44; char *av[24]; int c = 0; av[c++] = "prog"; static const char nm[9][2] = {"a", "b", "c", "d", "e", "f", "g", "h", "i"}; char *v = vf_strn(1, "value");
  for (int i = d; i >= 0; i--) { O last[] = { HELP_OPTION(), OPTION_BASE('x', nm[i], VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free)), OPTION_END() }, mid[] = { HELP_OPTION(), OPTION_BASE('x', nm[i], VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free)), SUBCOMMAND("next", t), OPTION_END() }; t = i == d ? TAB(last) : TAB(mid); } root = t;
  int ne = 0; for (int i = 0; i <= d; i++) { if (i == at || i == 0 || i == d) { av[c++] = vf_cat("-x", v); ne++; } if (i < d) av[c++] = "next"; } av[c] = NULL; if (failing > ne) sx_end(); vf_capture = vf_vague = 1; vf_on_exit = over; argus_t a = argus_init(root, "prog", "1"); ctx = &a; base = sx_live(); parsing = true; int got = argus_parse(&a, c, av); parsing = false; CHECK(ncall == (failing ? failing : ne), "each value reaches its handler once"); for (int i = 0; i < ncall; i++) CHECK(vf_eq(said[i], v), "a handler gets the text as it was given");
  if (failing) { CHECK(got == 44, "a handler's refusal is returned"); all_gone(); sx_reach("refused"); } else { CHECK(got == 0, "what every handler accepts is accepted"); CHECK(nmade == ne, RELEASED); argus_free(&a); all_gone(); sx_reach("accepted"); } argus_free(&a); all_gone();
}
