CHECKS = {}
def J(file, entry, workers=8, time=60, **k): return dict(file=file, entry=entry, workers=workers, time=time, **k)
def P(id, jobs, **k): CHECKS[id] = dict(jobs=jobs, **k)
P("P05", [J("consume", "consume%d" % i, time=120) for i in (1,2,3,4)] + [J("consume", e) for e in ("consume_declared", "consume_mixed")] + [J("line", e) for e in ("line2", "line3", "line4", "line5")] + [J("wide", "operands", max_instr=60000000)])
P("P10", [J("numbers", e, time=110) for e in ("int_any", "int_mid", "int_long", "int_declared")])
P("P11", [J("numbers", e) for e in ("float_any", "float_dec", "float_exp", "float_long", "float_near", "float_declared", "float_default")])
P("P12", [J("numbers", e) for e in ("bool_any", "bool_again", "bool_declared")])
P("P13", [J("collections", e) for e in ("array_str1", "array_str2", "array_int1", "array_int_any", "array_int_sign", "array_int2", "array_float1", "range_edge", "array_long", "array_declared")] + [J("wide", "huge", max_instr=200000000)])
P("P14", [J("collections", e) for e in ("map_str1", "map_str_any", "map_twice", "map_bad", "map_bad_words", "map_long", "map_declared")] + [J("wide", e, max_instr=30000000) for e in ("alike_keys",)])
P("P15", [J("collections", e) for e in ("sort_int", "sort_int_len", "sort_int_wide", "uniq_int_wide", "sort_float", "sort_str", "sort_map", "sort_map_wide", "sort_map_float", "sort_many", "sort_long", "sort_declared")] + [J("wide", e, max_instr=30000000) for e in ("ordered",)] + [J("wide", e, max_instr=30000000) for e in ("alike_elements",)])
P("P22", [J("collections", e) for e in ("grow_array", "grow_repeat", "grow_map", "grow_range")] + [J("wide", e, max_instr=30000000) for e in ("collections",)] + [J("wide", "huge", max_instr=200000000)])
P("P04", [J("grammar", e) for e in ("spell_str", "spell_num", "spell_list", "spell_map", "bundle", "order")] + [J("line", e) for e in ("line2", "line3")] + [J("wide", e, max_instr=30000000) for e in ("options", "long_value")] + [J("wide", e, max_instr=30000000) for e in ("alike_options",)])
P("P06", [J("consume", "consume_declared")] + [J("grammar", e) for e in ("unknown_long", "unknown_short", "missing_value", "surplus", "flag_value", "scope")] + [J("line", e) for e in ("line_any", "line3")] + [J("wide", e, max_instr=30000000) for e in ("unknown",)] + [J("wide", e, max_instr=30000000) for e in ("alike_options", "alike_unknown",)])
P("P07", [J("grammar", e) for e in ("command1", "command2", "nesting_self")] + [J("line", e) for e in ("line_in", "line_voc")] + [J("wide", e, max_instr=30000000) for e in ("commands",)] + [J("wide", e, max_instr=30000000) for e in ("alike_commands",)])
P("P08", [J("grammar", e) for e in ("nesting", "nesting_self")] + [J("line", e) for e in ("line_in", "line5")])
P("P09", [J("grammar", e) for e in ("paths", "paths_deep", "paths_long")] + [J("wide", e, max_instr=30000000) for e in ("commands",)] + [J("wide", e, max_instr=30000000) for e in ("alike_options", "alike_commands",)])
P("P27", [J("grammar", e) for e in ("report", "report_deep", "report_bundle", "report_limits")])
P("P28", [J("grammar", e) for e in ("execute", "execute_deep", "execute_declared")] + [J("wide", e, max_instr=30000000) for e in ("actions",)] + [J("wide", e, max_instr=30000000) for e in ("alike_commands",)])

P("P16", [J("constraints", e) for e in ("range_default", "range_text", "range_float", "range_float_text", "length", "count", "choice_str", "choice_int", "choice_int_text", "choice_float", "limits_together", "limits_deep", "count_many", "choice_float_any", "choice_many")] + [J("constraints", "length_long", max_instr=20000000)] + [J("wide", e, max_instr=30000000) for e in ("alike_choices",)])
P("P17", [J("constraints", e) for e in ("verdicts", "verdict_levels", "verdict_deep", "verdict_many", "verdict_kinds", "pattern", "pattern_twice")])
P("P18", [J("constraints", e) for e in ("relations", "groups", "required", "rules", "rules_deep", "relations_many", "relations_kinds")] + [J("wide", e, max_instr=30000000) for e in ("alike_rules",)])
P("P19", [J("env", e) for e in ("name_any", "name_auto", "name_long", "precedence", "reads", "levels", "levels_deep", "rejected")] + [J("wide", e, max_instr=30000000) for e in ("variables",)])
P("P20", [J("access", e) for e in ("get_any", "index_any", "key_any", "walk")] + [J("wide", e, max_instr=30000000) for e in ("collections",)] + [J("wide", e, max_instr=30000000) for e in ("alike_keys",)] + [J("wide", "huge", max_instr=200000000)])
P("P21", [J("access", e) for e in ("stops", "stops_deep", "not_asked", "not_declared", "own_stop", "own_value")])
P("P23", [J("structure", e) for e in ("names2", "names3", "letters", "flags", "placement", "relations", "defaults", "default_verdicts", "parts", "depth")] + [J("structure", "loops", max_instr=40000000)] + [J("wide", e, max_instr=30000000) for e in ("collide",)] + [J("wide", e, max_instr=30000000) for e in ("alike_names",)])
P("P26", [J("stream", e) for e in ("schedule", "twice", "large", "invalid")])
P("P24", [J("display", e) for e in ("listing", "listing_levels", "names", "declared_bounds", "declared_values", "declared_long", "wrap")] + [J("wide", e, max_instr=30000000) for e in ("shown",)])
P("P25", [J("display", e) for e in ("messages",)])
P("P29", [J("display", e) for e in ("usage", "overview", "overview_long", "nested")])
P("P01", [J("memory", e) for e in ("argv1", "argv2", "argv3", "argv0", "value1", "value_long", "commands", "long_texts")] + [J("wide", e, max_instr=30000000) for e in ("collections", "ordered", "long_value")])
P("P02", [J("memory", e) for e in ("value2", "operands", "variables", "again", "dropped", "released1", "released2", "released3")] + [J("wide", e, max_instr=30000000) for e in ("collections", "ordered",)])
P("P03", [J("memory", e) for e in ("oom_value", "oom_twice", "oom_operands", "oom_growth", "oom_variable", "oom_shown")])
P("P31", [J("patterns", "re_" + e, max_instr=40000000) for e in "ipv4 ipv6 ipv6_letters ipv6_full ipv6_dotted domain domain_long url http port email email_strict email_long long date datetime user passwd uuid path filename semver integers float hex names own".split()] + [J("builds", e) for e in ("alike", "off")])
P("P30", [J("isolation", e) for e in ("leaves_value", "leaves_next", "leaves_any", "leaves_command", "leaves_operands", "leaves_variable", "two_values", "two_lines", "nested_parser", "history", "two_readers")] + [J("isolation", "history_many", max_instr=30000000)])
P("P32", [J("custom", e) for e in ("custom_any", "custom_variables", "custom_deep")])
P("P33", [J("declare", e) for e in ("kinds", "defaults_kept", "limits_kept", "flags_apart")])
P("P34", [J("facts", e) for e in ("limits", "choices", "needed", "operand", "together", "elements", "commands", "letters", "hint", "own")])
P("P35", [J("display", e) for e in ("layout", "columns", "groups_order", "layout_levels", "version", "asked", "layout_long")])
P("P36", [J("plain", "plain_" + e) for e in ("value", "next", "any", "command", "operands", "rules", "variable", "needs", "needs_two", "needs_env")])
P("P37", [J("display", e) for e in ("settings_hint", "settings_hint_long", "settings_place", "settings_overview", "settings_width", "asked", "wrap")])
