From f00e176e9697780847d5a748bba62719e8bcc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 01/52] fix: reject subcommands nested deeper than the
 subcommand stack

---
 source/core/parsing/option_handle_subcommand.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..e0712f3 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,18 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW,
+                            "Too many nested subcommands at '%s' (maximum is %d)", option->name,
+                            MAX_SUBCOMMAND_DEPTH);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From f14487225246434013bb2174754a88a23e3e610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 02/52] fix: let an exact subcommand name win over longer names
 that start with it

---
 source/core/parsing/parse_args.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..8da3caf 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -20,6 +20,14 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
 {
     argus_option_t *subcommand = NULL;
 
+    // An exact match always wins, wherever it is declared
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        if (options[i].type == TYPE_SUBCOMMAND && strcmp(name, options[i].name) == 0) {
+            *result = &options[i];
+            return ARGUS_SUCCESS;
+        }
+    }
+
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
@@ -31,10 +39,6 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                                     options[i].help);
                 return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
             }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
-                *result = &options[i];
-                return ARGUS_SUCCESS;
-            }
             subcommand = &options[i];
         }
     }
-- 
2.43.0


From 1a69afca92d24989c2745b734e85056ee65927c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 03/52] fix: match long option names in full instead of their
 first 63 characters

---
 source/core/parsing/option_handle_long.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..5431e85 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -8,6 +8,7 @@
  */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "argus/errors.h"
@@ -19,17 +20,21 @@
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
+    char  *equal_pos = strchr(arg, '=');
+    size_t name_len  = equal_pos != NULL ? (size_t)(equal_pos - arg) : strlen(arg);
+
+    char *option_name = safe_strndup(arg, name_len);
+    if (option_name == NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for option '--%s'",
+                            arg);
+        return ARGUS_ERROR_MEMORY;
+    }
 
     argus_option_t *option = find_option_by_lname(options, option_name);
+    free(option_name);
     if (option == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
-                            option_name);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%.*s'",
+                            (int)name_len, arg);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
@@ -42,7 +47,7 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
             value = argv[*current_index];
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
-                                "Missing value for option: '--%s'", option_name);
+                                "Missing value for option: '--%s'", option->lname);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
-- 
2.43.0


From a5600964302e093945cf32e2f00027bdb5281a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 04/52] fix: reject a value attached to a flag instead of
 dropping it

---
 source/core/parsing/option_handle_long.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index 5431e85..50197de 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -50,6 +50,10 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
                                 "Missing value for option: '--%s'", option->lname);
             return ARGUS_ERROR_MISSING_VALUE;
         }
+    } else if (equal_pos != NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT,
+                            "Option '--%s' does not take a value", option->lname);
+        return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
     return (execute_callbacks(argus, option, value));
-- 
2.43.0


From 285fd56b54ca14a72f4169e91fa487db2b4589ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 05/52] fix: require whole subcommand names in option paths

---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..5816536 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strncmp(component, command, component_lenght) != 0 ||
+            command[component_lenght] != '\0')
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From 1e8a1122505028a1363d60c2dca3073bde7ad3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 06/52] fix: treat every argument after '--' as positional,
 another '--' included

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 8da3caf..324469f 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -55,7 +55,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
-- 
2.43.0


From e855004aa2324ccf1c9ed17c58d433688d74306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 07/52] fix: hand a lone '-' to the positionals instead of
 dropping it

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 324469f..40def0d 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -76,7 +76,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
         }
 
         char *short_arg = starts_with("-", arg);
-        if (short_arg != NULL) {
+        if (short_arg != NULL && short_arg[0] != '\0') {
             // Checking if this is a negative number or an option
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
-- 
2.43.0


From 0750656afc28e084cf98f870d321b736f010e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 08/52] fix: accept negative numbers for repeating numeric
 positionals

---
 source/core/parsing/parse_args.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 40def0d..d368c01 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -81,7 +81,9 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
 
-                if (pos_opt && (pos_opt->value_type & VALUE_TYPE_ANY_NUMERIC)) {
+                if (pos_opt &&
+                    (pos_opt->value_type & (VALUE_TYPE_ANY_NUMERIC | VALUE_TYPE_VARIADIC_INT |
+                                            VALUE_TYPE_VARIADIC_FLOAT))) {
                     status = handle_positional(argus, options, arg, positional_index++);
                     if (status != ARGUS_SUCCESS)
                         return (status);
-- 
2.43.0


From 6349fabb7c3c0a82090e97276cd0a909b984a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 09/52] fix: reject malformed and out-of-range integers for
 scalar options

---
 source/callbacks/handlers/int_handler.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/int_handler.c b/source/callbacks/handlers/int_handler.c
index 168c266..23d4a21 100644
--- a/source/callbacks/handlers/int_handler.c
+++ b/source/callbacks/handlers/int_handler.c
@@ -11,11 +11,27 @@
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
+#include <errno.h>
 #include <stdlib.h>
 
 int int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value = (argus_value_t){.as_int64 = strtoll(value, NULL, 10)};
+    char *endptr = NULL;
+
+    errno                  = 0;
+    long long parsed_value = strtoll(value, &endptr, 10);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid integer value: '%s'",
+                            value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    if (errno == ERANGE) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE, "Integer value out of range: '%s'",
+                            value);
+        return ARGUS_ERROR_INVALID_VALUE;
+    }
+
+    option->value = (argus_value_t){.as_int64 = parsed_value};
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 8cea16693ece6598e1b59b1e77723b63e2336701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 10/52] fix: convert scalar floats at full precision and reject
 malformed ones

---
 source/callbacks/handlers/float_handler.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index d216444..a3573c5 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -16,7 +16,14 @@
 
 int float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value.as_float = strtof(value, NULL);
+    char  *endptr       = NULL;
+    double parsed_value = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float value: '%s'", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+
+    option->value.as_float = parsed_value;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From af40d7224d21cfffe2e2f402fd829f1e6268900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 11/52] fix: report failed growth of collections instead of
 writing past them

---
 includes/argus/internal/utils.h               |  4 ++--
 .../callbacks/handlers/array_float_handler.c  | 22 ++++++++++++++-----
 source/callbacks/handlers/array_int_handler.c |  9 ++++----
 .../callbacks/handlers/array_string_handler.c |  3 +--
 source/callbacks/handlers/map_bool_handler.c  |  5 ++++-
 source/callbacks/handlers/map_float_handler.c |  5 ++++-
 source/callbacks/handlers/map_int_handler.c   |  5 ++++-
 .../callbacks/handlers/map_string_handler.c   |  7 ++++--
 .../handlers/variadic_float_handler.c         |  3 +--
 .../callbacks/handlers/variadic_int_handler.c |  3 +--
 .../handlers/variadic_string_handler.c        |  3 +--
 source/utils/multi_values.c                   | 17 +++++++++-----
 12 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index c84d768..4cab60c 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -62,8 +62,8 @@ int    putnchar(char c, size_t n);
  * Multi_value utility functions
  */
 #define MULTI_VALUE_INITIAL_CAPACITY 8
-void adjust_array_size(argus_option_t *option);
-void adjust_map_size(argus_option_t *option);
+int  adjust_array_size(argus_option_t *option);
+int  adjust_map_size(argus_option_t *option);
 int  map_find_key(argus_option_t *option, const char *key);
 void apply_array_flags(argus_option_t *option);
 void apply_map_flags(argus_option_t *option);
diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..6cc02e0 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,11 +15,13 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
+        return ARGUS_ERROR_MEMORY;
     option->value.as_array[option->value_count].as_float = strtof(value, NULL);
     option->value_count++;
+    return ARGUS_SUCCESS;
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
@@ -32,11 +34,19 @@ int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..c8d5cbd 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -85,13 +85,15 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int i = range->start; i <= range->end; i++) {
-        adjust_array_size(option);
+        if (adjust_array_size(option) != ARGUS_SUCCESS)
+            return ARGUS_ERROR_MEMORY;
         option->value.as_array[option->value_count].as_int = i;
         option->value_count++;
     }
+    return ARGUS_SUCCESS;
 }
 
 /**
@@ -106,8 +108,7 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
-    return (ARGUS_SUCCESS);
+    return add_range_values(option, &range);
 }
 
 /**
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..b5378a7 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..32d4a88 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -96,7 +96,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..7e5f53d 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -59,7 +59,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..cffd3c6 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -60,7 +60,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..0c4c21f 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -55,8 +55,11 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_string = value;
     } else {
         // Key doesn't exist, add new entry
-
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            free(value);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..4ab8d4c 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -18,8 +18,7 @@
 
 static int set_float_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char  *endptr;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..ae12a49 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -19,8 +19,7 @@
 
 static int set_int_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char     *endptr;
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..e59401d 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_string_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..79000da 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -7,6 +7,7 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 #include <math.h>
@@ -444,46 +445,50 @@ void apply_map_flags(argus_option_t *option)
     }
 }
 
-void adjust_array_size(argus_option_t *option)
+int adjust_array_size(argus_option_t *option)
 {
     if (option->value.as_array == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_array = malloc(option->value_capacity * sizeof(argus_value_t));
         if (option->value.as_array == NULL) {
             option->value_capacity = 0;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_array, option->value_capacity * sizeof(argus_value_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
         option->value.as_array = new;
     }
+    return ARGUS_SUCCESS;
 }
 
-void adjust_map_size(argus_option_t *option)
+int adjust_map_size(argus_option_t *option)
 {
     if (option->value.as_map == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_map   = malloc(option->value_capacity * sizeof(argus_pair_t));
         if (option->value.as_map == NULL) {
             option->value_capacity = 0;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_map, option->value_capacity * sizeof(argus_pair_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
         option->value.as_map = new;
     }
+    return ARGUS_SUCCESS;
 }
 
 int map_find_key(argus_option_t *option, const char *key)
-- 
2.43.0


From 77b2ddbe41916500f6f8e0367449158c3408985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 12/52] fix: release the duplicate key of a repeated or
 rejected map entry

---
 source/callbacks/handlers/map_bool_handler.c   | 2 ++
 source/callbacks/handlers/map_float_handler.c  | 2 ++
 source/callbacks/handlers/map_int_handler.c    | 2 ++
 source/callbacks/handlers/map_string_handler.c | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 32d4a88..4db26b4 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -93,6 +94,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 7e5f53d..70c0670 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -56,6 +57,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index cffd3c6..4db97f7 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index 0c4c21f..cd29cc5 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -51,6 +51,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     if (key_index >= 0) {
         // Key exists, update value
+        free(key);
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
     } else {
-- 
2.43.0


From 991f3e4ca03850a2333d3f003ae4ed703fc940df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 13/52] fix: do not print the null pointer when a map entry
 cannot be allocated

---
 source/callbacks/handlers/map_bool_handler.c   | 4 ++--
 source/callbacks/handlers/map_float_handler.c  | 4 ++--
 source/callbacks/handlers/map_int_handler.c    | 4 ++--
 source/callbacks/handlers/map_string_handler.c | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 4db26b4..8924b57 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -72,8 +72,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 70c0670..5c6ea07 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -34,8 +34,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 4db97f7..a798344 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -35,8 +35,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd29cc5..0afb491 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -34,15 +34,15 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key of '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = safe_strdup(separator + 1);
     if (value == NULL) {
         free(key);
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value '%s'",
-                            value);
+                            separator + 1);
         return ARGUS_ERROR_MEMORY;
     }
 
-- 
2.43.0


From 401e79e57a5a60848a9bf37d84fc795b23bf384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 14/52] fix: read collection integers as 64-bit values and
 reject malformed or out-of-range ones

---
 source/callbacks/handlers/array_int_handler.c | 38 +++++++++++++------
 source/callbacks/handlers/map_int_handler.c   |  6 ++-
 .../callbacks/handlers/variadic_int_handler.c |  6 ++-
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index c8d5cbd..3fb8926 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,9 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <stdbool.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -30,10 +33,22 @@
  */
 typedef struct
 {
-    int start;
-    int end;
+    int64_t start;
+    int64_t end;
 } int_argus_range_t;
 
+/**
+ * Convert an integer literal that must end exactly at `end`
+ */
+static bool parse_int64(int64_t *result, const char *value, const char *end)
+{
+    char *endptr = NULL;
+
+    errno   = 0;
+    *result = strtoll(value, &endptr, 10);
+    return (endptr != value && endptr == end && errno != ERANGE);
+}
+
 const char *search_range_separator(const char *value, const char *separators)
 {
     for (const char *ptr = value; *ptr != '\0'; ptr++) {
@@ -62,19 +77,18 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
     if (range_separator != NULL) {
         // Successfully parsed as a range
         // Normalize range using MIN/MAX
-        int start    = strtol(value, NULL, 10);
-        int end      = strtol(range_separator + 1, NULL, 10);
+        int64_t     start, end;
+        const char *value_end = range_separator + strlen(range_separator);
+        if (!parse_int64(&start, value, range_separator) ||
+            !parse_int64(&end, range_separator + 1, value_end))
+            return -1;  // Invalid bounds
         range->start = MIN(start, end);
         range->end   = MAX(start, end);
         return 0;
     }
 
     // Not a range, try as a single value
-    char *endptr = NULL;
-    range->start = strtol(value, &endptr, 10);
-
-    // Check if the entire string was a valid integer
-    if (*endptr != '\0')
+    if (!parse_int64(&range->start, value, value + strlen(value)))
         return -1;  // Invalid integer format
 
     // Single value case (start = end)
@@ -87,11 +101,13 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (int64_t i = range->start;; i++) {
         if (adjust_array_size(option) != ARGUS_SUCCESS)
             return ARGUS_ERROR_MEMORY;
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
+        if (i == range->end)
+            break;
     }
     return ARGUS_SUCCESS;
 }
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index a798344..4ab4814 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -10,6 +10,7 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include <stdint.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -42,11 +43,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to integer
-    char   *endptr;
+    char *endptr;
+    errno             = 0;
     int64_t int_value = strtoll(value, &endptr, 10);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (*value == '\0' || *endptr != '\0' || errno == ERANGE) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index ae12a49..ce0ad6f 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -10,6 +10,7 @@
 #include <stdint.h>
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
@@ -22,10 +23,11 @@ static int set_int_value(argus_option_t *option, char *value)
     if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
-    char     *endptr;
+    char *endptr;
+    errno                  = 0;
     long long parsed_value = strtoll(value, &endptr, 10);
 
-    if (*endptr != '\0' || endptr == value)
+    if (*endptr != '\0' || endptr == value || errno == ERANGE)
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_int64 = parsed_value;
-- 
2.43.0


From f171fc94c1657c5663b24c30e2c6879b9c1a40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 15/52] fix: convert float arrays at full precision and reject
 malformed elements

---
 .../callbacks/handlers/array_float_handler.c   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 6cc02e0..128bf16 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,19 +15,25 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static int set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
+    char  *endptr       = NULL;
+    double parsed_value = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float value: '%s'", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+
     if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
-    option->value.as_array[option->value_count].as_float = strtof(value, NULL);
+    option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
     return ARGUS_SUCCESS;
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
@@ -35,7 +41,7 @@ int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
             return ARGUS_ERROR_MEMORY;
         }
         for (size_t i = 0; splited_values[i] != NULL; ++i) {
-            int status = set_value(option, splited_values[i]);
+            int status = set_value(argus, option, splited_values[i]);
             if (status != ARGUS_SUCCESS) {
                 free_split(splited_values);
                 return status;
@@ -43,7 +49,7 @@ int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
         }
         free_split(splited_values);
     } else {
-        int status = set_value(option, value);
+        int status = set_value(argus, option, value);
         if (status != ARGUS_SUCCESS)
             return status;
     }
-- 
2.43.0


From 0ec90833da71120f10105c4471d35473974ff316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 16/52] fix: sort and deduplicate integers on all 64 bits

---
 source/utils/multi_values.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 79000da..fc5dcea 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -23,9 +23,9 @@ static int compare_int_values(const void *a, const void *b)
     const argus_value_t *va = (const argus_value_t *)a;
     const argus_value_t *vb = (const argus_value_t *)b;
 
-    if (va->as_int < vb->as_int)
+    if (va->as_int64 < vb->as_int64)
         return -1;
-    if (va->as_int > vb->as_int)
+    if (va->as_int64 > vb->as_int64)
         return 1;
     return 0;
 }
@@ -73,9 +73,9 @@ static int compare_map_int_values(const void *a, const void *b)
     const argus_pair_t *pa = (const argus_pair_t *)a;
     const argus_pair_t *pb = (const argus_pair_t *)b;
 
-    if (pa->value.as_int < pb->value.as_int)
+    if (pa->value.as_int64 < pb->value.as_int64)
         return -1;
-    if (pa->value.as_int > pb->value.as_int)
+    if (pa->value.as_int64 > pb->value.as_int64)
         return 1;
     return 0;
 }
@@ -153,7 +153,7 @@ size_t make_int_array_unique(argus_value_t *array, size_t count)
         bool is_duplicate = false;
 
         for (size_t j = 0; j < unique_count; j++) {
-            if (array[i].as_int == array[j].as_int) {
+            if (array[i].as_int64 == array[j].as_int64) {
                 is_duplicate = true;
                 break;
             }
@@ -288,7 +288,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int == map[j].value.as_int);
+                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
                     break;
 
                 case VALUE_TYPE_STRING:
-- 
2.43.0


From 35b903b3e90ffd20cc3c0ab906479e417df65c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 17/52] fix: sort and deduplicate map integers on all 64 bits

---
 source/utils/multi_values.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index fc5dcea..9c7809c 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -23,9 +23,9 @@ static int compare_int_values(const void *a, const void *b)
     const argus_value_t *va = (const argus_value_t *)a;
     const argus_value_t *vb = (const argus_value_t *)b;
 
-    if (va->as_int64 < vb->as_int64)
+    if (va->as_int < vb->as_int)
         return -1;
-    if (va->as_int64 > vb->as_int64)
+    if (va->as_int > vb->as_int)
         return 1;
     return 0;
 }
@@ -153,7 +153,7 @@ size_t make_int_array_unique(argus_value_t *array, size_t count)
         bool is_duplicate = false;
 
         for (size_t j = 0; j < unique_count; j++) {
-            if (array[i].as_int64 == array[j].as_int64) {
+            if (array[i].as_int == array[j].as_int) {
                 is_duplicate = true;
                 break;
             }
-- 
2.43.0


From 3d271cc9da16cecc9f42542f6c92a7303ad0867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 18/52] fix: validate ranges and integer choices on all 64 bits

---
 source/callbacks/validators/choices_validator.c | 9 +++++----
 source/callbacks/validators/range_validator.c   | 8 ++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..911111a 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -46,18 +46,19 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
     choices_data_t *choices = &data.choices;
 
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (option->value.as_int64 == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%" PRId64 "' is not one of [%s]",
+                            option->value.as_int64, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices",
+                            option->value.as_int64);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index b521b20..bf5e564 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -25,9 +25,13 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
-    if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
+    // Integer options hold 64 bits, other types may only have set an int
+    int64_t value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
+
+    if (value < data.range.min || value > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
-                            "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
+                            "Value %" PRId64 " is out of range %" PRId64 "-%" PRId64, value,
                             data.range.min, data.range.max);
         return ARGUS_ERROR_INVALID_RANGE;
     }
-- 
2.43.0


From 8d8f0a4aa3de7d190f8faf0e810e63f329799878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 19/52] fix: compare float options with the bounds of V_RANGE
 by value

---
 source/callbacks/validators/range_validator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index bf5e564..8dfc9c6 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -25,6 +25,17 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
+    if (option->value_type == VALUE_TYPE_FLOAT) {
+        double value = option->value.as_float;
+        if (!(value >= (double)data.range.min && value <= (double)data.range.max)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
+                                "Value %g is out of range %" PRId64 "-%" PRId64, value,
+                                data.range.min, data.range.max);
+            return ARGUS_ERROR_INVALID_RANGE;
+        }
+        return (ARGUS_SUCCESS);
+    }
+
     // Integer options hold 64 bits, other types may only have set an int
     int64_t value =
         option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
-- 
2.43.0


From 09630a2b6c90a43b5e2837cfab926847e364b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 20/52] fix: forget the element count of a freed collection

---
 source/utils/value_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..07371ff 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -23,8 +23,10 @@ void free_option_value(argus_option_t *option)
         option->free_handler(option);
     else
         free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    option->is_allocated   = false;
+    option->value.as_ptr   = NULL;
+    option->value_count    = 0;
+    option->value_capacity = 0;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From bac3acfdf88c6e7034098aaddc8ef200898d7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 21/52] fix: do not count an element in a collection that
 stayed empty

---
 source/core/parsing/execute_callbacks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..48d5c60 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From 7d8adf0f7ea8a6c25f1fac8aee938d240b3f4ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 22/52] fix: let an environment variable take precedence over a
 default value

---
 source/core/parsing/load_env_vars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..5332fe9 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -73,7 +73,9 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        // A default value does not outrank the environment, the command line does
+        bool given = option->is_set && !(option->have_default && option->value_count == 0);
+        if (given && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
-- 
2.43.0


From cdcf220a81646dc6e9304ff4eadd016437388460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 23/52] fix: replace, not extend or dangle, a collection the
 environment overrides

---
 source/core/parsing/load_env_vars.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 5332fe9..0485c12 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -14,6 +14,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 /**
@@ -86,18 +87,12 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (!env_value)
             continue;
 
-        bool          was_set   = option->is_set;
-        argus_value_t old_value = option->value;
+        // The environment replaces what the command line gave
+        free_option_value(option);
 
-        //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
-        if (status != ARGUS_SUCCESS) {
-            if (was_set) {
-                option->is_set = was_set;
-                option->value  = old_value;
-            }
+        if (status != ARGUS_SUCCESS)
             return (status);
-        }
     }
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From af9129fb65a3bc7f33e50e4834c7c2c2579091c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 24/52] fix: keep error_code in step with the status of a
 failed parse

---
 source/api/argus_parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..6618403 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -39,11 +39,13 @@ int argus_parse(argus_t *argus, int argc, char **argv)
 
     status = load_env_vars(argus);
     if (status != ARGUS_SUCCESS) {
+        argus->error_code = status;
         argus_free(argus);
         return (status);
     }
 
-    status = post_parse_validation(argus);
+    status            = post_parse_validation(argus);
+    argus->error_code = status;
     if (status != ARGUS_SUCCESS)
         argus_free(argus);
     return (status);
-- 
2.43.0


From 60949232bcd26d98f264500d063e21c2d94b55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 25/52] fix: enforce FLAG_REQUIRED on options

---
 source/core/parsing/post_parse_validation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 5793dab..61ceb67 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -83,6 +83,12 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             return (ARGUS_ERROR_MISSING_REQUIRED);
         }
 
+        if (option->type == TYPE_OPTION && (option->flags & FLAG_REQUIRED) && !option->is_set) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED, "Required option missing: '%s'",
+                                option->name);
+            return (ARGUS_ERROR_MISSING_REQUIRED);
+        }
+
         if (option->is_set) {
             int status;
 
-- 
2.43.0


From ae7a4b8d9ae5e8694523b66b1a0d028d8b0f543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 26/52] fix: describe every error code in argus_strerror

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..897d7aa 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -56,6 +56,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Missing help option";
         case ARGUS_ERROR_STACK_OVERFLOW:
             return "Error stack overflow";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid option structure";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Out of memory";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported operation";
         default:
             return "Unknown error";
     }
-- 
2.43.0


From bf64c7b38262d111ad307a33cfcaf1341264664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 27/52] fix: restore every redirected stream in
 stream_cleanup_all

---
 source/utils/stream.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index cc22e04..c2ab2ea 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -189,9 +189,7 @@ void stream_cleanup_all(void)
 {
     for (int i = 0; i < MAX_STREAMS; i++) {
         stream_info_t *info = &streams[i];
-        if (info->is_active) {
-            int fd = (i == 0) ? STDOUT_FILENO : STDERR_FILENO;
-            stream_restore(fd);
-        }
+        if (info->is_active)
+            stream_restore(i);
     }
 }
-- 
2.43.0


From e0a6c452cf929dcc86b73a3cf38a2ace4b82b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 28/52] fix: show 64-bit integer defaults in full in the help
 text

---
 source/display/help/help_formatter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..f740d36 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -269,8 +270,8 @@ static char *append_default_info(char *description, const argus_option_t *option
 
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%d)",
-                     option->default_value.as_int);
+            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%" PRId64 ")",
+                     option->default_value.as_int64);
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-- 
2.43.0


From a733cfbb477f587a92a4c8031065b2145e6647c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 29/52] fix: keep every attribute of an option in its help line

---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index f740d36..a8304b3 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -374,7 +374,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From 4494154dfc154a7df492b52ece00faf553d99c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 30/52] fix: wrap help text when the line is narrower than the
 description column

---
 source/display/help/help_formatter.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index a8304b3..68cb3ee 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -171,11 +171,12 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
     size_t line_start  = 0;
     size_t current_pos = 0;
     size_t last_space  = 0;
+    // Consider "- " prefix, and always leave room for one character
+    size_t text_width = line_width > indent + 2 ? line_width - indent - 2 : 1;
 
     while (current_pos < text_len) {
         while (current_pos < text_len &&
-               current_pos - line_start < line_width - indent - 2 &&  // Consider "- " prefix
-               text[current_pos] != '\n') {
+               current_pos - line_start < text_width && text[current_pos] != '\n') {
             if (text[current_pos] == ' ')
                 last_space = current_pos;
             current_pos++;
@@ -188,7 +189,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= line_width - indent - 2) {
+        } else if (current_pos - line_start >= text_width) {
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From ad1698e691d80cf2685a64c804ce63b668a7367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 31/52] fix: leave hidden subcommands out of the help text

---
 source/display/help/help_organizer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..4962a4f 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -103,6 +103,9 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
+
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0


From 9365550d8b3dc94553f207bc618305626c25935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 32/52] fix: survive a failed allocation while grouping options
 for help

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 4962a4f..e4db8ac 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    if (group != NULL)
+                        add_option_to_list(&group->options, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0


From ad9406c8d5b0ad3ac79e890beb811592eea9c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 33/52] fix: show wide validator bounds in full

---
 source/callbacks/validators/count_validator.c  | 4 ++--
 source/callbacks/validators/length_validator.c | 4 ++--
 source/callbacks/validators/range_validator.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/count_validator.c b/source/callbacks/validators/count_validator.c
index fc44cc1..d60514a 100644
--- a/source/callbacks/validators/count_validator.c
+++ b/source/callbacks/validators/count_validator.c
@@ -43,10 +43,10 @@ int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_count_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/length_validator.c b/source/callbacks/validators/length_validator.c
index bea096a..013cbdf 100644
--- a/source/callbacks/validators/length_validator.c
+++ b/source/callbacks/validators/length_validator.c
@@ -48,10 +48,10 @@ int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_length_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index 8dfc9c6..b1f74f5 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -51,10 +51,10 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_range_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
-- 
2.43.0


From 3b3cc3b0a7ca1fa8dede05b67b8bd0e458c6ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 34/52] fix: accept the documented flags of repeating
 positionals

---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..4ec9698 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -143,9 +143,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From 11e9751eabf4af8f4d338bd473badbcce824a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 35/52] fix: keep the value of floating-point defaults

---
 includes/argus/options.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/includes/argus/options.h b/includes/argus/options.h
index af3565c..b3360cd 100644
--- a/includes/argus/options.h
+++ b/includes/argus/options.h
@@ -72,8 +72,16 @@ ARGUS_API char *format_choices_validator(validator_data_t data);
 # define ARGUS_DEBUG_INFO            .line = 0, .file = NULL
 #endif /* ARGUS_DEBUG */
 #define DEFINE_NAME(lname, sname) ((lname) ? (lname) : CHAR_TO_STRING(sname))
-#define DEFAULT(val)            .value = (argus_value_t){ .raw = (uintptr_t)(val) },         \
-                                .default_value = (argus_value_t){ .raw = (uintptr_t)(val) }, \
+/* A floating-point default is stored as a double, anything else as is */
+#define _DEFAULT_DOUBLE_(val) _Generic((val), float: (val), double: (val), default: 0.0)
+#define _DEFAULT_RAW_(val)    _Generic((val), float: 0, double: 0, default: (val))
+#define _DEFAULT_VALUE_(val)                                                  \
+    _Generic((val),                                                           \
+        float: (argus_value_t){ .as_float = _DEFAULT_DOUBLE_(val) },          \
+        double: (argus_value_t){ .as_float = _DEFAULT_DOUBLE_(val) },         \
+        default: (argus_value_t){ .raw = (uintptr_t)(_DEFAULT_RAW_(val)) })
+#define DEFAULT(val)            .value = _DEFAULT_VALUE_(val),         \
+                                .default_value = _DEFAULT_VALUE_(val), \
                                 .is_set = true, \
                                 .have_default = true
 #define HANDLER(fn)             .handler = (argus_handler_t)(fn)
-- 
2.43.0


From f7d3cdd0e1b3493ddedaa9ab6dc45daa0c58377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 36/52] fix: check option flags against their value type

---
 includes/argus/types.h                      | 10 ++++++----
 source/core/validation/validate_arguments.c |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/includes/argus/types.h b/includes/argus/types.h
index 3a5d34b..24d927c 100644
--- a/includes/argus/types.h
+++ b/includes/argus/types.h
@@ -107,13 +107,15 @@ typedef enum argus_optflags_e
 /* Flag masks for validation */
 #define VERSIONING_FLAG_MASK (FLAG_DEPRECATED | FLAG_EXPERIMENTAL)
 #define OPTION_FLAG_MASK                                                                           \
-    (FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | VERSIONING_FLAG_MASK)
-#define OPTION_ARRAY_FLAG_MASK (FLAG_SORTED | FLAG_UNIQUE | VERSIONING_FLAG_MASK)
+    (FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | FLAG_ENV_OVERRIDE | FLAG_AUTO_ENV | \
+     FLAG_NO_ENV_PREFIX | VERSIONING_FLAG_MASK)
+#define OPTION_ARRAY_FLAG_MASK (OPTION_FLAG_MASK | FLAG_SORTED | FLAG_UNIQUE)
 #define OPTION_MAP_FLAG_MASK                                                                       \
-    (FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE | VERSIONING_FLAG_MASK)
+    (OPTION_FLAG_MASK | FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE)
 #define GROUP_FLAG_MASK           (FLAG_EXCLUSIVE)
 #define POSITIONAL_FLAG_MASK      (FLAG_REQUIRED)
-#define POSITIONAL_MANY_FLAG_MASK (OPTION_ARRAY_FLAG_MASK | FLAG_REQUIRED | FLAG_OPTIONAL)
+#define POSITIONAL_MANY_FLAG_MASK                                                                  \
+    (FLAG_REQUIRED | FLAG_OPTIONAL | FLAG_SORTED | FLAG_UNIQUE | VERSIONING_FLAG_MASK)
 #define SUBCOMMAND_FLAG_MASK      (FLAG_HIDDEN | FLAG_ADVANCED | VERSIONING_FLAG_MASK)
 
 /**
diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 4ec9698..6ce4f8b 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -98,9 +98,10 @@ int validate_option(argus_t *argus, argus_option_t *options, argus_option_t *opt
         ARGUS_STRUCT_ERROR(option, "Option must have a short name or a long name");
         status = ARGUS_ERROR_MALFORMED_OPTION;
     }
-    if ((option->value_type == VALUE_TYPE_PRIMITIVE && option->flags & ~OPTION_FLAG_MASK) ||
-        (option->value_type == VALUE_TYPE_ARRAY && option->flags & ~OPTION_ARRAY_FLAG_MASK) ||
-        (option->value_type == VALUE_TYPE_MAP && option->flags & ~OPTION_MAP_FLAG_MASK)) {
+    if ((option->value_type & (VALUE_TYPE_PRIMITIVE | VALUE_TYPE_FLAG) &&
+         option->flags & ~OPTION_FLAG_MASK) ||
+        (option->value_type & VALUE_TYPE_ARRAY && option->flags & ~OPTION_ARRAY_FLAG_MASK) ||
+        (option->value_type & VALUE_TYPE_MAP && option->flags & ~OPTION_MAP_FLAG_MASK)) {
         ARGUS_STRUCT_ERROR(option, "Option has invalid flags for its value type");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From a7415a6f9b2cfedb366b7cc440df641c2f59561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 37/52] fix: read the value the environment gives to a flag

---
 source/callbacks/handlers/flag_handler.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/callbacks/handlers/flag_handler.c b/source/callbacks/handlers/flag_handler.c
index 0f1c029..e4d3c05 100644
--- a/source/callbacks/handlers/flag_handler.c
+++ b/source/callbacks/handlers/flag_handler.c
@@ -8,13 +8,15 @@
  */
 
 #include "argus/errors.h"
-#include "argus/internal/utils.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 int flag_handler(argus_t *argus, argus_option_t *option, char *arg)
 {
-    UNUSED(argus);
-    UNUSED(arg);
+    // Only the environment gives a flag a value, it reads like a boolean
+    if (arg != NULL)
+        return (bool_handler(argus, option, arg));
+
     option->value.as_bool = true;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 0b55d13c42c7c084ef447f63e39a4cbf3aab23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 38/52] fix: report a name used twice in one table whatever the
 order and kind

---
 source/core/validation/validate_structure.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..084f334 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -79,15 +79,18 @@ int validate_placement(argus_option_t *options)
     return (status);
 }
 
-static int lname_is_unique(argus_option_t *options, int i)
+static int name_is_unique(argus_option_t *options, int i)
 {
     int status = ARGUS_SUCCESS;
 
-    if (options[i].lname == NULL)
+    // Group names are only headings, everything else is looked up by its name
+    if (options[i].type == TYPE_GROUP)
         return status;
 
     for (int j = i + 1; options[j].type != TYPE_NONE; ++j) {
-        if (options[i].lname && options[j].name && strcmp(options[i].lname, options[j].name) == 0) {
+        if (options[j].type == TYPE_GROUP)
+            continue;
+        if (options[i].name && options[j].name && strcmp(options[i].name, options[j].name) == 0) {
             ARGUS_STRUCT_ERROR(&options[i], "Name conflict with option line: %d", options[j].line);
             status = ARGUS_ERROR_DUPLICATE_OPTION;
         }
@@ -148,7 +151,7 @@ int validate_naming(argus_option_t *options)
             ARGUS_STRUCT_ERROR(option, "Long name cannot be empty");
             status = ARGUS_ERROR_MALFORMED_OPTION;
         }
-        if (lname_is_unique(options, i) != ARGUS_SUCCESS)
+        if (name_is_unique(options, i) != ARGUS_SUCCESS)
             status = ARGUS_ERROR_MALFORMED_OPTION;
     }
     return (status);
-- 
2.43.0


From 949666fa0b0373b2e2c61cbad4ad1647dba588a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 39/52] fix: report a default refused without a message

---
 source/core/validation/validate_arguments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 6ce4f8b..9dd7710 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -38,7 +38,7 @@ static int validate_default_value(argus_t *argus, argus_option_t *option)
                 char *error_message = read_stderr();
                 restore_stderr();
                 ARGUS_STRUCT_ERROR(option, "Default value does not pass validations: \n\t    %s",
-                                   error_message);
+                                   error_message ? error_message : "");
                 free(error_message);
                 status = ARGUS_ERROR_INVALID_DEFAULT;
             } else
-- 
2.43.0


From cd18200b357bacb47c94189edb1eff773002c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 40/52] fix: keep earlier output out of a capture

---
 source/utils/stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index c2ab2ea..e720e41 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -60,6 +60,12 @@ int stream_redirect(int fd)
     if (info->is_active)
         return STREAM_ERROR_ALREADY_ACTIVE;
 
+    // What was printed before does not belong to the capture
+    if (fd == STDOUT_FILENO)
+        fflush(stdout);
+    else if (fd == STDERR_FILENO)
+        fflush(stderr);
+
     if (pipe(info->pipe_fds) != 0)
         return STREAM_ERROR_PIPE_FAILED;
 
-- 
2.43.0


From d47a208161f02412e53adab4c95659491b39b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 41/52] fix: show texts of any length in the help

---
 source/display/help/help_formatter.c | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 68cb3ee..b322c8f 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -276,8 +276,10 @@ static char *append_default_info(char *description, const argus_option_t *option
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "\"%s\")",
-                         option->default_value.as_string);
+                // A text may be longer than the buffer
+                description = append_to_description(description, " (default: \"");
+                description = append_to_description(description, option->default_value.as_string);
+                return append_to_description(description, "\")");
             } else
                 snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "null)");
             break;
@@ -318,29 +320,29 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    char validator_info[256] = {0};
-
+                    const char *prefix = NULL;
+                    const char *suffix = ")";
                     if (validator->func == regex_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (pattern: %s)",
-                                 validator_desc);
+                        prefix = " (pattern: ";
                     } else if (validator->func == choices_string_validator ||
                                validator->func == choices_int_validator ||
                                validator->func == choices_float_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " [%s]", validator_desc);
+                        prefix = " [";
+                        suffix = "]";
                     } else if (validator->func == length_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (%s)", validator_desc);
+                        prefix = " (";
                     } else if (validator->func == range_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (range: %s)",
-                                 validator_desc);
+                        prefix = " (range: ";
                     } else if (validator->func == count_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (count: %s)",
-                                 validator_desc);
+                        prefix = " (count: ";
                     }
 
-                    if (validator_info[0] != '\0') {
-                        description = append_to_description(description, validator_info);
+                    // The text of a validator has no fixed length
+                    if (prefix != NULL) {
+                        description = append_to_description(description, prefix);
+                        description = append_to_description(description, validator_desc);
+                        description = append_to_description(description, suffix);
                     }
-
                     free(validator_desc);
                 }
             }
-- 
2.43.0


From 3ad6a8acf0d81d11bc30f74ec3dd80b7a47d3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 42/52] fix: show number choices as they are

---
 source/callbacks/validators/choices_validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index 911111a..2bf0914 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -126,7 +126,7 @@ char *format_choices_validator(validator_data_t data)
                 safe_strcat(result, total_length + 1, item);
                 break;
             case VALUE_TYPE_FLOAT:
-                snprintf(item, sizeof(item), "%.2g", choices->as_floats[i]);
+                snprintf(item, sizeof(item), "%g", choices->as_floats[i]);
                 safe_strcat(result, total_length + 1, item);
                 break;
             default:
-- 
2.43.0


From 7a0fc4f493cba0c80b970568fc87f0d1fd879ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 43/52] fix: keep hidden commands out of the overview

---
 source/display/command_display.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index 4c4e5a7..b78ebe2 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -48,7 +48,7 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &options[i];
 
-        if (option->type != TYPE_SUBCOMMAND)
+        if (option->type != TYPE_SUBCOMMAND || option->flags & FLAG_HIDDEN)
             continue;
 
         if (!current_group_started && !*first_in_group)
@@ -114,7 +114,7 @@ static bool print_simple_commands_group(argus_t *argus)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (is_effectively_simple_command(option)) {
+        if (is_effectively_simple_command(option) && !(option->flags & FLAG_HIDDEN)) {
             char command_path[COMMAND_BUFFER_SIZE];
             snprintf(command_path, sizeof(command_path), "%s %s", argus->program_name,
                      option->name);
@@ -133,7 +133,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (option->type != TYPE_SUBCOMMAND || !has_executable_subcommands(option))
+        if (option->type != TYPE_SUBCOMMAND || option->flags & FLAG_HIDDEN ||
+            !has_executable_subcommands(option))
             continue;
 
         if (printed_simple_commands || !first_family)
@@ -151,7 +152,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
         for (int j = 0; option->sub_options[j].type != TYPE_NONE; ++j) {
             const argus_option_t *sub_option = &option->sub_options[j];
 
-            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL)
+            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->flags & FLAG_HIDDEN ||
+                sub_option->action == NULL)
                 continue;
 
             char full_command_path[FULL_PATH_BUFFER_SIZE];
-- 
2.43.0


From 267b1495e0a4d3022fd3fc4a11cdd14fc9e6da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 44/52] fix: leave a description that ends in a parenthesis
 whole

---
 source/display/help/help_formatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index b322c8f..1ca99e5 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -360,8 +360,10 @@ static char *append_env_info(char *description, argus_t *argus, const argus_opti
 
     char   env_buf[256] = {0};
     size_t desc_len     = strlen(description);
+    size_t help_len     = option->help ? strlen(option->help) : 0;
 
-    if (desc_len > 0 && description[desc_len - 1] == ')') {
+    // Join what was added before, but leave the help text itself as it is
+    if (desc_len > help_len && description[desc_len - 1] == ')') {
         snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
         if (desc_len > 0)
             description[desc_len - 1] = '\0';
-- 
2.43.0


From 836e3e19c87d2aebf038e6423e93bcf46220bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 45/52] fix: the IPv4 pattern ends where the address ends

---
 includes/argus/regex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index e756311..088c008 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -97,7 +97,7 @@
     /* IPv4 address: 0-255.0-255.0-255.0-255 */
     #define ARGUS_RE_IPV4                                                                          \
         MAKE_REGEX("^((25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-"  \
-                   "9][0-9]?)",                                                                    \
+                   "9][0-9]?)$",                                                                   \
                    "IPv4")
 
     /* Simplified IPv6 pattern */
-- 
2.43.0


From bffd42329dd4d1df62f3be5b3896233d4621c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 46/52] fix: a pattern ending in $ no longer accepts a value
 with a trailing newline

---
 source/callbacks/validators/regex_validator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/validators/regex_validator.c b/source/callbacks/validators/regex_validator.c
index 14e697c..d4ab4d7 100644
--- a/source/callbacks/validators/regex_validator.c
+++ b/source/callbacks/validators/regex_validator.c
@@ -45,8 +45,9 @@ int regex_validator(argus_t *argus, void *value_ptr, validator_data_t data)
 
     int         errorcode;
     PCRE2_SIZE  erroroffset;
-    pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED, 0, &errorcode,
-                                   &erroroffset, NULL);
+    // '$' stands for the end of the value, not for a newline before it
+    pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED,
+                                   PCRE2_DOLLAR_ENDONLY, &errorcode, &erroroffset, NULL);
 
     if (re == NULL) {
         PCRE2_UCHAR buffer[256];
-- 
2.43.0


From bec3c177343a5666996a139ed982f938bc0c9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 47/52] fix: URL patterns refuse a blank as second character of
 the host

---
 includes/argus/regex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index 088c008..4c3545e 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -124,10 +124,10 @@
         MAKE_REGEX("^(?=.{1,253}$)((?!-)[A-Za-z0-9-]{1,63}(?<!-)\\.)+[A-Za-z]{2,}$", "domain")
 
     /* URL pattern - supports many protocols */
-    #define ARGUS_RE_URL  MAKE_REGEX("^([a-zA-Z][a-zA-Z0-9+.-]*):\\/\\/[^\\s/$.?#].[^\\s]*$", "URL")
+    #define ARGUS_RE_URL  MAKE_REGEX("^([a-zA-Z][a-zA-Z0-9+.-]*):\\/\\/[^\\s/$.?#][^\\s]+$", "URL")
 
     /* More specific URL patterns */
-    #define ARGUS_RE_HTTP MAKE_REGEX("^https?:\\/\\/[^\\s/$.?#].[^\\s]*$", "HTTP-URL")
+    #define ARGUS_RE_HTTP MAKE_REGEX("^https?:\\/\\/[^\\s/$.?#][^\\s]+$", "HTTP-URL")
 
     /* Basic port number (1-65535) */
     #define ARGUS_RE_PORT                                                                          \
-- 
2.43.0


From eb4cccaf6bfee8d9d915d60c681b937032c8977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 48/52] fix: predefined patterns are the same in applications
 compiled without ARGUS_REGEX

The define is private to the library's own build, so an application that
followed the documentation got empty patterns, which accept every text.
---
 includes/argus/regex.h | 77 ------------------------------------------
 1 file changed, 77 deletions(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index 4c3545e..0fc6769 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -10,81 +10,6 @@
 #ifndef ARGUS_REGEX_H
 #define ARGUS_REGEX_H
 
-#ifndef ARGUS_REGEX
-
-    // Stub implementation when regex support is disabled
-    #define MAKE_REGEX(_pattern, _hint)                                                            \
-        (regex_data_t)                                                                             \
-        {                                                                                          \
-            .pattern = _pattern, .hint = _hint                                                     \
-        }
-
-    /*
-     * Network related patterns
-     */
-
-    /* IPv4 address: 0-255.0-255.0-255.0-255 */
-    #define ARGUS_RE_IPV4 MAKE_REGEX("", "Regex support disabled")
-    /* Simplified IPv6 pattern */
-    #define ARGUS_RE_IPV6 MAKE_REGEX("", "Regex support disabled")
-    /* FQDN (Fully Qualified Domain Name) */
-    #define ARGUS_RE_DOMAIN MAKE_REGEX("", "Regex support disabled")
-    /* URL pattern - supports many protocols */
-    #define ARGUS_RE_URL MAKE_REGEX("", "Regex support disabled")
-    /* More specific URL patterns */
-    #define ARGUS_RE_HTTP MAKE_REGEX("", "Regex support disabled")
-    /* Basic port number (1-65535) */
-    #define ARGUS_RE_PORT MAKE_REGEX("", "Regex support disabled")
-    /*
-     * Email related patterns
-     */
-
-    /* Basic email validation */
-    #define ARGUS_RE_EMAIL MAKE_REGEX("", "Regex support disabled")
-    /* More strict email validation */
-    #define ARGUS_RE_EMAIL_STRICT MAKE_REGEX("", "Regex support disabled")
-    /*
-     * Date and time patterns
-     */
-
-    /* ISO 8601 date (YYYY-MM-DD) */
-    #define ARGUS_RE_ISO_DATE MAKE_REGEX("", "Regex support disabled")
-    /* ISO 8601 datetime (YYYY-MM-DDThh:mm:ss) */
-    #define ARGUS_RE_ISOTIME MAKE_REGEX("", "Regex support disabled")
-    /*
-     * Identity and security patterns
-     */
-
-    /* Username: 3-20 characters, alphanumeric with underscores and hyphens */
-    #define ARGUS_RE_USER MAKE_REGEX("", "Regex support disabled")
-    /* Simple password (8+ chars, at least one letter and one number) */
-    #define ARGUS_RE_PASSWD MAKE_REGEX("", "Regex support disabled")
-    /* UUID (version 4) */
-    #define ARGUS_RE_UUID MAKE_REGEX("", "Regex support disabled")
-    /*
-     * File and path patterns
-     */
-
-    /* Unix absolute path */
-    #define ARGUS_RE_UNIX_PATH MAKE_REGEX("", "Regex support disabled")
-    /* File name with extension */
-    #define ARGUS_RE_FILENAME MAKE_REGEX("", "Regex support disabled")
-    /*
-     * Numbers and code patterns
-     */
-    /* Semantic version (major.minor.patch) */
-    #define ARGUS_RE_SEMVER MAKE_REGEX("", "Regex support disabled")
-    /* Positive integer */
-    #define ARGUS_RE_POS_INT MAKE_REGEX("", "Regex support disabled")
-    /* Negative integer */
-    #define ARGUS_RE_NEG_INT MAKE_REGEX("", "Regex support disabled")
-    /* Float (positive or negative with decimal places) */
-    #define ARGUS_RE_FLOAT MAKE_REGEX("", "Regex support disabled")
-    /* Hex number with 0x prefix */
-    #define ARGUS_RE_HEX MAKE_REGEX("", "Regex support disabled")
-
-#else
-
     /*
      * Network related patterns
      */
@@ -215,8 +140,6 @@
     /* Hex number with 0x prefix */
     #define ARGUS_RE_HEX     MAKE_REGEX("^0x[0-9a-fA-F]+$", "hex")
 
-#endif /* ARGUS_REGEX */
-
 /*
  * Convenience validator macros for common patterns
  * These can be used directly with VALIDATOR() without V_REGEX()
-- 
2.43.0


From 8ea44cc5cbb838819194f9753bef31aa0d7031af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 49/52] fix: show what an application's own validator formatter
 says in descriptions

Only the library's validators had a place there, so a text too long for
the hint, or beside a declared hint, was dropped.
---
 source/display/help/help_formatter.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 1ca99e5..c62c89a 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -320,7 +320,7 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    const char *prefix = NULL;
+                    const char *prefix = " (";
                     const char *suffix = ")";
                     if (validator->func == regex_validator) {
                         prefix = " (pattern: ";
@@ -329,8 +329,6 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
                                validator->func == choices_float_validator) {
                         prefix = " [";
                         suffix = "]";
-                    } else if (validator->func == length_validator) {
-                        prefix = " (";
                     } else if (validator->func == range_validator) {
                         prefix = " (range: ";
                     } else if (validator->func == count_validator) {
@@ -338,11 +336,9 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
                     }
 
                     // The text of a validator has no fixed length
-                    if (prefix != NULL) {
-                        description = append_to_description(description, prefix);
-                        description = append_to_description(description, validator_desc);
-                        description = append_to_description(description, suffix);
-                    }
+                    description = append_to_description(description, prefix);
+                    description = append_to_description(description, validator_desc);
+                    description = append_to_description(description, suffix);
                     free(validator_desc);
                 }
             }
-- 
2.43.0


From 7eac6521aa74f3de373cec32a4eac416b2b0a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 50/52] fix: stop checking a command table below the nesting
 limit

The check reported the level beyond the limit and went on into it, so a
table that refers to itself was followed until the stack was exhausted.
---
 source/core/validation/validate_structure.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index 084f334..548f7ab 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -209,8 +209,7 @@ int validate_structure(argus_t *argus, argus_option_t *options)
                 ARGUS_STRUCT_ERROR(option, "Subcommand depth exceeds maximum allowed (%d)",
                                    MAX_SUBCOMMAND_DEPTH);
                 status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
-            if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
+            } else if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             subcommand_depth--;
         }
-- 
2.43.0


From 94ad9f0a6298e81e3d829c390634d4a2da7116f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:37 +0000
Subject: [PATCH 51/52] fix: show the hint of a list or map option in full

---
 includes/argus/internal/help.h       |  2 +-
 source/display/help/help_formatter.c | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/includes/argus/internal/help.h b/includes/argus/internal/help.h
index e44b47a..2626a64 100644
--- a/includes/argus/internal/help.h
+++ b/includes/argus/internal/help.h
@@ -127,7 +127,7 @@ const char *get_collection_format(argus_valtype_t type);
  *
  * @param format     Format pattern
  * @param type_name  Base type name
- * @return           Formatted hint string (static buffer)
+ * @return           Formatted hint string to be freed by the caller, or NULL
  */
 char *format_collection_hint(const char *format, const char *type_name);
 
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index c62c89a..f55a6a2 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -64,9 +64,11 @@ const char *get_collection_format(argus_valtype_t type)
 
 char *format_collection_hint(const char *format, const char *type_name)
 {
-    static char buffer[64];
+    int   size   = snprintf(NULL, 0, format, type_name);
+    char *buffer = size < 0 ? NULL : malloc((size_t)size + 1);
 
-    snprintf(buffer, sizeof(buffer), format, type_name);
+    if (buffer)
+        snprintf(buffer, (size_t)size + 1, format, type_name);
     return buffer;
 }
 
@@ -227,10 +229,13 @@ size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t in
         char *smart_hint = get_smart_hint(argus, option);
         if (smart_hint) {
             const char *collection_format = get_collection_format(option->value_type);
+            char       *collection_hint   = NULL;
 
-            if (collection_format) {
-                const char *format_str = format_collection_hint(collection_format, smart_hint);
-                name_len += printf(" <%s>", format_str);
+            if (collection_format)
+                collection_hint = format_collection_hint(collection_format, smart_hint);
+            if (collection_hint) {
+                name_len += printf(" <%s>", collection_hint);
+                free(collection_hint);
             } else
                 name_len += printf(" <%s>", smart_hint);
             free(smart_hint);
-- 
2.43.0


From fcb8ea4833f1bdcf4b0c924245ae7b1b085b91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:03 +0000
Subject: [PATCH 52/52] fix: show the only limit of a positional or flag in its
 description

---
 source/display/help/help_formatter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index f55a6a2..17679ce 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -310,8 +310,12 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
     if (!option->validators)
         return description;
 
+    // Positionals and flags are shown without a hint
+    bool has_hint = option->type != TYPE_POSITIONAL && option->value_type != VALUE_TYPE_FLAG;
     bool validator_used_in_hint = false;
-    if (has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
+
+    if (has_hint && has_single_validator(option) && !option->hint &&
+        option->validators[0]->formatter) {
         char *validator_hint = option->validators[0]->formatter(option->validators[0]->data);
         if (validator_hint && is_short_hint(argus, validator_hint))
             validator_used_in_hint = true;
-- 
2.43.0

