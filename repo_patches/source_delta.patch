From 970563621ea73fffd0b9deaeea70d561a3e51b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:37 +0000
Subject: [PATCH 01/27] fix: Python bindings wrap features spaces in
 FeaturesSpace

---
 bindings/python/cconfigspace/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 29a9c10..eebc738 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -771,7 +771,7 @@ setattr(Object, 'CLASS_MAP', {
   ObjectType.EXPRESSION: Expression,
   ObjectType.CONFIGURATION_SPACE: ConfigurationSpace,
   ObjectType.CONFIGURATION: Configuration,
-  ObjectType.FEATURES_SPACE: ConfigurationSpace,
+  ObjectType.FEATURES_SPACE: FeaturesSpace,
   ObjectType.FEATURES: Features,
   ObjectType.OBJECTIVE_SPACE: ObjectiveSpace,
   ObjectType.EVALUATION: Evaluation,
-- 
2.43.0


From 618ffa93bd18ce984148a65d4f343b46ab601d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:37 +0000
Subject: [PATCH 02/27] fix: Ruby bindings: declare the datum ID flag in the
 flags bitmask

---
 bindings/ruby/lib/cconfigspace/base.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/base.rb b/bindings/ruby/lib/cconfigspace/base.rb
index e5f3403..4bed802 100644
--- a/bindings/ruby/lib/cconfigspace/base.rb
+++ b/bindings/ruby/lib/cconfigspace/base.rb
@@ -221,7 +221,8 @@ module CCS
 
   DatumFlags = bitmask FFI::Type::UINT32, :ccs_datum_flags_t, [
     :CCS_DATUM_FLAG_TRANSIENT,
-    :CCS_DATUM_FLAG_UNPOOLED ]
+    :CCS_DATUM_FLAG_UNPOOLED,
+    :CCS_DATUM_FLAG_ID ]
 
   NumericType = enum FFI::Type::INT32, :ccs_numeric_type_t, [
     :CCS_NUMERIC_TYPE_INT, DataType.to_native(:CCS_DATA_TYPE_INT, nil),
-- 
2.43.0


From 6384ca13ec3124617b768c8ab48a7d848460dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:28 +0000
Subject: [PATCH 03/27] fix: random tuners: report a failing comparison and
 keep the optima when tell fails

---
 src/features_tuner_random.c | 49 +++++++++++++++++++++----------------
 src/tree_tuner_random.c     | 49 +++++++++++++++++++++----------------
 src/tuner_random.c          | 49 +++++++++++++++++++++----------------
 3 files changed, 84 insertions(+), 63 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..7ef3328 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -201,7 +201,7 @@ _ccs_features_tuner_random_tell(
 		if (result == CCS_RESULT_SUCCESS) {
 			int       discard = 0;
 			UT_array *tmp;
-			ccs_retain_object(evaluations[i]);
+			CCS_VALIDATE(ccs_retain_object(evaluations[i]));
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
@@ -211,7 +211,8 @@ _ccs_features_tuner_random_tell(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		d->optima = d->old_optima;                                     \
+		d->optima     = d->old_optima;                                 \
+		d->old_optima = tmp;                                           \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -222,26 +223,32 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (CCS_UNLIKELY(err < CCS_RESULT_SUCCESS)) {
+						d->optima     = d->old_optima;
+						d->old_optima = tmp;
+						utarray_pop_back(history);
+						ccs_release_object(
+							evaluations[i]);
+						CCS_ADD_STACK_ELEM();
+						return err;
+					}
+					switch (cmp) {
+					case CCS_COMPARISON_EQUIVALENT:
+					case CCS_COMPARISON_WORSE:
 						discard = 1;
-					else
-						switch (cmp) {
-						case CCS_COMPARISON_EQUIVALENT:
-						case CCS_COMPARISON_WORSE:
-							discard = 1;
-							utarray_push_back(
-								d->optima,
-								eval);
-							break;
-						case CCS_COMPARISON_BETTER:
-							break;
-						case CCS_COMPARISON_NOT_COMPARABLE:
-						default:
-							utarray_push_back(
-								d->optima,
-								eval);
-							break;
-						}
+						utarray_push_back(
+							d->optima,
+							eval);
+						break;
+					case CCS_COMPARISON_BETTER:
+						break;
+					case CCS_COMPARISON_NOT_COMPARABLE:
+					default:
+						utarray_push_back(
+							d->optima,
+							eval);
+						break;
+					}
 				} else {
 					utarray_push_back(d->optima, eval);
 				}
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..0958882 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -193,7 +193,7 @@ _ccs_tree_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
-			ccs_retain_object(evaluations[i]);
+			CCS_VALIDATE(ccs_retain_object(evaluations[i]));
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
@@ -203,7 +203,8 @@ _ccs_tree_tuner_random_tell(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		d->optima = d->old_optima;                                     \
+		d->optima     = d->old_optima;                                 \
+		d->old_optima = tmp;                                           \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -214,26 +215,32 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (CCS_UNLIKELY(err < CCS_RESULT_SUCCESS)) {
+						d->optima     = d->old_optima;
+						d->old_optima = tmp;
+						utarray_pop_back(history);
+						ccs_release_object(
+							evaluations[i]);
+						CCS_ADD_STACK_ELEM();
+						return err;
+					}
+					switch (cmp) {
+					case CCS_COMPARISON_EQUIVALENT:
+					case CCS_COMPARISON_WORSE:
 						discard = 1;
-					else
-						switch (cmp) {
-						case CCS_COMPARISON_EQUIVALENT:
-						case CCS_COMPARISON_WORSE:
-							discard = 1;
-							utarray_push_back(
-								d->optima,
-								eval);
-							break;
-						case CCS_COMPARISON_BETTER:
-							break;
-						case CCS_COMPARISON_NOT_COMPARABLE:
-						default:
-							utarray_push_back(
-								d->optima,
-								eval);
-							break;
-						}
+						utarray_push_back(
+							d->optima,
+							eval);
+						break;
+					case CCS_COMPARISON_BETTER:
+						break;
+					case CCS_COMPARISON_NOT_COMPARABLE:
+					default:
+						utarray_push_back(
+							d->optima,
+							eval);
+						break;
+					}
 				} else {
 					utarray_push_back(d->optima, eval);
 				}
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..d64a199 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -192,7 +192,7 @@ _ccs_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
-			ccs_retain_object(evaluations[i]);
+			CCS_VALIDATE(ccs_retain_object(evaluations[i]));
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
@@ -202,7 +202,8 @@ _ccs_tuner_random_tell(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		d->optima = d->old_optima;                                     \
+		d->optima     = d->old_optima;                                 \
+		d->old_optima = tmp;                                           \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -213,26 +214,32 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (CCS_UNLIKELY(err < CCS_RESULT_SUCCESS)) {
+						d->optima     = d->old_optima;
+						d->old_optima = tmp;
+						utarray_pop_back(history);
+						ccs_release_object(
+							evaluations[i]);
+						CCS_ADD_STACK_ELEM();
+						return err;
+					}
+					switch (cmp) {
+					case CCS_COMPARISON_EQUIVALENT:
+					case CCS_COMPARISON_WORSE:
 						discard = 1;
-					else
-						switch (cmp) {
-						case CCS_COMPARISON_EQUIVALENT:
-						case CCS_COMPARISON_WORSE:
-							discard = 1;
-							utarray_push_back(
-								d->optima,
-								eval);
-							break;
-						case CCS_COMPARISON_BETTER:
-							break;
-						case CCS_COMPARISON_NOT_COMPARABLE:
-						default:
-							utarray_push_back(
-								d->optima,
-								eval);
-							break;
-						}
+						utarray_push_back(
+							d->optima,
+							eval);
+						break;
+					case CCS_COMPARISON_BETTER:
+						break;
+					case CCS_COMPARISON_NOT_COMPARABLE:
+					default:
+						utarray_push_back(
+							d->optima,
+							eval);
+						break;
+					}
 				} else {
 					utarray_push_back(d->optima, eval);
 				}
-- 
2.43.0


From 27e132481b4b1a158ae544e729dd11f4ffad3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:20 +0000
Subject: [PATCH 04/27] fix: contexts and bindings: refuse handles of another
 kind

---
 src/binding.c | 9 ++++++++-
 src/context.c | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/binding.c b/src/binding.c
index 6c2f705..1143020 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -3,7 +3,14 @@
 
 #define CCS_CHECK_BINDING(b)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(b) || !(b)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(b) || !(b)->data ||                                  \
+			((b)->obj.type != CCS_OBJECT_TYPE_CONFIGURATION &&     \
+			 (b)->obj.type != CCS_OBJECT_TYPE_EVALUATION &&        \
+			 (b)->obj.type != CCS_OBJECT_TYPE_FEATURES &&          \
+			 (b)->obj.type !=                                      \
+				 CCS_OBJECT_TYPE_FEATURES_EVALUATION &&        \
+			 (b)->obj.type != CCS_OBJECT_TYPE_TREE_EVALUATION)),   \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS binding '%s' == %p supplied", #b, b)
 
diff --git a/src/context.c b/src/context.c
index 4c8db37..a941973 100644
--- a/src/context.c
+++ b/src/context.c
@@ -3,7 +3,12 @@
 
 #define CCS_CHECK_CONTEXT(c)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(c) || !(c)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(c) || !(c)->data ||                                  \
+			((c)->obj.type !=                                      \
+				 CCS_OBJECT_TYPE_CONFIGURATION_SPACE &&        \
+			 (c)->obj.type != CCS_OBJECT_TYPE_FEATURES_SPACE &&    \
+			 (c)->obj.type != CCS_OBJECT_TYPE_OBJECTIVE_SPACE)),   \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS context '%s' == %p supplied", #c, c)
 
-- 
2.43.0


From 6ad92451214e2ebeccced36df01b082e1dbbf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:20 +0000
Subject: [PATCH 05/27] fix: features space checks: accept features spaces and
 refuse a null result pointer

---
 src/features_space.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..a479d5e 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -350,6 +350,7 @@ ccs_features_space_check_features(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_OBJ(features, CCS_OBJECT_TYPE_FEATURES);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		features->data->features_space != features_space,
 		CCS_RESULT_ERROR_INVALID_FEATURES);
@@ -366,8 +367,9 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From f8541afca94dea1f542fe5f4fc67ff6e15a7e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:20 +0000
Subject: [PATCH 06/27] fix: refuse null output pointers instead of
 dereferencing them

---
 src/cconfigspace.c        | 1 +
 src/configuration_space.c | 2 ++
 src/error_stack.c         | 2 ++
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/objective_space.c     | 1 +
 src/rng.c                 | 1 +
 src/tree_evaluation.c     | 1 +
 8 files changed, 10 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..9bb26d6 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -997,6 +997,7 @@ end:
 ccs_result_t
 ccs_get_result_name(ccs_result_t result, const char **name)
 {
+	CCS_CHECK_PTR(name);
 	switch (result) {
 		ETOCASE(CCS_RESULT_AGAIN);
 		ETOCASE(CCS_RESULT_SUCCESS);
diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..790ef10 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -967,6 +967,7 @@ ccs_configuration_space_check_configuration(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_CONFIGURATION);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		configuration->data->configuration_space != configuration_space,
 		CCS_RESULT_ERROR_INVALID_CONFIGURATION);
@@ -987,6 +988,7 @@ ccs_configuration_space_check_configuration_values(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	if (!configuration_space->data->graph_ok)
 		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(_check_configuration(
diff --git a/src/error_stack.c b/src/error_stack.c
index baded2d..1b5673d 100644
--- a/src/error_stack.c
+++ b/src/error_stack.c
@@ -123,6 +123,8 @@ ccs_create_error_stack(
 {
 	ccs_result_t err;
 	va_list      args;
+	if (CCS_UNLIKELY(!error_stack_ret))
+		return CCS_RESULT_ERROR_INVALID_VALUE;
 	va_start(args, msg);
 	err = _ccs_create_error_stack(error_stack_ret, error_code, msg, args);
 	va_end(args);
diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..897f74e 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -384,6 +384,7 @@ ccs_result_t
 ccs_evaluation_hash(ccs_evaluation_t evaluation, ccs_hash_t *hash_ret)
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_EVALUATION);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_evaluation_ops_t *ops = ccs_evaluation_get_ops(evaluation);
 	CCS_VALIDATE(ops->hash(evaluation->data, hash_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..fd04762 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -443,6 +443,7 @@ ccs_features_evaluation_hash(
 	ccs_hash_t               *hash_ret)
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_features_evaluation_ops_t *ops =
 		ccs_features_evaluation_get_ops(evaluation);
 	CCS_VALIDATE(ops->hash(evaluation->data, hash_ret));
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..20a964a 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -466,6 +466,7 @@ ccs_objective_space_check_evaluation_values(
 {
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_evaluation(
 		objective_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..d7bd740 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -389,6 +389,7 @@ ccs_result_t
 ccs_tree_evaluation_hash(ccs_tree_evaluation_t evaluation, ccs_hash_t *hash_ret)
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_TREE_EVALUATION);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_tree_evaluation_ops_t *ops =
 		ccs_tree_evaluation_get_ops(evaluation);
 	CCS_VALIDATE(ops->hash(evaluation->data, hash_ret));
-- 
2.43.0


From a2f2de1209732bac976aed91cc0d103c3f3d6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 07/27] fix: map keys query returns the keys

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From d5afd01300327e664e31a2b1ade515310be977cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 08/27] fix: categorical values query clears the unused tail

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..70a2eac 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From d08b7dd2e3e376e3ea5c53af94c330631dc77bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 09/27] fix: objective values queries refuse a capacity smaller
 than the count

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index 897f74e..472bdc7 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index fd04762..4393be7 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index d7bd740..b5babcb 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From 35700a8609e2ad7855d14405b2509ca4a2246c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 10/27] fix: tree configuration queries: clear the tail of
 positions, refuse a capacity without array

---
 src/tree_configuration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..9baa40d 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -180,6 +180,8 @@ ccs_tree_configuration_get_position(
 			position_size < size, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(position, configuration->data->position,
 		       size * sizeof(size_t));
+		for (size_t i = size; i < position_size; i++)
+			position[i] = 0;
 	}
 	if (position_size_ret)
 		*position_size_ret = size;
@@ -194,6 +196,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
-- 
2.43.0


From e0d76e3e32e1d204381db4ac493479137063cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 11/27] fix: set the table of generator types at initialization
 instead of racing for it in the reader

---
 src/cconfigspace.c    | 2 ++
 src/rng_deserialize.h | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 9bb26d6..d20498c 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -7,6 +7,7 @@
 #include <errno.h>
 #include <unistd.h>
 #include "version.h"
+#include "rng_deserialize.h"
 
 const ccs_datum_t   ccs_none     = CCS_NONE_VAL;
 const ccs_datum_t   ccs_inactive = CCS_INACTIVE_VAL;
@@ -20,6 +21,7 @@ ccs_result_t
 ccs_init()
 {
 	gsl_rng_env_setup();
+	_ccs_gsl_rng_types = gsl_rng_types_setup();
 	return CCS_RESULT_SUCCESS;
 }
 
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..90c35b5 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -3,6 +3,7 @@
 #include "cconfigspace_internal.h"
 #include "rng_internal.h"
 
+/* set once by ccs_init, read only afterwards */
 static const gsl_rng_type **_ccs_gsl_rng_types = NULL;
 
 static inline ccs_result_t
@@ -30,8 +31,8 @@ _ccs_deserialize_bin_rng(
 		&little_endian, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_blob(&b, buffer_size, buffer));
 
-	if (!_ccs_gsl_rng_types)
-		_ccs_gsl_rng_types = gsl_rng_types_setup();
+	/* the library must have been initialized */
+	CCS_REFUTE(!_ccs_gsl_rng_types, CCS_RESULT_ERROR_INVALID_VALUE);
 
 	const gsl_rng_type **t;
 
-- 
2.43.0


From fbed24a74b20a960dd56158b0cffd25b206978fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:02 +0000
Subject: [PATCH 12/27] fix: restore the rng of a deserialized static tree
 space

---
 src/tree_space_deserialize.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..771292f 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
-- 
2.43.0


From 87cc787530892dfe8ab41b9208f7814bab8bb3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 13/27] fix: read back the user state of a serialized dynamic
 tree space

---
 src/tree_space_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 771292f..2f3fc05 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -89,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From 0f23eb1e5ee0ef75cfdee3a93dcf00ceb51b6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:32 +0000
Subject: [PATCH 14/27] fix: deserialization of expressions and tuners releases
 what it acquired when it fails

---
 src/expression_deserialize.h     |  2 ++
 src/features_tuner_deserialize.h | 20 ++++++++++++--------
 src/tree_tuner_deserialize.h     |  4 ++--
 src/tuner_deserialize.h          |  4 ++--
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..cf2459c 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -40,6 +40,8 @@ _ccs_deserialize_bin_ccs_expression_data(
 		&data->type, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_nodes, buffer_size, buffer));
+	/* literals and variables have no nodes */
+	CCS_REFUTE(data->num_nodes && !opts, CCS_RESULT_ERROR_INVALID_VALUE);
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..cd64a1f 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -125,7 +125,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -145,8 +145,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -205,7 +207,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -239,8 +241,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
+	if (data.base_data.history)
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 end:
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
@@ -299,8 +303,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..7d230c5 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -279,8 +279,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..fb5d64b 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -278,8 +278,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
-- 
2.43.0


From c6ff7a612681130cb98b6a6f66f79eb12cec1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:32 +0000
Subject: [PATCH 15/27] fix: sampling and mixture creation free their buffers
 when they fail

---
 src/distribution_mixture.c  | 2 +-
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..b65031b 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -313,7 +313,7 @@ ccs_create_mixture_distribution(
 	distrib_data->weights[num_distributions] = 1.0;
 	CCS_REFUTE_ERR_GOTO(
 		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index 70a2eac..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..bb0ba07 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From aa36b49f352f57efe00e3c95b4631f5fa40d27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:32 +0000
Subject: [PATCH 16/27] fix: give the retained object back when adding or
 creating fails

---
 src/configuration.c       | 4 +++-
 src/configuration_space.c | 5 ++++-
 src/objective_space.c     | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..730f4b7 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errconfig_space);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errconfig_space:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
diff --git a/src/configuration_space.c b/src/configuration_space.c
index 790ef10..eb365c6 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1388,7 +1388,7 @@ ccs_configuration_space_get_conditions(
 #define utarray_oom()                                                          \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, end,              \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errexpr,          \
 			"Out of memory to allocate array");                    \
 	}
 ccs_result_t
@@ -1419,6 +1419,9 @@ ccs_configuration_space_add_forbidden_clause(
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
+	goto end;
+errexpr:
+	ccs_release_object(expression);
 end:
 	ccs_release_object(config);
 	return err;
diff --git a/src/objective_space.c b/src/objective_space.c
index 20a964a..b6555e6 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -488,6 +488,7 @@ ccs_objective_space_validate_value(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
+		ccs_release_object(objective.expression);                      \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
-- 
2.43.0


From fe46aa01a23b831ef4570eb04236628b953e9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:32 +0000
Subject: [PATCH 17/27] fix: non-blocking serialization to a descriptor frees
 its own buffer

---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index d20498c..3e899c9 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -394,7 +394,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -426,6 +426,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
-- 
2.43.0


From a49adf10fbfcec543fb39fe90e630347bca4f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:45 +0000
Subject: [PATCH 18/27] fix: set_distribution releases the distributions it
 prepared when memory runs out

---
 src/configuration_space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index eb365c6..9376647 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -640,7 +640,8 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY,
+			dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
-- 
2.43.0


From f0b774edfc4924017ea30ab99e92763582da0c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:24 +0000
Subject: [PATCH 19/27] fix: integer division and modulo of the smallest
 integer by -1 trap

---
 src/expression.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 028c660..c999ccb 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -881,6 +881,10 @@ _ccs_expr_divide_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
+			CCS_REFUTE(
+				right.value.i == -1 &&
+					left.value.i == INT64_MIN,
+				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
@@ -932,7 +936,11 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			/* INT64_MIN % -1 is 0 but traps */
+			*result = ccs_int(
+				right.value.i == -1 ?
+					0 :
+					left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From fb2e674b58b840349212f0ce01ae6a6f53ade675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:37 +0000
Subject: [PATCH 20/27] fix: mixture distributions of many dimensions overflow
 the temporary bounds

---
 src/distribution_mixture.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index b65031b..8d6c89d 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
-- 
2.43.0


From 4203daf21c5d0d4e44f07eab8e29f608c750dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:12 +0000
Subject: [PATCH 21/27] fix: reading a configuration space overflows the index
 array when a dimension is corrupt

---
 src/configuration_space_deserialize.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..2d6f459 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -88,6 +88,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, opts));
 	}
 
+	size_t  num_indices = 0;
 	size_t *indices;
 	indices = data->distrib_parameter_indices;
 	for (size_t i = 0; i < data->num_distributions; i++) {
@@ -96,6 +97,14 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
+		size_t dimension;
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > data->num_parameters - num_indices,
+			CCS_RESULT_ERROR_INVALID_VALUE);
+		num_indices += dimension;
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
-- 
2.43.0


From 9094384d2544be0689d5d3a44bb48ddf4745596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:29 +0000
Subject: [PATCH 22/27] fix: the size of serialized user data is trusted when
 it exceeds the input

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..8fd59ef 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1178,6 +1178,9 @@ _ccs_object_deserialize_user_data(
 		size_t serialize_data_size;
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			&serialize_data_size, buffer_size, buffer));
+		CCS_REFUTE(
+			*buffer_size < serialize_data_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 		if (serialize_data_size) {
 			if (opts->deserialize_callback)
 				CCS_VALIDATE(opts->deserialize_callback(
-- 
2.43.0


From 70746ae09e2357c08e76f0dec766714e4d354009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:20 +0000
Subject: [PATCH 23/27] fix: over-long variable length integers shift beyond
 their width

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 8fd59ef..2d78b65 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -501,6 +501,9 @@ ccs_zigzag_decode_int64(uint64_t x)
 			CCS_REFUTE(                                            \
 				buff_size < 1,                                 \
 				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);             \
+			CCS_REFUTE(                                            \
+				shift >= 8 * sizeof(MAPPED_TYPE),              \
+				CCS_RESULT_ERROR_INVALID_VALUE);               \
 			y = *buff;                                             \
 			v |= (y & 0x7f) << shift;                              \
 			buff_size -= 1;                                        \
-- 
2.43.0


From a7d2c57868e18bf3d3790f7b3051547e6698b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:17 +0000
Subject: [PATCH 24/27] fix: strings read back are not checked to be terminated

---
 src/cconfigspace_internal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 2d78b65..2a15435 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -781,6 +781,7 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(!sz || (*buffer)[sz - 1], CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = *buffer;
 	*buffer_size -= sz;
 	*buffer += sz;
-- 
2.43.0


From accb8b3ef14502c6ce6bbfabc0585657fdeaca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 25/27] fix: element counts read back are not compared with the
 remaining input

---
 src/configuration_space_deserialize.h | 12 ++++++++++++
 src/context_deserialize.h             |  3 +++
 src/distribution_deserialize.h        |  9 +++++++++
 src/expression_deserialize.h          |  3 +++
 src/features_tuner_deserialize.h      |  6 ++++++
 src/map_deserialize.h                 |  3 +++
 src/objective_space_deserialize.h     |  6 ++++++
 src/parameter_deserialize.h           |  3 +++
 src/tree_configuration_deserialize.h  |  3 +++
 src/tree_deserialize.h                |  3 +++
 src/tree_tuner_deserialize.h          |  6 ++++++
 src/tuner_deserialize.h               |  6 ++++++
 12 files changed, 63 insertions(+)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 2d6f459..3df7548 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -43,6 +43,18 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		&data->num_distributions, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_forbidden_clauses, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_parameters > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->num_conditions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->num_distributions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->num_forbidden_clauses > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
 		buffer, opts));
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..8e230fa 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -24,6 +24,9 @@ _ccs_deserialize_bin_ccs_context_data(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_parameters, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_parameters > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
 			data->num_parameters, sizeof(ccs_parameter_t));
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..777156f 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -132,6 +132,9 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_areas, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_areas > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
 	CCS_REFUTE(!data->areas, CCS_RESULT_ERROR_OUT_OF_MEMORY);
@@ -200,6 +203,9 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_distributions, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_distributions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
 	CCS_REFUTE(!data->distributions, CCS_RESULT_ERROR_OUT_OF_MEMORY);
@@ -273,6 +279,9 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_distributions, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_distributions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
 	CCS_REFUTE(!data->distributions, CCS_RESULT_ERROR_OUT_OF_MEMORY);
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index cf2459c..bbb29df 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -40,6 +40,9 @@ _ccs_deserialize_bin_ccs_expression_data(
 		&data->type, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_nodes, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_nodes > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	/* literals and variables have no nodes */
 	CCS_REFUTE(data->num_nodes && !opts, CCS_RESULT_ERROR_INVALID_VALUE);
 	if (data->num_nodes) {
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index cd64a1f..b21062f 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -56,6 +56,12 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		&data->size_history, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_optima, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_history > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->size_optima > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->size_history + data->size_optima))
 		return CCS_RESULT_SUCCESS;
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..eb3484e 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -23,6 +23,9 @@ _ccs_deserialize_bin_ccs_map_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_pairs, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_pairs > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
 	CCS_REFUTE(!data->pairs, CCS_RESULT_ERROR_OUT_OF_MEMORY);
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..045e245 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -29,6 +29,12 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 		&data->num_parameters, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_objectives, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_parameters > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->num_objectives > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->num_parameters + data->num_objectives))
 		return CCS_RESULT_SUCCESS;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..da6b008 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -50,6 +50,9 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_possible_values, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_possible_values > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
 	CCS_REFUTE(!data->possible_values, CCS_RESULT_ERROR_OUT_OF_MEMORY);
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..ed1fdd5 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -15,6 +15,9 @@ _ccs_deserialize_bin_tree_configuration_data(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->position_size, buffer_size, buffer));
+	CCS_REFUTE(
+		data->position_size > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	if (data->position_size) {
 		data->position =
 			(size_t *)malloc(data->position_size * sizeof(size_t));
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..d71863b 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -33,6 +33,9 @@ _ccs_deserialize_bin_ccs_tree_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+	CCS_REFUTE(
+		data->arity > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 7d230c5..7cd59e1 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -52,6 +52,12 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		&data->size_history, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_optima, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_history > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->size_optima > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->size_history + data->size_optima))
 		return CCS_RESULT_SUCCESS;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index fb5d64b..96ca392 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -51,6 +51,12 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		&data->size_history, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_optima, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_history > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		data->size_optima > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->size_history + data->size_optima))
 		return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 00366f798be3847eb8b496e90ddbb16600a7b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:59 +0000
Subject: [PATCH 26/27] fix: reading an object from a descriptor never ends at
 the end of the file

---
 src/cconfigspace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 3e899c9..e81c4ab 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -821,6 +821,8 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			/* end of file */
+			CCS_REFUTE(!count, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
@@ -907,6 +909,9 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		CCS_REFUTE_ERR_GOTO(
+			res, object_size < header_size,
+			CCS_RESULT_ERROR_INVALID_VALUE, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
-- 
2.43.0


From 1dcf53dfb581a0c72c908d4a7e57b47064768191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:09 +0000
Subject: [PATCH 27/27] fix: non-blocking deserialization uses its state after
 reallocating it

---
 src/cconfigspace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index e81c4ab..6783f9d 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -923,6 +923,9 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0

