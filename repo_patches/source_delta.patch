From e4e72861d2bf11858282374821875098f4401919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 01/53] fix: compare INTEGER values at their full 64-bit width

DELETE, UPDATE and SELECT conditions truncated both operands to int, so
values that differ only above bit 31 compared equal and the sign of the
order could flip.
---
 src/engine/executor_delete.c | 2 +-
 src/engine/executor_select.c | 2 +-
 src/engine/executor_update.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..bb631e8 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..8460e3b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..e0ed596 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From f6cdaa4b692f013bcb92bf70bceffe1d48ece63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 02/53] fix: evaluate value-to-column comparisons in the order
 written

'WHERE 2 < id' was evaluated as 'id < 2' because the operands were swapped
without swapping the operator.
---
 src/engine/executor_delete.c | 24 ++++++++++++++++++++++--
 src/engine/executor_select.c | 24 ++++++++++++++++++++++--
 src/engine/executor_update.c | 24 ++++++++++++++++++++++--
 3 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index bb631e8..1d8f4c9 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -264,11 +264,30 @@ static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exp
 
 }
 
+/* operator to use once the operands of a comparison are swapped */
+static enum ast_comparison_type swap_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	default:
+		/* symmetric */
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_del_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_del_cmp_node swapped = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -287,8 +306,9 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		swapped.cmp_type = swap_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &swapped, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 8460e3b..62b3a6a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -862,6 +862,24 @@ static bool cmp_value_to_fieldname(struct table *table, struct row *row, struct
 
 }
 
+/* operator to use once the operands of a comparison are swapped */
+static enum ast_comparison_type swap_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	default:
+		/* symmetric */
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_node *node)
 {
 	struct list_head *pos;
@@ -869,6 +887,7 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 	struct ast_node *node_1 = NULL, *node_2 = NULL;
 	struct ast_sel_exprval_node *val_1, *val_2;
 	struct ast_sel_fieldname_node *fld_1, *fld_2;
+	struct ast_sel_cmp_node swapped = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -891,8 +910,9 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 			/* field-to-value or value-to-field comparison */
 			return cmp_field_to_value(table, row, node, val_1, val_2);
 		} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-			/* value-to-field or value-to-field comparison */
-			return cmp_field_to_value(table, row, node, val_2, val_1);
+			/* value-to-field comparison */
+			swapped.cmp_type = swap_cmp_type(node->cmp_type);
+			return cmp_field_to_value(table, row, &swapped, val_2, val_1);
 		} else {
 			/* value-to-value comparison */
 			return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index e0ed596..2dfc352 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -243,11 +243,30 @@ static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exp
 
 }
 
+/* operator to use once the operands of a comparison are swapped */
+static enum ast_comparison_type swap_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	default:
+		/* symmetric */
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_upd_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_upd_cmp_node swapped = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -266,8 +285,9 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		swapped.cmp_type = swap_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &swapped, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From 486b91e126c77edf6ba555abd4cdd8dbd6df1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 03/53] fix: allow a column to be compared with itself

'WHERE id = id' left the second column unresolved and aborted the process.
---
 src/engine/executor_delete.c | 5 ++++-
 src/engine/executor_select.c | 5 ++++-
 src/engine/executor_update.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 1d8f4c9..3221543 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* both sides can name the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 62b3a6a..c55d419 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -543,7 +543,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* both sides can name the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 2dfc352..f126957 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* both sides can name the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From c2c8c7f16f0ca607de1b23729c042a70dccaed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:03 +0000
Subject: [PATCH 04/53] fix: IN needs one match and NOT IN needs every value to
 differ

SELECT required the column to equal every listed value, and DELETE/UPDATE
treated NOT IN as 'differs from some listed value', affecting every row for
lists of two or more values.
---
 src/engine/executor_delete.c |  7 ++++---
 src/engine/executor_select.c | 24 +++++++++++++-----------
 src/engine/executor_update.c |  7 ++++---
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 3221543..4a5f360 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -374,11 +374,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN needs one match, NOT IN needs every value to differ */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index c55d419..dd56b04 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -995,7 +995,8 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false;
+	bool match;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1033,18 +1034,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
-			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
-			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
-			}
+			if (is_field)
+				match = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
+			else
+				match = cmp_field_to_value(table, row, &cmp_node, value,
+							(struct ast_sel_exprval_node*)tmp_entry);
+
+			/* IN needs one match, NOT IN needs every value to differ */
+			if (match != node->is_negation)
+				return !node->is_negation; // fail-fast
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index f126957..651ce5a 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -353,11 +353,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN needs one match, NOT IN needs every value to differ */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 3b78ad3b4637d3e8620de206534c3858059b0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:03 +0000
Subject: [PATCH 05/53] fix: comparing a literal with NULL never holds

SELECT accepts 'WHERE 0 = NULL' and compared the literal with the unset
value of the NULL node, so it returned every row.
---
 src/engine/executor_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index dd56b04..52937d2 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -654,15 +654,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
-- 
2.43.0


From baed1c7d1045dbcddc457b1be38f3bbb725f76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:07 +0000
Subject: [PATCH 06/53] fix: step through every row of a result, whatever
 blocks it spans

---
 src/engine/query.c | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..7651286 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -107,42 +107,43 @@ err:
 
 int query_cur_step(struct result_set *res)
 {
+	struct list_head *head;
 	struct row *row;
 	size_t row_size;
 
 	/* sanity checks */
 	BUG_ON(!res || !res->table);
 
+	head = res->table->datablock_head;
 	row_size = table_calc_row_size(res->table);
 
 	/* is this the first time ? */
 	if (!res->cursor_blk) {
-
-		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
+		res->cursor_blk = container_of(head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
-	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
-		}
+	} else if (&res->cursor_blk->head != head) {
+		res->cursor_offset += row_size;
 	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+	while (&res->cursor_blk->head != head) {
+
+		if (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			/* at this point we shouldn't have any of this, so clearly something went really wrong here */
+			BUG_ON(row->flags.deleted);
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+			if (!row->flags.empty)
+				return MIDORIDB_ROW;
+		}
+
+		/* no more rows in this datablock, there may be more in the next one */
+		res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 
-	return MIDORIDB_ROW;
+	/* end of the line */
+	return MIDORIDB_OK;
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
-- 
2.43.0


From 3274eeda980287642a971720713268995bc59fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:08 +0000
Subject: [PATCH 07/53] fix: vacuum of a table without datablocks

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..4f82597 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing to be compacted */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From 7b699b029e34b52daebdc570e2c1e41d5e031ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:31 +0000
Subject: [PATCH 08/53] fix: keep NULL state with its column when a column is
 removed

---
 src/primitive/column.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..678b85c 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -192,6 +192,15 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				&row->data[data_offset + col_prec],
 				row_data_size - (data_offset + col_prec));
 
+			/* columns to the right shift one position, so does their NULL state */
+			for (int j = col_idx; j < table->column_count - 1; j++) {
+				if (bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+			bit_clear(row->null_bitmap, table->column_count - 1, sizeof(row->null_bitmap));
+
 			/* make rows sit right next to each other now that row has a smaller size */
 			memmove(&entry->data[blk_offset], row, row_new_size);
 			blk_offset += row_new_size;
-- 
2.43.0


From 35877c0d6e23716354d548306ea22daaee86d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:49 +0000
Subject: [PATCH 09/53] fix: COUNT(*) counts the rows of every datablock

---
 src/engine/executor_select.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 52937d2..6f25427 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1644,10 +1644,10 @@ static int handle_countonly_case(struct table *table)
 				if (row_1->flags.deleted)
 					continue; /* nothing to do here */
 
-				list_for_each(pos2, table->datablock_head)
-				{
+				/* everything that comes after row_1, including the datablocks that follow */
+				for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
 						row_2 = (struct row*)&blk_2->data[row_size * j];
 
 						if (row_2->flags.empty)
-- 
2.43.0


From 5aaa14c83e28129902ba6b1b01badbdca5344507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 10/53] fix: COUNT(*) is not NULL

---
 src/engine/executor_select.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 6f25427..157688b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -331,6 +331,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
-- 
2.43.0


From 86381611a872e43885e043529d3d25a26dfa1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:34 +0000
Subject: [PATCH 11/53] fix: GROUP BY collates rows equal in every listed
 column, across datablocks

---
 src/engine/executor_select.c | 80 ++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 157688b..e298af7 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1549,10 +1549,26 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+static bool same_group(struct ast_node *node, struct table *table, struct row *row_1, struct row *row_2)
 {
-	struct list_head *grppos, *pos1, *pos2;
+	struct list_head *pos;
 	struct ast_node *tmp_entry;
+
+	/* rows are collated only if they agree on every field of the group-by clause list */
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
+	}
+
+	return true;
+}
+
+static int proc_groupby_clause(struct ast_node *node, struct table *table)
+{
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
@@ -1560,48 +1576,42 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+			/* everything that comes after row_1, including the datablocks that follow */
+			for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
+				for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+					if (same_group(node, table, row_1, row_2)) {
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
+						if (!table_delete_row(table, blk_2, row_size * j)) {
+							ret = -MIDORIDB_INTERNAL;
+							goto out;
 						}
+
+						/* increment counts if any */
+						if ((ret = inc_count_cols(table, blk_1, row_size * i,
+										row_1,
+										row_size)))
+							goto out;
 					}
 				}
 			}
-- 
2.43.0


From c24a05c6bbd85bbe83ff1f8199b95bcc2c50b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:42 +0000
Subject: [PATCH 12/53] fix: group by values that differ by less than one or by
 more than an int

---
 src/engine/executor_select.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index e298af7..354babc 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1507,13 +1507,19 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset];
+		double val_2 = *(double*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset];
+		int64_t val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset];
+		time_t val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
-- 
2.43.0


From b382d4e3a643a799c751106a66d26a7a4a9c552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:59 +0000
Subject: [PATCH 13/53] fix: release the match stack of a failed regex once

---
 src/lib/regex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..b2db632 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -54,7 +54,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
+	/* the caller owns the stack and releases it on failure */
 	regfree(&regex);
 	free(matches);
 err:
-- 
2.43.0


From b35ee0e3305fa53e0b1924008f0597999a7c74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:21 +0000
Subject: [PATCH 14/53] fix: empty and double-quoted strings

---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..da2ffbd 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,7 +138,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..a7a496b 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,7 +134,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..76f0681 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,7 +41,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..64f7567 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,7 +189,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
-- 
2.43.0


From bd627ede6ab714f407d0dd3557cf606991e2bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 15/53] fix: string literals longer than the emit buffer

---
 src/parser/midorisql.y | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..73269d7 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -500,7 +500,7 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 		vfprintf(stderr, s, ap);  
 		fprintf(stderr, "\n");
 	}else {
-		sprintf(buf, s, ap);
+		vsnprintf(buf, sizeof(buf), s, ap);
 	
 		/* although unlikely, if we fail to push content to the queue
 		   so other program can read the error message, then we fail 
@@ -516,13 +516,25 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 
 bool emit(struct queue *q, char *s, ...)
 {
-	char buf[256];
+	char *buf;
+	int len;
+	bool ret;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+
+	/* literals can be of any length */
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (len < 0 || !(buf = zalloc(len + 1)))
+		return false;
+
+	va_start(ap, s);
+	vsnprintf(buf, len + 1, s, ap);
+	va_end(ap);
+
+	ret = queue_offer(q, buf, len + 1);
+	free(buf);
+
+	return ret;
 }
-- 
2.43.0


From 3558d064421ebaf94f887cc60d9496f6058992eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:07 +0000
Subject: [PATCH 16/53] fix: keep integer literals at their full 64-bit width

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.l  |  2 +-
 src/parser/midorisql.y  | 12 +++++++-----
 6 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index da2ffbd..e149193 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a7a496b..a154dae 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 76f0681..a3a99e4 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 64f7567..d9b5fc8 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..e50b9dc 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -82,7 +82,7 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { yylval->intnum = strtoll(yytext, NULL, 10); return INTNUM; } 
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 73269d7..328080f 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -15,6 +15,7 @@ int yylex(void*, void*);
 %code requires { 
 #include <compiler/common.h>
 #include <datastructure/queue.h>
+#include <inttypes.h>
 }
 
 /* 
@@ -31,6 +32,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t intnum;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +42,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <intnum> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -250,7 +252,7 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -317,7 +319,7 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -374,7 +376,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -413,7 +415,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
-- 
2.43.0


From 79e47c1b0a130835eb3064f3cf28bc3bd51587a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 17/53] fix: keep DOUBLE literals at their full precision

---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 src/parser/midorisql.y  | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index e149193..6816903 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -141,7 +141,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a154dae..c41522a 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -137,7 +137,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index a3a99e4..94e09da 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -44,7 +44,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index d9b5fc8..f578253 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -192,7 +192,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 328080f..d2a5bfa 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -253,7 +253,7 @@ expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -320,7 +320,7 @@ del_opt_where: /* nil */
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -377,7 +377,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -416,7 +416,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
-- 
2.43.0


From 5accda25498df2fe470b750582562423cd9b0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 18/53] fix: reject UPDATE values the column cannot hold

---
 src/parser/semantic_update.c | 65 ++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..ee13200 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -512,6 +512,67 @@ err:
 	return valid;
 }
 
+static bool check_assign_value(struct table *table, struct ast_upd_assign_node *assign_node, struct ast_node *value, char *out_err, size_t out_err_len)
+{
+	struct ast_upd_exprval_node *val_node = (typeof(val_node))value;
+	struct column *column = NULL;
+	size_t len;
+
+	for (int i = 0; i < table->column_count; i++) {
+		if (strcmp(table->columns[i].name, assign_node->field_name) == 0)
+			column = &table->columns[i];
+	}
+
+	BUG_ON(!column);
+
+	if (value->node_type != AST_TYPE_UPD_EXPRVAL || val_node->value_type.is_name) {
+		snprintf(out_err, out_err_len, "column: '%s' can only be set to a raw value\n", column->name);
+		return false;
+	}
+
+	if (val_node->value_type.is_null && !column->nullable) {
+		snprintf(out_err, out_err_len, "NOT NULL constraint failed: %s.%s\n", table->name, column->name);
+		return false;
+	}
+
+	if (val_node->value_type.is_str && column->type == CT_VARCHAR) {
+		len = strlen(val_node->str_val) + 1;
+		if (len > (size_t)column->precision) {
+			snprintf(out_err, out_err_len, "column: '%s' supports up to %d ASCII chars, value contains %lu\n",
+					column->name, column->precision, len);
+			return false;
+		}
+	}
+
+	return true;
+}
+
+static bool check_assignments(struct database *db, struct ast_upd_update_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *tmp_entry;
+	struct table *table;
+
+	table = database_table_get(db, root->table_name);
+
+	list_for_each(pos1, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos1, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		list_for_each(pos2, tmp_entry->node_children_head)
+		{
+			if (!check_assign_value(table, (struct ast_upd_assign_node*)tmp_entry,
+						list_entry(pos2, struct ast_node, head), out_err, out_err_len))
+				return false;
+		}
+	}
+
+	return true;
+}
+
 bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, char *out_err, size_t out_err_len)
 {
 	struct ast_upd_update_node *update_node;
@@ -542,5 +603,9 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!(check_value_types(db, update_node, out_err, out_err_len)))
 		return false;
 
+	/* can the columns hold the values assigned to them? */
+	if (!check_assignments(db, update_node, out_err, out_err_len))
+		return false;
+
 	return true;
 }
-- 
2.43.0


From 6be2f82440ac1b568b8b68ca8e6dc454afbe6d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 19/53] fix: integer arithmetic in INSERT at 64 bits, NULL from
 division and modulo by zero

---
 src/engine/optimiser_insert.c | 36 ++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..fd50a6a 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -9,8 +9,10 @@
 
 static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
 {
-	if (in->value_type.is_intnum) {
-		out->int_val = in->int_val * -1;
+	if (in->value_type.is_null) {
+		/* if the term _became_ NULL, then we bubble that up */
+	} else if (in->value_type.is_intnum) {
+		out->int_val = -(uint64_t)in->int_val;
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
 	} else {
@@ -49,7 +51,13 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if ((int)val_1->double_val == 0) {
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			result = (double)((int64_t)(int)val_2->double_val % (int)val_1->double_val);
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -60,7 +68,7 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
-	int result = 0;
+	int64_t result = 0;
 
 	if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
@@ -68,11 +76,11 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		out->value_type.is_null = true;
 		result = 0;
 	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
-		result = val_2->int_val + val_1->int_val;
+		result = (uint64_t)val_2->int_val + (uint64_t)val_1->int_val;
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
-		result = val_2->int_val - val_1->int_val;
+		result = (uint64_t)val_2->int_val - (uint64_t)val_1->int_val;
 	} else if (op->op_type == AST_INS_EXPR_OP_MUL) {
-		result = val_2->int_val * val_1->int_val;
+		result = (uint64_t)val_2->int_val * (uint64_t)val_1->int_val;
 	} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
 		if (val_1->int_val == 0) {
 			/*
@@ -83,10 +91,18 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_null = true;
 			result = 0;
 		} else {
-			result = val_2->int_val / val_1->int_val;
+			/* the one quotient that doesn't fit wraps around like the other operations do */
+			result = val_1->int_val == -1 ? (int64_t)-(uint64_t)val_2->int_val : val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
+		if (val_1->int_val == 0) {
+			/* same as the division */
+			out->value_type.is_intnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			result = val_1->int_val == -1 ? 0 : val_2->int_val % val_1->int_val;
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -144,6 +160,8 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 		calci(op, val_1, val_2, val_1);
 	} else if (val_1->value_type.is_approxnum) {
 		calcd(op, val_1, val_2, val_1);
+	} else if (val_1->value_type.is_null) {
+		/* the right-hand side _became_ NULL, and so does the result */
 	} else {
 		BUG_GENERIC();
 	}
-- 
2.43.0


From 2369242d802fdab096e2bfb82af3a5ddcfbc217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:56 +0000
Subject: [PATCH 20/53] fix: NOT NULL holds for INSERT expressions that resolve
 to NULL

---
 src/engine/executor_insert.c | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..0df7a1a 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -191,6 +191,40 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/* values that only became NULL once their expression was resolved haven't been checked yet */
+static int check_not_null_columns(struct table *table, struct ast_ins_insvals_node *ins_node, int *column_order,
+		struct query_output *output)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *entry;
+	struct ast_ins_exprval_node *exprval_entry;
+	struct column *column;
+	int val_pos;
+
+	list_for_each(pos1, ins_node->node_children_head)
+	{
+		entry = list_entry(pos1, typeof(*entry), head);
+
+		if (entry->node_type != AST_TYPE_INS_VALUES)
+			continue;
+
+		val_pos = 0;
+		list_for_each(pos2, entry->node_children_head)
+		{
+			exprval_entry = list_entry(pos2, typeof(*exprval_entry), head);
+			column = &table->columns[column_order[val_pos++]];
+
+			if (exprval_entry->value_type.is_null && !column->nullable) {
+				snprintf(output->error.message, sizeof(output->error.message) - 1,
+						"NOT NULL constraint failed: %s.%s\n", table->name, column->name);
+				return -MIDORIDB_ERROR;
+			}
+		}
+	}
+
+	return MIDORIDB_OK;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -213,6 +247,9 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	if ((rc = check_not_null_columns(table, ins_node, column_order, output)))
+		goto err;
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
-- 
2.43.0


From 90f177760bcf0273469f44f3e7e6c182bfd8cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 21/53] fix: INSERT that runs out of memory for the row reports
 failure

---
 src/engine/executor_insert.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 0df7a1a..84cf305 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -258,8 +258,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 			row = zalloc(table_calc_row_size(table));
 
-			if (!row)
+			if (!row) {
+				rc = -MIDORIDB_INTERNAL;
 				goto err_row_alloc;
+			}
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
-- 
2.43.0


From f101955fcf408e82f2e9558d0eed416fe139372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 22/53] fix: undo of a row whose VARCHAR could not be allocated

---
 src/primitive/row.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..4413829 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,7 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From eb3dff2c819c273eb31b03f27241c200643d24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 23/53] fix: COUNT(*) with GROUP BY keeps one row per group

---
 src/engine/executor_select.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 354babc..c6732d0 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1755,8 +1755,8 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
-	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	/* handle COUNT(*)-only field edge-case - groups keep their own counts */
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From 9740187f259ed60bc556ace660a0e5c09ae6fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 24/53] fix: COUNT(*) over no rows is one row holding 0

---
 src/engine/executor_select.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index c6732d0..4649448 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1648,6 +1648,7 @@ static int handle_countonly_case(struct table *table)
 
 	if (!non_count_field) {
 		row_size = table_calc_row_size(table);
+		bool found_row = false;
 
 		list_for_each(pos1, table->datablock_head)
 		{
@@ -1661,6 +1662,8 @@ static int handle_countonly_case(struct table *table)
 				if (row_1->flags.deleted)
 					continue; /* nothing to do here */
 
+				found_row = true;
+
 				/* everything that comes after row_1, including the datablocks that follow */
 				for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
@@ -1687,6 +1690,17 @@ static int handle_countonly_case(struct table *table)
 				}
 			}
 		}
+
+		/* there was nothing to count, which still is a result */
+		if (!found_row) {
+			if (!(row_1 = zalloc(row_size)))
+				return -MIDORIDB_INTERNAL;
+
+			if (!table_insert_row(table, row_1, row_size))
+				ret = -MIDORIDB_INTERNAL;
+
+			free(row_1);
+		}
 	}
 
 out:
-- 
2.43.0


From 3144f77992c8a8bfdbce3f3fb1fd5f8b2c716bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 25/53] fix: result columns keep names longer than one
 identifier

---
 include/primitive/column.h | 4 ++--
 src/primitive/column.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index a8959e3..9400ea6 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -28,8 +28,8 @@ enum COLUMN_TYPE {
 #define COLUMN_CTDATETIME_FMT		"%Y-%m-%d %H:%M:%S"
 
 struct column {
-	/* NUL-terminated string */
-	char name[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
+	/* NUL-terminated string - columns of query results are called table.column */
+	char name[2 * (TABLE_MAX_COLUMN_NAME + 1 /*NUL char */)];
 	/* type of value meant to be stored */
 	enum COLUMN_TYPE type;
 	/* how much space it takes up in memory */
diff --git a/src/primitive/column.c b/src/primitive/column.c
index 678b85c..618243d 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -229,7 +229,7 @@ bool table_rem_column(struct table *table, struct column *column)
 		return false;
 
 	for (pos = 0; pos < table->column_count; pos++) {
-		if (strncmp(table->columns[pos].name, column->name, TABLE_MAX_COLUMN_NAME) == 0) {
+		if (strcmp(table->columns[pos].name, column->name) == 0) {
 			found = true;
 			break;
 		}
-- 
2.43.0


From dfcc2b8376889fd527be499d9e049b03725506b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 26/53] fix: a failed allocation while rewriting the FROM list
 frees the nodes that exist

---
 src/engine/optimiser_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..3af1698 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -448,18 +448,18 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
 	/*ast_node is recursive so it will take care of cmp_node */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
+err_onexpr:
 	/*ast_node is recursive so it will take care of exprval */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
-- 
2.43.0


From d7e1c4d5c21f7322f1b973f4dad9d16d18591a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:28 +0000
Subject: [PATCH 27/53] fix: a joined row that cannot be completed releases the
 strings copied so far

---
 src/engine/executor_select.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 4649448..20a1314 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -425,6 +425,7 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From 8cc59f5656be4bf6a754ea221e33f5bb2568ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:33 +0000
Subject: [PATCH 28/53] fix: SELECT compares DATE and DATETIME columns with the
 dates a literal spells

---
 src/parser/semantic_select.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..102095d 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2132,6 +2132,17 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* a string literal compared with a DATE | DATETIME value stands for the date it spells */
+static bool is_date_literal(struct ast_node *node, enum COLUMN_TYPE type)
+{
+	struct ast_sel_exprval_node *val_node = (typeof(val_node))node;
+
+	return (type == CT_DATE || type == CT_DATETIME)
+			&& node->node_type == AST_TYPE_SEL_EXPRVAL
+			&& val_node->value_type.is_str
+			&& try_parse_date_type(val_node->str_val, type);
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2140,6 +2151,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_entry = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2151,6 +2163,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 
 		if (i == 0) {
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
+			left_entry = tmp_entry;
 		} else {
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
@@ -2168,6 +2181,11 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	if (is_date_literal(tmp_entry, left.type))
+		right = left;
+	else if (is_date_literal(left_entry, right.type))
+		left = right;
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
-- 
2.43.0


From c60110c2fcd1f2828a5d2589274994f3206fd557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:16 +0000
Subject: [PATCH 29/53] fix: SELECT accepts IS NULL next to AND, OR, XOR and
 refuses two wrong comparisons

---
 src/parser/semantic_select.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 102095d..18d85d3 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2194,7 +2194,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		}
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid || memcmp(&left, &right, sizeof(left))) {
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2228,7 +2228,7 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid || memcmp(&left, &right, sizeof(left))) {
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2261,7 +2261,7 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid || memcmp(&left, &right, sizeof(left))) {
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
@@ -2421,6 +2421,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL) {
+		ret.type = CT_TINYINT; // IS NULL and IS NOT NULL resolve into a Boolean value
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From 73563f7e378675f03c79b25969c333f0e2e909b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 30/53] fix: DELETE and UPDATE refuse conditions they cannot
 evaluate instead of ending the process

---
 src/parser/semantic_delete.c | 41 +++++++++++++++++++++++++++++++++++
 src/parser/semantic_update.c | 42 ++++++++++++++++++++++++++++++++++++
 2 files changed, 83 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..4dcdc32 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -476,6 +476,43 @@ err:
 	return valid;
 }
 
+/* a condition is made of comparisons of fields and values, IN, IS NULL and AND, OR, XOR of those */
+static bool check_condition(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool is_val, is_first = true;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		is_val = tmp_entry->node_type == AST_TYPE_DEL_EXPRVAL;
+
+		if (root->node_type == AST_TYPE_DEL_CMP && !is_val) {
+			snprintf(out_err, out_err_len, "only fields and values can be compared\n");
+			return false;
+		}
+
+		if ((root->node_type == AST_TYPE_DEL_DELETEONE || root->node_type == AST_TYPE_DEL_LOGOP) && is_val) {
+			snprintf(out_err, out_err_len, "expressions in where clause must be a type of comparison\n");
+			return false;
+		}
+
+		if (root->node_type == AST_TYPE_DEL_EXPRISXIN && is_first
+				&& !((struct ast_del_exprval_node*)tmp_entry)->value_type.is_name) {
+			snprintf(out_err, out_err_len, "field expected before IN\n");
+			return false;
+		}
+
+		if (!is_val && !check_condition(tmp_entry, out_err, out_err_len))
+			return false;
+
+		is_first = false;
+	}
+
+	return true;
+}
+
 bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, char *out_err, size_t out_err_len)
 {
 	struct ast_del_deleteone_node *deleteone_node;
@@ -494,6 +531,10 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_isxin_entries((struct ast_node*)deleteone_node, out_err, out_err_len))
 		return false;
 
+	/* can the condition be evaluated? */
+	if (!check_condition((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/*
 	 * check "IS NULL" and "IS NOT NULL" have fields.
 	 * Syntax-wise, "NULL IS NULL" and "NULL IS NOT NULL" is valid
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index ee13200..06e3ce7 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -573,6 +573,44 @@ static bool check_assignments(struct database *db, struct ast_upd_update_node *r
 	return true;
 }
 
+/* a condition is made of comparisons of fields and values, IN, IS NULL and AND, OR, XOR of those */
+static bool check_condition(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool is_val, is_first = true;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		is_val = tmp_entry->node_type == AST_TYPE_UPD_EXPRVAL;
+
+		if (root->node_type == AST_TYPE_UPD_CMP && !is_val) {
+			snprintf(out_err, out_err_len, "only fields and values can be compared\n");
+			return false;
+		}
+
+		if ((root->node_type == AST_TYPE_UPD_UPDATE || root->node_type == AST_TYPE_UPD_LOGOP) && is_val) {
+			snprintf(out_err, out_err_len, "expressions in where clause must be a type of comparison\n");
+			return false;
+		}
+
+		if (root->node_type == AST_TYPE_UPD_EXPRISXIN && is_first
+				&& !((struct ast_upd_exprval_node*)tmp_entry)->value_type.is_name) {
+			snprintf(out_err, out_err_len, "field expected before IN\n");
+			return false;
+		}
+
+		if (!is_val && tmp_entry->node_type != AST_TYPE_UPD_ASSIGN
+				&& !check_condition(tmp_entry, out_err, out_err_len))
+			return false;
+
+		is_first = false;
+	}
+
+	return true;
+}
+
 bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, char *out_err, size_t out_err_len)
 {
 	struct ast_upd_update_node *update_node;
@@ -591,6 +629,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
 
+	/* can the condition be evaluated? */
+	if (!check_condition((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/*
 	 * check "IS NULL" and "IS NOT NULL" have fields.
 	 * Syntax-wise, "NULL IS NULL" and "NULL IS NOT NULL" is valid
-- 
2.43.0


From 2f3b224a1a9b0f12c5901b6ecb5809d9329893b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:53 +0000
Subject: [PATCH 31/53] fix: SELECT takes NULL in an IN list and refuses values
 where IN and IS NULL need a field

---
 src/parser/semantic_select.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 18d85d3..a2eb4d1 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2108,8 +2108,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len,
+						"only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
@@ -2316,7 +2317,10 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 				ht_value = hashtable_get(ht, key, strlen(key) + 1);
 			}
 
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "field expected before IN\n");
+				goto err;
+			}
 			expected_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
 			// sanity check
@@ -2359,7 +2363,7 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) {
 				/* maybe new column type? */
 				BUG_GENERIC();
 			}
-- 
2.43.0


From fc0da20906c91f67afb584e52820931425eb1061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 32/53] fix: keys and indexes declared before their columns, or
 together, take effect

---
 src/engine/executor_create.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..53f7398 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -23,7 +23,9 @@ static void add_index(struct ast_crt_index_def_node *idx_def_node, struct table
 			col = &table->columns[i];
 
 			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {
-				col->indexed = idx_def_node->is_index;
+				/* a column can be part of both an index and the primary key */
+				if (idx_def_node->is_index)
+					col->indexed = true;
 
 				/*
 				 * When primary key is defined after the column definition,
@@ -91,11 +93,18 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_add_col;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
-			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
+	/* indexes and primary keys may come before the columns they refer to */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF)
+			add_index((struct ast_crt_index_def_node*)entry, table);
+	}
+
 	rc = database_table_add(db, table);
 
 early_ret:
-- 
2.43.0


From 87d2cd156fbb52d5f937c9f89627b3638d9d659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:54 +0000
Subject: [PATCH 33/53] fix: unknown characters and unterminated text make a
 statement invalid

---
 src/parser/midorisql.l | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index e50b9dc..3fbbd3f 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -100,8 +100,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -147,7 +147,7 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
@@ -157,10 +157,10 @@ COUNT    { int c = input(yyscanner); unput(c);
 "/*"            { oldstate = YY_START; BEGIN COMMENT; }
 <COMMENT>"*/"   { BEGIN oldstate; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
-- 
2.43.0


From 80a96b76ad44e1394b1357fb8f121889f9668c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:54 +0000
Subject: [PATCH 34/53] fix: an error found while parsing ends the parse

---
 src/parser/midorisql.y | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index d2a5bfa..9898e4d 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -202,7 +202,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) yyerror(result, scanner, "duplicate DISTINCT option"); $$ = $1 | 02; }
+   | select_opts DISTINCT            { if($1 & 02) { yyerror(result, scanner, "duplicate DISTINCT option"); YYABORT; } $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -403,10 +403,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); YYABORT; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); YYABORT; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -443,7 +443,7 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
+   | IF EXISTS           { if(!$2) { yyerror(result, scanner, "IF EXISTS doesn't exist"); YYABORT; }
                         $$ = $2; /* NOT EXISTS hack */ }
    ;
 
-- 
2.43.0


From 04091cd37ccbb985321162dbc6dd1e0aa01982ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:01 +0000
Subject: [PATCH 35/53] fix: a clause the parser knows and the engine does not
 is refused without ending the process

---
 src/parser/ast_create.c | 2 +-
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..103aaa1 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -347,7 +347,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 6816903..bd92c58 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index c41522a..367f0e8 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 94e09da..8318af2 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index f578253..c2e6055 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
-- 
2.43.0


From e6a4fa767fa8243c8edbdc09715d6a8c95751dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 36/53] fix: the message of a syntax error is the error, not
 the first token

---
 src/engine/query.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 7651286..1e3a8b3 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -53,9 +53,12 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
 		/* copy error from the tail of the queue */
-		char *err_msg = (char*)queue_peek(&queue);
 		size_t err_msg_len = sizeof(output->error.message) - 1;
-		strncpy(output->error.message, err_msg, err_msg_len);
+
+		if (!queue_empty(&queue)) {
+			char *err_msg = (char*)queue_peek_pos(&queue, queue_length(&queue) - 1);
+			strncpy(output->error.message, err_msg, err_msg_len);
+		}
 
 		goto err_syntax_parser;
 	}
-- 
2.43.0


From e63397d4f511e47c7ea61c45fab9598398d5392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:30 +0000
Subject: [PATCH 37/53] fix: a second statement in a query is refused rather
 than dropped

---
 src/engine/query.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/engine/query.c b/src/engine/query.c
index 1e3a8b3..13be09e 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -71,6 +71,13 @@ struct query_output* query_execute(struct database *db, char *query)
 		goto err_build_ast;
 	}
 
+	/* only its "STMT" mark may be left; a second statement would be dropped silently */
+	if (queue_length(&queue) != 1) {
+		snprintf(output->error.message, sizeof(output->error.message) - 1,
+				"only one statement can be executed at a time\n");
+		goto err_multiple_stmts;
+	}
+
 	/* semantic analysis */
 	if (!semantic_analyse(db, node, output->error.message, sizeof(output->error.message) - 1)) {
 		goto err_semantic_analysis;
@@ -98,6 +105,7 @@ struct query_output* query_execute(struct database *db, char *query)
 err_execution_phase:
 err_optimisation_phase:
 err_semantic_analysis:
+err_multiple_stmts:
 	ast_free(node);
 err_build_ast:
 err_syntax_parser:
-- 
2.43.0


From b16bceac757e13c5537ce92d8be91477921045c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:02 +0000
Subject: [PATCH 38/53] fix: SELECT refuses what it cannot execute instead of
 ending the process

---
 src/engine/executor_select.c | 50 ++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 20a1314..a00fa57 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1709,13 +1709,63 @@ out:
 
 }
 
+/*
+ * the parser accepts more than what can be executed. Tell the part of the statement - if any -
+ * that nothing below knows how to execute so that the statement can be refused.
+ */
+static const char* find_unsupported(struct ast_node *root)
+{
+	struct list_head *pos;
+	struct ast_node *entry;
+	const char *ret;
+
+	switch (root->node_type) {
+	case AST_TYPE_SEL_JOIN:
+		if (((struct ast_sel_join_node*)root)->join_type != AST_SEL_JOIN_INNER)
+			return "OUTER JOIN";
+		break;
+	case AST_TYPE_SEL_EXPROP:
+		return "arithmetic";
+	default:
+		break;
+	}
+
+	list_for_each(pos, root->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (root->node_type == AST_TYPE_SEL_SELECT && entry->node_type == AST_TYPE_SEL_EXPRVAL
+				&& !((struct ast_sel_exprval_node*)entry)->value_type.is_name)
+			return "selecting a value";
+
+		if (root->node_type == AST_TYPE_SEL_ALIAS && entry->node_type != AST_TYPE_SEL_TABLE)
+			return "naming a result column";
+
+		if (root->node_type == AST_TYPE_SEL_CMP && entry->node_type != AST_TYPE_SEL_EXPRVAL
+				&& entry->node_type != AST_TYPE_SEL_FIELDNAME)
+			return "comparing the outcome of an expression";
+
+		if ((ret = find_unsupported(entry)))
+			return ret;
+	}
+
+	return NULL;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
 	struct table *table = NULL;
 	struct ast_node *where_node, *groupby_node;
+	const char *unsupported;
 	int ret = MIDORIDB_OK;
 
+	if ((unsupported = find_unsupported((struct ast_node*)select_node))) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"execution phase: %s is not supported yet\n", unsupported);
+		return -MIDORIDB_ERROR;
+	}
+
 	if (!hashtable_init(&cols_ht, &hashtable_str_compare, &hashtable_str_hash)) {
 		snprintf(output->error.message, sizeof(output->error.message), "execution phase: internal error\n");
 		ret = -MIDORIDB_INTERNAL;
-- 
2.43.0


From af6ac88a499c305200570d9291b5becf5baa3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:47 +0000
Subject: [PATCH 39/53] fix: refusals for unknown columns, operand types and
 group-by fields carry a message

---
 src/parser/semantic_delete.c |  5 +++--
 src/parser/semantic_select.c | 29 +++++++++++++++++++++++------
 src/parser/semantic_update.c | 11 ++++++++---
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 4dcdc32..ee2b6e8 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -64,8 +64,9 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 	if (node->node_type == AST_TYPE_DEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
-		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+		if (val_node->value_type.is_name && !column_exists(db, root, val_node)) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+			return false;
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index a2eb4d1..3e2afa2 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1589,7 +1589,10 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 	}
 	else if (root->node_type == AST_TYPE_SEL_EXPRVAL
 			|| root->node_type == AST_TYPE_SEL_FIELDNAME) {
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "select clause has a field that is not in the group-by clause\n");
+			return false;
+		}
 	}
 	else if (root->node_type == AST_TYPE_SEL_ALIAS) {
 		alias_node = (typeof(alias_node))root;
@@ -1607,7 +1610,10 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 				return true;
 		}
 
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "select clause has a field that is not in the group-by clause\n");
+			return false;
+		}
 	}
 	/* recursion */
 	else {
@@ -1710,8 +1716,10 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len, "COUNT function next to a field requires a group-by clause\n");
 			return false;
+		}
 
 	}
 
@@ -2195,7 +2203,10 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		}
 	}
 
-	if (left.invalid || right.invalid || memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2229,7 +2240,10 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
-	if (left.invalid || right.invalid || memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2262,7 +2276,10 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
-	if (left.invalid || right.invalid || memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 06e3ce7..6facaf1 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -64,13 +64,18 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 	if (node->node_type == AST_TYPE_UPD_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
-		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+		if (val_node->value_type.is_name
+				&& !column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+			return false;
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
-- 
2.43.0


From b73f2bebec83275b4e37871f40228d188a78ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:25 +0000
Subject: [PATCH 40/53] fix: a column whose name reads like an exponent can
 follow its table

".e5" was taken for a number without digits, so SELECT t.e5 was a syntax error.
---
 src/parser/midorisql.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 3fbbd3f..4e8f6d0 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -88,7 +88,7 @@ XOR	{ return XOR; }
 -?"."[0-9]+	|
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
--?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
+-?"."[0-9]+E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
                                   return APPROXNUM; }
     /* booleans */
 TRUE	{ yylval->intval = 1; return BOOL; }
-- 
2.43.0


From 49c476f664cfadaaab2a353cb1f130906ae7c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:45 +0000
Subject: [PATCH 41/53] fix: a syntax error after the name of a table frees the
 name once

The name was freed in the middle of the rule and then again by the parser
when it discarded the symbol.
---
 src/parser/midorisql.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 9898e4d..c538b67 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -220,7 +220,7 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: NAME { emit(result, "TABLE %s", $1); } opt_as_alias { free($1); }
 	    ;
 
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-- 
2.43.0


From fd5d8f80addc802a102e1f0fac439385036033b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:37 +0000
Subject: [PATCH 42/53] fix: a CREATE TABLE that fails half way releases the
 table

---
 src/engine/executor_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index 53f7398..f632b85 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -105,7 +105,8 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 			add_index((struct ast_crt_index_def_node*)entry, table);
 	}
 
-	rc = database_table_add(db, table);
+	if ((rc = database_table_add(db, table)))
+		goto err_add_col;
 
 early_ret:
 	output->n_rows_aff = 0;
@@ -114,8 +115,7 @@ early_ret:
 	return rc;
 
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
 err:
-- 
2.43.0


From 71eab6efd4a8d8607ac772877dd1b31ea5eee8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:37 +0000
Subject: [PATCH 43/53] fix: an assignment that is none releases the name of
 its column

---
 src/parser/midorisql.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index c538b67..3aa56d3 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -403,10 +403,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); YYABORT; }
+       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); free($1); YYABORT; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); YYABORT; }
+       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); free($3); YYABORT; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
-- 
2.43.0


From 52d6dffadf1e37ed4d97a4009278779e29ff07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:04 +0000
Subject: [PATCH 44/53] fix: a vector that cannot grow keeps its content

---
 src/datastructure/vector.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..2c3834c 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	char *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,13 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		if (!new_data)
 			return false;
 
+		vec->data = new_data;
+		memzero(vec->data + vec->len, new_cap - vec->len);
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From ccc2b2200dd503b7dd56f158e0e3a8acef5a9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 45/53] fix: a joined row that cannot be stored is released

---
 src/engine/executor_select.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index a00fa57..fbdcb5d 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1155,7 +1155,7 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, new_row_size))
-							goto err;
+							goto err_row;
 
 //						print_row(mattbl, new_row);
 
@@ -1170,6 +1170,9 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_row:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
@@ -1231,7 +1234,7 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 
 						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
 									new_row_size))
-							goto err;
+							goto err_row;
 
 //						print_row(mattbl, new_row);
 
@@ -1253,6 +1256,9 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_row:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
-- 
2.43.0


From cc82dd766f93ee366f14a6796c09039c2b20cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 46/53] fix: a statement that could not be read completely is
 refused

---
 src/parser/midorisql.y | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 3aa56d3..d2f3819 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -10,6 +10,9 @@
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 int yylex(void*, void*);
+
+/* whether something could not be emitted; the statement is incomplete then */
+static _Thread_local bool emit_failed;
 %}
 
 %code requires { 
@@ -145,10 +148,15 @@ int yylex(void*, void*);
 
 %destructor { free($$); } <strval>
 
+%initial-action { emit_failed = false; }
+
 %%
 
-stmt_list: stmt ';'
-  | stmt_list stmt ';'
+stmt_list: stmt_end
+  | stmt_list stmt_end
+  ;
+
+stmt_end: stmt ';' { if (emit_failed) { yyerror(result, scanner, "out of memory"); YYABORT; } }
   ;
 
    /* statements: select statement */
@@ -528,14 +536,17 @@ bool emit(struct queue *q, char *s, ...)
 	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	if (len < 0 || !(buf = zalloc(len + 1)))
+	if (len < 0 || !(buf = zalloc(len + 1))) {
+		emit_failed = true;
 		return false;
+	}
 
 	va_start(ap, s);
 	vsnprintf(buf, len + 1, s, ap);
 	va_end(ap);
 
 	ret = queue_offer(q, buf, len + 1);
+	emit_failed |= !ret;
 	free(buf);
 
 	return ret;
-- 
2.43.0


From f80bc79e47009e8f2614232dfabe8d33d0cebd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 47/53] fix: a column definition that cannot be built releases
 its text

---
 src/parser/ast_create.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 103aaa1..d2701fa 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -108,8 +108,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
-- 
2.43.0


From c3ed959ed3e46cf75df5546d0cb86869a477aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:43 +0000
Subject: [PATCH 48/53] fix: a name or string there is no memory for makes a
 statement invalid

A NULL name reached printf, and for a quoted name was written through.
---
 src/parser/midorisql.l | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 4e8f6d0..abaa649 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -5,6 +5,10 @@
 void yyerror(void*, void*, char *s, ...);
 int oldstate;
 
+/* a token that carries text, which there may be no memory for */
+#define TEXT(str, token) \
+	((yylval->strval = (str)) ? (token) : (yyerror(NULL, yyscanner, "out of memory"), YYUNDEF))
+
 #define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
 %}
 
@@ -98,19 +102,19 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { return TEXT(strdup(yytext), STRING); }
 
 '(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 \"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
-0X[0-9A-F]+  { yylval->strval = strdup(yytext); return STRING; }
+0X[0-9A-F]+  { return TEXT(strdup(yytext), STRING); }
 
    /* bit strings */
 
 0B[01]+      |
-B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
+B'[01]+'     { return TEXT(strdup(yytext), STRING); }
 
 
    /* operators */
@@ -138,14 +142,10 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
          */
 COUNT    { int c = input(yyscanner); unput(c);
            if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
-           return NAME; }
-
-[A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
-                          return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
-                          yylval->strval[yyleng-2] = 0;
-                          return NAME; }
+           return TEXT(strdup(yytext), NAME); }
+
+[A-Za-z][A-Za-z0-9_]*	{ return TEXT(strdup(yytext), NAME); }
+`[^`/\\.\n]+`           { return TEXT(strndup(yytext + 1, yyleng - 2), NAME); }
 
 `[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
-- 
2.43.0


From ae53e35962434ecec93f79de66d741df4a709cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:10 +0000
Subject: [PATCH 49/53] fix: a VARCHAR length that cannot be represented is
 refused

---
 src/parser/midorisql.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index d2f3819..d37baf0 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -489,7 +489,10 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')'
+       { /* the length shares an int with the type, see parse_bison_data_type() */
+         if ($3 < 1 || $3 > 9999) { yyerror(result, scanner, "invalid length for VARCHAR"); YYABORT; }
+         $$ = 130000 + $3; }
    ;
 
 
-- 
2.43.0


From bd4d390440dd738672ddec7c50cd1723cee64371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:16 +0000
Subject: [PATCH 50/53] fix: carriage returns and form feeds are white space

---
 src/parser/midorisql.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index abaa649..660a4ae 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -44,7 +44,7 @@ DOUBLE	{ return DOUBLE; }
 ELSE	{ return ELSE; }
 END	{ return END; }
 EXISTS	{ yylval->subtok = 0; return EXISTS; }
-NOT[ \t\n]+EXISTS	{ yylval->subtok = 1; return EXISTS; }
+NOT[ \t\r\n]+EXISTS	{ yylval->subtok = 1; return EXISTS; }
 EXPLAIN	{ return EXPLAIN; }
 FROM	{ return FROM; }
 GROUP	{ return GROUP; }
@@ -160,7 +160,7 @@ COUNT    { int c = input(yyscanner); unput(c);
 <COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
 	/* everything else */
-[ \t\n]         /* white space */
+[ \t\r\n\f\v]   /* white space */
 .               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
-- 
2.43.0


From b2a43607d58bcbec7cc7e6330733ed132a686478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:25 +0000
Subject: [PATCH 51/53] fix: a pattern there is no memory for does not end the
 process

---
 src/lib/regex.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index b2db632..5922c09 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -15,12 +15,15 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 	char *match;
 	int num_matches;
 
-	BUG_ON(regcomp(&regex, exp, REG_EXTENDED));
+	/* there may be no memory for it */
+	if (regcomp(&regex, exp, REG_EXTENDED))
+		goto err;
+
 	num_matches = regex.re_nsub + 1;
 
 	matches = calloc(num_matches, sizeof(*matches));
 	if (!matches)
-		goto err;
+		goto err_matches;
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -55,8 +58,9 @@ err_stack:
 	free(match);
 err_regex:
 	/* the caller owns the stack and releases it on failure */
-	regfree(&regex);
 	free(matches);
+err_matches:
+	regfree(&regex);
 err:
 	return false;
 
-- 
2.43.0


From 5c17486adc3ec744fcaa614457071e72fc5a208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:27 +0000
Subject: [PATCH 52/53] fix: a B-tree does not find the key that was removed
 last from a node

---
 src/datastructure/btree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..c60092e 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,8 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	/* what lies behind the last key was removed */
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From a6539d10ed2ae728745cddafff4aa34fbefc7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:51 +0000
Subject: [PATCH 53/53] fix: removing a key from a B-tree needs no memory

Merging two nodes moved the children of the right one by making copies
of them; when a copy could not be made the tree was left damaged. The
children are handed over instead.
---
 src/datastructure/btree.c | 48 +++++----------------------------------
 1 file changed, 6 insertions(+), 42 deletions(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index c60092e..7b07474 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -147,40 +147,6 @@ err_node:
 	return NULL;
 }
 
-static int __must_check btree_node_copy(struct btree_head *head, struct btree_node *dst, struct btree_node *src)
-{
-
-	int max_degree = btree_max_degree(head) + 1 /* sentinel node */;
-
-	dst->is_leaf = src->is_leaf;
-	dst->key_count = src->key_count;
-
-	if (!(dst->keys = calloc(max_degree, sizeof(struct btree_node_tuple))))
-		goto err;
-
-	memcpy(dst->keys, src->keys, max_degree * sizeof(struct btree_node_tuple));
-
-	if (!(dst->children = calloc(max_degree, sizeof(struct btree_node))))
-		goto err_children;
-
-	if (!src->is_leaf) {
-		for (int i = 0; i <= src->key_count; i++) {
-			if (btree_node_copy(head, &dst->children[i], &src->children[i]) != 0)
-				goto err_recur;
-		}
-	}
-
-	return 0;
-
-err_recur:
-	free(dst->children);
-err_children:
-	free(dst->keys);
-err:
-	printf("error while allocating mem");
-	return -MIDORIDB_NOMEM;
-}
-
 static int __must_check btree_split_child(struct btree_head *head, struct btree_node *x, int i)
 {
 	struct btree_node *y;
@@ -374,20 +340,18 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 		memzero(&sibling->keys[i], sizeof(struct btree_node_tuple));
 	}
 
-	// Copying the child pointers from C[idx+1] to C[idx]
+	// Moving the children of C[idx+1] to C[idx]
 	if (!child->is_leaf) {
-		for (int i = 0; i <= sibling->key_count; ++i) {
-			if ((ret = btree_node_copy(head, &child->children[i + head->min_degree], &sibling->children[i]))
-					!= 0)
-				return ret;
-		}
+		for (int i = 0; i <= sibling->key_count; ++i)
+			child->children[i + head->min_degree] = sibling->children[i];
 	}
 
 	// Updating the key count of child and the current node
 	child->key_count += sibling->key_count + 1;
 
-	// Freeing the memory occupied by sibling
-	__btree_destroy(head, sibling);
+	// Freeing the memory occupied by sibling, its children live on in C[idx]
+	free(sibling->keys);
+	free(sibling->children);
 
 	// Moving all keys after idx in the current node one step before -
 	// to fill the gap created by moving keys[idx] to C[idx]
-- 
2.43.0

