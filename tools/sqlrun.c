/* runs the statements given as arguments, one after the other, and prints what each returned */
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <lib/bit.h>
#include <stdio.h>
#include <string.h>

int main(int argc, char **argv)
{
	struct database db = {0};
	int bad = 0;

	if (database_open(&db)) {
		puts("open failed");
		return 2;
	}
	for (int i = 1; i < argc; i++) {
		char *q = strdup(argv[i]);
		struct query_output *o = query_execute(&db, q);
		if (!o) {
			printf("no output\n");
			free(q);
			continue;
		}
		if (o->status == ST_ERROR) {
			o->error.message[strcspn(o->error.message, "\n")] = 0;
			printf("error %s\n", o->error.message);
			bad++;
		} else if (o->status == ST_OK_EXECUTED) {
			printf("ok %zu\n", o->n_rows_aff);
		} else {
			struct table *t = o->results.table;
			size_t rows = 0;
			for (int c = 0; c < t->column_count; c++)
				printf("%s%s", c ? "|" : "", t->columns[c].name);
			printf("\n");
			while (query_cur_step(&o->results) == MIDORIDB_ROW) {
				struct row *r = (struct row *)&o->results.cursor_blk->data[o->results.cursor_offset];
				size_t off = 0;
				rows++;
				for (int c = 0; c < t->column_count; c++) {
					char *p = &r->data[off];
					if (c)
						printf("|");
					if (bit_test(r->null_bitmap, c, sizeof(r->null_bitmap)))
						printf("NULL");
					else if (t->columns[c].type == CT_VARCHAR)
						printf("'%s'", *(char **)p);
					else if (t->columns[c].type == CT_DOUBLE)
						printf("%g", *(double *)p);
					else if (t->columns[c].type == CT_TINYINT)
						printf("%d", *(char *)p);
					else
						printf("%lld", (long long)*(int64_t *)p);
					off += table_calc_column_space(&t->columns[c]);
				}
				printf("\n");
			}
			printf("rows %zu\n", rows);
		}
		query_free(o);
		free(q);
	}
	database_close(&db);
	return bad ? 1 : 0;
}
