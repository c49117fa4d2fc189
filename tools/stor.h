/* tables of integers ('i') and strings ('v') for the demonstrations */
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/row.h>
#include <lib/bit.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define SL 24

static void mkcol(struct column *c, char type, int i)
{
	memset(c, 0, sizeof(*c));
	snprintf(c->name, sizeof(c->name), "c%d", i);
	c->type = type == 'v' ? CT_VARCHAR : CT_INTEGER;
	c->precision = type == 'v' ? SL : 8;
}

static struct table *mk(const char *spec)
{
	struct table *t = table_init("T");
	for (int i = 0; spec[i]; i++) {
		struct column c;
		mkcol(&c, spec[i], i);
		if (!table_add_column(t, &c)) exit(9);
	}
	return t;
}

/* row whose column i holds base + i, or NULL when null(base, i) */
static struct row *mkrow(struct table *t, long base, int (*null)(long, int))
{
	static char buf[5000], str[200][SL];
	struct row *r = (struct row *)buf;
	size_t off = 0;
	memset(buf, 0, sizeof(buf));
	for (int i = 0; i < t->column_count; i++) {
		if (null && null(base, i))
			bit_set(r->null_bitmap, i, sizeof(r->null_bitmap));
		if (t->columns[i].type == CT_VARCHAR) {
			memset(str[i], 0, SL);
			snprintf(str[i], SL, "s%ld", base + i);
			*(char **)&r->data[off] = str[i];
		} else {
			*(long *)&r->data[off] = base + i;
		}
		off += table_calc_column_space(&t->columns[i]);
	}
	return r;
}

static void add(struct table *t, long base, int (*null)(long, int))
{
	if (!table_insert_row(t, mkrow(t, base, null), table_calc_row_size(t))) exit(8);
}

static struct row *nth(struct table *t, int n, struct datablock **b, size_t *at)
{
	struct list_head *pos;
	size_t rs = table_calc_row_size(t);
	list_for_each(pos, t->datablock_head) {
		struct datablock *e = list_entry(pos, typeof(*e), head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row *)&e->data[i * rs];
			if (!r->flags.empty && !r->flags.deleted && n-- == 0) {
				if (b) *b = e;
				if (at) *at = i * rs;
				return r;
			}
		}
	}
	return NULL;
}

static void del(struct table *t, int n)
{
	struct datablock *b;
	size_t at;
	if (!nth(t, n, &b, &at) || !table_delete_row(t, b, at)) exit(7);
}

/* is row n the one made from base? */
static int is(struct table *t, int n, long base, int (*null)(long, int))
{
	struct row *r = nth(t, n, NULL, NULL);
	size_t off = 0;
	if (!r) return 0;
	for (int i = 0; i < t->column_count; i++) {
		int id = atoi(t->columns[i].name + 1);
		char want[SL];
		int nl = null && null(base, id);
		if (!!bit_test(r->null_bitmap, i, sizeof(r->null_bitmap)) != !!nl) return 0;
		snprintf(want, SL, "s%ld", base + id);
		if (!nl && t->columns[i].type == CT_VARCHAR && strcmp(*(char **)&r->data[off], want)) return 0;
		if (!nl && t->columns[i].type == CT_INTEGER && *(long *)&r->data[off] != base + id) return 0;
		off += table_calc_column_space(&t->columns[i]);
	}
	return 1;
}
