INTERP = 'abstract interpretation of LLVM IR (partitioned value/typestate domain, loop fixpoint) against an SQL-meaning oracle'
SCAN_TRUST = ('Decides the statement for every row, table geometry and operand value of the abstract classes enumerated in the evidence; '
              'trusts the analyser itself, the LLVM front end, and libc models (strcmp, strptime/mktime, strncpy).')
SCANF = ['src/engine/executor_delete.c', 'src/engine/executor_update.c', 'src/engine/executor_select.c']

prop('P01', 'WHERE comparisons hold exactly when the SQL comparison is true',
     'In DELETE, UPDATE and SELECT, a WHERE comparison (=, <>, <, <=, >, >=) between two non-NULL operands is true for a row exactly when the relation holds '
     'between the left and the right operand as written, for every column type the operator accepts. It does not matter which side the column is on, whether both '
     'sides are columns (even the same one) or both are values, where in the row the columns lie, or how large the values are.',
     ['inputs', 'programs'], 'all comparison operators, column types, operand shapes, operand values and column positions, in all three statements',
     'The tests compare a few literals with a few columns; operators, types, operand sides and value ranges multiply to far more cases than they sample, and three statements carry three copies of the code.',
     SCANF, [('per-type comparison of a stored value with a literal or another column', 'src/engine/executor_{delete,update,select}.c cmp_*'),
             ('choice of the operand sides', 'eval_cmp / cmp_value_to_* in the same files')],
     observe=['rows removed / written / returned by a statement'], technique=INTERP, note=SCAN_TRUST)
prop('P02', 'A NULL operand makes a comparison false; IS NULL sees exactly the NULLs',
     'In DELETE, UPDATE and SELECT, a comparison or IN test with a NULL operand (a NULL column value or the NULL literal, on either side) never holds. '
     'IS NULL holds exactly for rows where the column is NULL and IS NOT NULL exactly for the others.',
     ['inputs', 'programs'], 'every operator, type, side and nullness of the operands, any column position',
     'Which operand is NULL combines with side, operator, type and statement; the tests touch a handful.',
     SCANF, [('null-bitmap test before a value is used', 'src/engine/executor_{delete,update,select}.c cmp_*'), ('IS [NOT] NULL evaluation', 'eval_isxnull in the same files')],
     state=[('null bitmap', 'bit i set when column i is NULL', 'include/primitive/row.h struct row')],
     observe=['rows removed / written / returned by a statement'], technique=INTERP, note=SCAN_TRUST)
prop('P03', 'AND/OR/XOR and IN/NOT IN conditions combine their parts by SQL truth',
     'In DELETE, UPDATE and SELECT, a WHERE condition built with AND, OR and XOR at any nesting is true for a row exactly when the truth table of the connectives says so for its parts. '
     'IN holds exactly when a non-NULL column equals at least one listed value and NOT IN exactly when it differs from all of them.',
     ['inputs', 'programs'], 'every nesting of connectives up to depth 2 (quick) or 3 (thorough), every list length up to 3 and every position of the match, all types',
     'Tests contain a few two-term conditions and lists; nesting, term order and where in a list the match sits are unbounded.',
     SCANF, [('recursive evaluation of the condition tree', 'eval_logop / eval_in in src/engine/executor_{delete,update,select}.c')],
     observe=['rows removed / written / returned by a statement'], technique=INTERP, note=SCAN_TRUST)
prop('P04', 'DELETE, UPDATE and SELECT visit every live row once and touch only matches',
     'A DELETE, UPDATE or filtered SELECT that succeeds has examined every row of every storage block of the table, however many blocks there are and whatever the row size. '
     'A live row that satisfies the condition is affected exactly once, no other row is changed or dropped, and the reported number of affected rows counts exactly the affected ones.',
     ['inputs', 'histories'], 'any number of blocks, any row size from one column to a full page, any pattern of live, deleted and unused slots',
     'Tests use one or two blocks and one row size; early stops and skipped slots depend on how the rows fill the blocks.',
     SCANF + ['src/primitive/table.c', 'src/primitive/row.c'], [('block and row loops', 'run_delete / run_update loops and the WHERE filter of executor_select.c'), ('marking a row deleted', 'src/primitive/table.c table_delete_row')],
     state=[('row flags', 'empty / deleted bytes of a slot', 'include/primitive/row.h')],
     observe=['number of affected rows', 'rows left in the table'], technique=INTERP + ' for enumerated row sizes and an unknown block list', note=SCAN_TRUST)
prop('P05', 'UPDATE stores each SET value in the named column and nowhere else',
     'After UPDATE, in every row it affects, each column named in SET holds the assigned value - or is NULL when NULL was assigned, and is no longer NULL when a value was - '
     'and every other column, including its NULL state, is unchanged.',
     ['inputs', 'programs'], 'every column type, value or NULL, previous NULL state, one or two assignments, any column positions',
     'Tests update one or two columns of fixed tables; which slot and which NULL bit is written depends on the table layout.',
     ['src/engine/executor_update.c', 'src/primitive/row.c', 'src/primitive/column.c'], [('assignment loop', 'src/engine/executor_update.c'), ('null-bit maintenance', 'bit_set / bit_clear calls there')],
     state=[('row data', 'column values back to back at a width fixed by the type', 'src/primitive/column.c')],
     observe=['rows returned after UPDATE'], technique=INTERP, note=SCAN_TRUST)

SCN = 'abstract interpretation of LLVM IR: provenance of unknown values through the heap, over enumerated table and statement shapes, against a reference model'
SCN_TRUST = ('Decides the statement for every stored and assigned value, over the enumerated shapes listed in the evidence (layouts, block fills, statement shapes); '
             'shapes outside the enumeration are not covered. Trusts the analyser, the LLVM front end and libc models.')
prop('P06', 'INSERT appends exactly the rows written',
     'An INSERT that succeeds leaves every existing live row unchanged and adds, after them and in the order written, one row per value list. Each column holds the value written for it '
     '(matched by the column list when there is one, by position otherwise), is NULL where NULL was written or the column was not listed, and the affected-row count is the number of rows added. '
     'This holds whatever the table layout and however full its blocks are.',
     ['inputs', 'histories'], 'all column types and positions (including NULL bits past the first byte), column-list orders, NULL patterns, block fills including exact boundaries, any values',
     'Tests insert a few rows into small tables; block boundaries, deleted slots, NULL bits of later columns and column-list permutations are never combined.',
     ['src/engine/executor_insert.c', 'src/primitive/row.c', 'src/primitive/table.c', 'src/primitive/datablock.c'],
     [('row assembly from literals', 'src/engine/executor_insert.c'), ('choice of block and slot, deep copy of VARCHAR', 'src/primitive/row.c table_insert_row')],
     state=[('row', 'flags, NULL bitmap, column values back to back', 'include/primitive/row.h struct row')],
     observe=['rows returned after INSERT', 'number of affected rows'], technique=SCN, note=SCN_TRUST)
SEL = 'src/engine/executor_select.c'
prop('P07', 'SELECT returns exactly the chosen columns of the matching rows',
     'A SELECT over one table returns one row for each live row that satisfies the WHERE condition and no other, with exactly the columns asked for (* meaning all), '
     'each named after its table and column, with the column\'s type and with the stored value, or NULL when that is stored. '
     'Strings in the result are copies that belong to the result. The table itself is unchanged.',
     ['inputs', 'histories'], 'table layouts from one column to dozens, selected columns in any order, aliases, NULL patterns, block fills, long names, any values',
     'Tests check a few small tables; a result goes through copying, filtering, column removal and compaction, each of which depends on layout and fill.',
     [SEL, 'src/engine/optimiser_select.c', 'src/primitive/column.c', 'src/primitive/vacuum.c', 'src/datastructure/hashtable.c'],
     [('working table built from the tables of FROM', SEL + ' build_cols_hashtable / proc_from_clause'), ('projection by removing columns', 'src/primitive/column.c table_rem_column'),
      ('compaction', 'src/primitive/vacuum.c'), ('name resolution', 'src/engine/optimiser_select.c')],
     state=[('results.table', 'the result: a table of its own', 'include/engine/query.h struct result_set')],
     observe=['columns and rows of the result'], technique=SCN, note=SCN_TRUST)
prop('P08', 'The result cursor visits every row once, in order, and then ends',
     'Stepping the cursor of a result stops at every row of the result exactly once and then reports the end, and goes on reporting it. On every row, reading an integer column gives the value '
     'stored in that column, wherever in the row it lies. This holds for any number of rows, blocks and columns.',
     ['inputs', 'histories'], 'results from no row to several full blocks, any row width including those that divide the page evenly, any column position',
     'Tests step over a handful of rows in one block; the end of a block depends on the row width.',
     ['src/engine/query.c', 'include/engine/query.h'], [('cursor', 'src/engine/query.c query_cur_step'), ('column access', 'src/engine/query.c query_column_int64')],
     state=[('cursor', 'block and byte offset of the current row', 'include/engine/query.h struct result_set')],
     observe=['return value of query_cur_step, value of query_column_int64'], technique=SCN, note=SCN_TRUST)
prop('P13', 'GROUP BY and COUNT(*) agree with the rows they summarise',
     'With GROUP BY, the result has one row for each distinct combination of the grouping columns among the selected rows (NULLs counting as one value), COUNT(*) is the number of rows in that group, and every '
     'selected column has a value of a row of the group. Without GROUP BY, COUNT(*) is one row holding the number of selected rows, 0 when there is none.',
     ['inputs', 'histories'], 'every way the values of up to four rows can coincide or be NULL, in either order, all types, one or two grouping columns, rows spread over blocks',
     'Tests group a few rows; which rows coincide, in what order and in which block is a matter of data.',
     [SEL], [('grouping', SEL + ' proc_groupby_clause / same_group'), ('counting', SEL + ' inc_count_cols / handle_countonly_case')],
     observe=['rows of the result'], technique=SCN, note=SCN_TRUST)
prop('P19', 'A query over two tables returns exactly the matching pairs of rows',
     'A SELECT over two tables, written as a JOIN with an ON equality or as a list of tables with a WHERE, returns one row for every pair of live rows that satisfies ON and WHERE and no other row, '
     'each value coming from the row and column it is named after. NULLs match nothing. Neither table changes.',
     ['inputs', 'histories'], 'every way the join columns of up to five rows can coincide or be NULL, all types, deleted rows, several blocks, empty tables, either order of the operands',
     'Tests join two small tables; which pairs match, deleted rows and blocks multiply.',
     [SEL, 'src/engine/optimiser_select.c'], [('nested-loop join', SEL + ' _join_nested_loop_tbl2tbl / merge_rows'), ('list of tables turned into a join', 'src/engine/optimiser_select.c wrap_on_join_node')],
     observe=['rows of the result'], technique=SCN, note=SCN_TRUST)

prop('P09', 'Compacting a table keeps its live rows and their order',
     'After table_vacuum, a table holds the live rows it held before, in the same order, with the same values and NULLs, and no deleted row stands among or before them. '
     'Rows added afterwards come behind them. The strings of removed rows and the blocks that are no longer needed are released, each once, and nothing else is.',
     ['inputs', 'histories'], 'every pattern of live and deleted rows over several blocks (all of them for wide rows), row sizes from one column to a full page including those that divide the page, further operations before and after',
     'Tests compact a few patterns of one row size; which row moves where depends on the pattern and on how rows fill a block.',
     ['src/primitive/vacuum.c', 'src/primitive/row.c', 'src/primitive/table.c'], [('two-finger compaction', 'src/primitive/vacuum.c table_vacuum'), ('release of the strings of a row', 'src/primitive/row.c table_free_row_content')],
     state=[('free_dtbkl_offset', 'where the next row goes in the last block', 'include/primitive/table.h')],
     observe=['rows, blocks and allocations after table_vacuum'], technique=SCN, note=SCN_TRUST)
prop('P22', 'Adding or removing a column keeps all other values',
     'After table_add_column or table_rem_column succeeds, every live row is still there, in order, with its values and NULLs in every column that remains, the list of columns is the old one with / without that column, '
     'rows added afterwards land behind the others, and the strings of a removed column are released exactly once.',
     ['inputs', 'histories'], 'tables of 1 to 128 columns, any position of the column (around the edges of the NULL bytes), empty, partly filled and several blocks, deleted rows, any values and NULLs',
     'Rows are re-laid in place and over blocks; the tests use one layout.',
     ['src/primitive/column.c', 'src/primitive/datablock.c'], [('moving rows to wider slots', 'src/primitive/column.c datablock_add_column'), ('closing the gap of a removed column', 'src/primitive/column.c datablock_rem_column')],
     state=[('row', 'flags, NULL bitmap, column values back to back', 'include/primitive/row.h struct row')],
     observe=['rows and columns of the table'], technique=SCN, note=SCN_TRUST)
prop('P23', 'Row primitives change one row and own its strings',
     'table_insert_row appends a copy of the row it is given, table_update_row replaces the values and NULLs of the row at the given place, table_delete_row removes it; no other row changes, whatever the order in which these are mixed with compaction, '
     'strings are kept in storage that belongs to the table, and table_destroy releases everything the table owns exactly once.',
     ['inputs', 'histories'], 'sequences of operations over enumerated layouts (1 to 128 columns, rows that divide the page), block fills and NULL patterns; any values',
     'Histories multiply: which slot, block and NULL byte is written depends on what came before.',
     ['src/primitive/row.c', 'src/primitive/table.c', 'src/primitive/datablock.c', 'src/lib/bit.c'], [('row primitives', 'src/primitive/row.c'), ('teardown', 'src/primitive/table.c table_destroy')],
     state=[('table', 'a list of blocks of equally sized slots', 'include/primitive/table.h')],
     observe=['rows of the table', 'allocations'], technique=SCN, note=SCN_TRUST)

STM = 'abstract interpretation of LLVM IR: whole statements from their text to the state they leave, with a followed heap and opaque values, over enumerated statements, against a reference model'
STM_TRUST = ('Decides the statement over the enumerated texts listed in the evidence, for all values stored in the tables they work on where those are unknown; '
             'no claim beyond the enumerated shapes. Trusts clang\'s IR, the model of libc in sa/scn.py and the generated scanner and parser tables.')
PARSE = ['src/parser/midorisql.l', 'src/parser/midorisql.y', 'src/parser/syntax.c']
prop('P10', 'CREATE TABLE makes the table that was declared',
     'After a CREATE TABLE that succeeds, the database has a table of that name with exactly the declared columns, in order, each with its declared type, length, nullability, uniqueness, key, index and auto-increment attribute, '
     'wherever in the statement keys and indexes are declared; it is empty and ready for use, and no other table changes. Repeated column names, a name already taken, keys over columns that are not declared and more columns than a table can have are refused '
     'and leave the database as it was; with IF NOT EXISTS an existing table is left alone.',
     ['inputs', 'histories'], 'every type, attribute and combination of attributes, keys and indexes at any position and over any columns, 1 to 129 columns, names up to the limit, next to other tables',
     'Tests declare a few tables; attributes, positions and counts combine.',
     ['src/parser/ast_create.c', 'src/parser/semantic_create.c', 'src/engine/executor_create.c', 'src/primitive/table.c', 'src/primitive/column.c'],
     [('definition to columns', 'src/engine/executor_create.c'), ('rules of a definition', 'src/parser/semantic_create.c'), ('definition tree', 'src/parser/ast_create.c')],
     state=[('db->tables', 'table per name', 'include/engine/database.h')], observe=['columns of the table', 'status of the statement'], technique=STM, note=STM_TRUST)
prop('P11', 'Statements that break a rule of the schema are refused and change nothing',
     'A statement that gives a column a value of another type, NULL where the column does not allow it, a string longer than the column, more or fewer values than columns, a second equal value in a UNIQUE column, or that names a table or column that does not exist, '
     'ends with an error, and every table holds exactly what it held before, also when only the last of several rows or assignments is wrong. Statements after it work as if it had not been there.',
     ['inputs', 'histories'], 'every type of column against every kind of literal, in every clause of INSERT, UPDATE, DELETE, SELECT and CREATE, at any position among valid parts',
     'Tests try a handful of wrong statements, on their own; the position of the fault and its kind combine.',
     ['src/parser/semantic_insert.c', 'src/parser/semantic_update.c', 'src/parser/semantic_delete.c', 'src/parser/semantic_select.c', 'src/parser/semantic_create.c', 'src/engine/query.c'],
     [('semantic phase', 'src/parser/semantic.c semantic_analyse')], observe=['status of the statement', 'content of the tables'], technique=STM, note=STM_TRUST)
prop('P12', 'The way a statement is written does not change what it does',
     'Upper and lower case of keywords, blanks, tabs, line ends and comments between tokens, backquotes around names, carriage returns, synonyms of operators (AND and &&, <> and !=) and types, single and double quotes, and superfluous parentheses do not change what a statement does.',
     ['inputs'], 'every respelling, alone and combined, on statements of every kind',
     'Tests write every statement in one way.', PARSE + ['src/parser/ast.c'], [('scanner', 'src/parser/midorisql.l'), ('grammar', 'src/parser/midorisql.y'), ('tokens to trees by regular expressions', 'src/parser/ast.c')],
     observe=['status, result and tables after a statement'], technique=STM, note=STM_TRUST)
prop('P14', 'A statement that runs out of storage fails as a whole',
     'When the system refuses an allocation during a statement, whichever it is, the statement either still has exactly its effect or ends with an error that leaves every table as it was. It does not end the process, nothing is lost, released twice or used after release, '
     'and the same statement works once there is storage.',
     ['fault_sequences', 'histories'], 'every allocation of statements of every kind, in parser, optimiser, executor and storage',
     'Tests never see an allocation fail; a statement makes hundreds.',
     ['src/engine/query.c', 'src/parser/syntax.c', 'src/engine/executor_select.c', 'src/engine/executor_insert.c', 'src/engine/executor_update.c', 'src/primitive/row.c', 'src/primitive/datablock.c', 'src/datastructure/vector.c', 'src/datastructure/hashtable.c', 'src/datastructure/queue.c', 'src/datastructure/stack.c'],
     [('error paths of every allocation', 'src/parser, src/engine, src/primitive, src/datastructure')], observe=['status of the statement', 'content of the tables', 'allocations'], technique=STM, note=STM_TRUST)
prop('P15', 'A refused statement says why',
     'The output of a statement that ends with an error has a message: terminated within its buffer, printable and not empty, whichever stage refuses the statement.',
     ['inputs'], 'refusals of the scanner, the parser, every semantic rule and the executor, names and texts of any length in them',
     'Tests do not look at messages.', PARSE + ['src/parser/semantic.c', 'src/engine/query.c'], [('message buffer handed down the stages', 'include/engine/query.h struct query_output')],
     observe=['query_output error message'], technique=STM, note=STM_TRUST)
prop('P17', 'A literal is exactly the value written, a name exactly that name',
     'An integer, decimal, boolean, string, date or datetime literal written in a statement is stored and compared with its full value: integers over the whole 64-bit range, doubles to the nearest double, strings with every character they contain, whatever they contain or resemble '
     '(numbers, keywords, separators), up to the length of the column. A table, column or alias name means exactly that one, whatever keyword or literal it resembles.',
     ['inputs'], 'literals at and around the limits of their types, strings over all characters and lengths, names that resemble other tokens',
     'Tests use short plain literals; statements pass through text twice (tokens and regular expressions).', PARSE + ['src/parser/ast.c', 'src/parser/ast_insert.c', 'src/lib/regex.c', 'src/lib/string.c'],
     [('tokens', 'src/parser/midorisql.l'), ('tokens to trees by regular expressions', 'src/parser/ast.c')], observe=['values stored and returned'], technique=STM, note=STM_TRUST)
prop('P20', 'INSERT stores the value of an arithmetic expression',
     'An expression of + - * / % and negation in the VALUES of an INSERT is stored as its value: integer arithmetic in 64 bits, decimals in double arithmetic, operators binding and grouping as usual, parentheses respected; '
     'division by zero and remainder by zero give NULL, which a NOT NULL column refuses.',
     ['inputs'], 'expressions of any operators, nesting and operands, in any column and row', 'Tests compute a few expressions of small numbers.',
     ['src/engine/optimiser_insert.c', 'src/parser/ast_insert.c', 'src/parser/semantic_insert.c', 'src/parser/midorisql.y'], [('evaluation of expressions', 'src/engine/optimiser_insert.c')], observe=['value stored'], technique=STM, note=STM_TRUST)
prop('P21', 'A statement releases all the storage it took',
     'When a statement has ended, carried out or refused at any stage, and its output has been given to query_free, every allocation it made is either part of the database or released, each exactly once, and none is used afterwards; closing the database releases what is part of it.',
     ['inputs', 'histories'], 'statements of every kind and shape, valid and refused in the scanner, parser, semantic phase or executor',
     'Tests do not look at the heap; every refusal leaves by its own path.', ['src/engine/query.c', 'src/parser/syntax.c', 'src/parser/ast.c', 'src/engine/executor_select.c', 'src/datastructure/hashtable.c', 'src/datastructure/vector.c', 'src/datastructure/queue.c', 'src/datastructure/stack.c'],
     [('trees and stacks of the parser', 'src/parser/ast_*.c'), ('results', 'src/engine/query.c query_free')], observe=['allocations after query_free'], technique=STM, note=STM_TRUST)
prop('P24', 'What the engine cannot carry out is refused',
     'A text that is not one complete statement, or a statement with a clause, function or expression the engine does not carry out, ends with an error: it is not carried out in part or in another sense, changes no table, and does not end the process.',
     ['inputs'], 'every clause, function and expression of the grammar beyond what the engine carries out, broken text of many kinds, in statements of every kind',
     'Tests use supported statements; the grammar accepts far more than the engine.', PARSE + ['src/parser/ast_select.c', 'src/parser/ast.c', 'src/parser/semantic_select.c', 'src/engine/executor_select.c', 'src/engine/query.c'],
     [('grammar wider than the engine', 'src/parser/midorisql.y'), ('refusals', 'src/parser/semantic_*.c')], observe=['status of the statement', 'content of the tables'], technique=STM, note=STM_TRUST)

prop('P16', 'Every lock taken is given back, and tables appear only under the lock',
     'When a statement has ended, carried out, refused at any stage or out of storage, no lock of the database or of a table is held any more; none is taken twice, released without being held, or destroyed while held. '
     'The set of tables of a database changes only while the lock of the database is held, and a statement that cannot take the lock fails and changes nothing. '
     'A table another thread creates while CREATE TABLE waits for the lock is never lost, replaced or doubled: the waiting statement is refused if it wants the same name, leaves the table alone with IF NOT EXISTS, and is carried out otherwise.',
     ['inputs', 'fault_sequences', 'schedules'], 'statements of every kind, every way out of them, each allocation or the lock itself refused',
     'Tests run one statement after another and never look at the lock: one left held shows only in the next statement that needs it, one not taken only when two threads meet.',
     ['src/engine/executor_create.c', 'src/engine/database.c', 'src/primitive/table.c', 'include/engine/database.h'], [('the lock around the creation of a table', 'src/engine/executor_create.c executor_run_create_stmt'), ('lock of a table', 'src/primitive/table.c')],
     state=[('mutex', 'held while the set of tables changes', 'include/engine/database.h struct database')], observe=['pthread_mutex_lock, _unlock, _init, _destroy calls along every statement'],
     technique='typestate of locks along the abstract interpretation of LLVM IR of whole statements; the catalogue of tables is compared at every lock operation', note=STM_TRUST)
prop('P18', 'Containers give back exactly what was put in, however they grew',
     'A queue returns copies of its elements oldest first, a stack newest first, a vector holds the bytes added in order, a hash table finds for each key its own value and nothing for any other key, a linked list keeps its order in both directions, and a bit field changes only the bit named. '
     'This holds whatever sequence of insertions and removals led there, however often the container grew and whichever keys share a bucket; when storage runs out the operation says so and the container is as before. Freeing one releases everything it holds exactly once.',
     ['inputs', 'histories', 'fault_sequences'], 'sequences of operations, sizes of elements, colliding keys, growth steps, every allocation refused',
     'Tests insert a handful of elements; growth, collisions, removal at each place and refused allocations combine.',
     ['src/datastructure/hashtable.c', 'src/datastructure/queue.c', 'src/datastructure/stack.c', 'src/datastructure/vector.c', 'src/datastructure/linkedlist.c', 'src/lib/bit.c'],
     [('growth and buckets', 'src/datastructure/hashtable.c'), ('growth', 'src/datastructure/vector.c vector_push')], observe=['results of the functions of include/datastructure/*.h and include/lib/bit.h', 'allocations'],
     technique='abstract interpretation of LLVM IR of the container functions over enumerated operation sequences with opaque values, against reference containers',
     note='Decides the statement for the enumerated sequences and all values stored; no claim for sequences of other shapes. Trusts clang\'s IR and the models of libc in sa/scn.py.')
prop('P25', 'Statements of several threads behave as if run one after another',
     'When several threads run statements on one database at the same time, every result and the final content are those of some order of the statements.', ['schedules'], 'all interleavings of statements of several threads',
     'Tests run in one thread.', ['src/engine/executor_create.c', 'src/engine/executor_select.c', 'src/engine/executor_insert.c', 'src/parser/syntax.c'], [('locking', 'include/engine/database.h')],
     na='Not provided by the code: only CREATE takes the lock of the database, the other statements take none, and the scanner and parser keep global state; the property does not hold and there is no lock discipline a static argument could decide. What there is of locking is P16.')
prop('P26', 'Queries over three and more tables return the rows of all of them',
     'A SELECT over three or more tables, by JOIN or by commas, returns one row per matching combination of rows.', ['inputs'], 'any number of tables and any join conditions',
     'Tests have one query over three tables.', ['src/engine/executor_select.c', 'src/engine/optimiser_select.c'], [('join of intermediate results', 'src/engine/executor_select.c')],
     na='The engine joins three tables wrongly by construction (columns of the second step are looked up in the wrong intermediate table); the repair is a redesign of the join tree, so there is no correct behaviour on this tree to protect. Two tables are P19.')
prop('P27', 'The B-tree holds exactly the keys inserted and not removed, in order',
     'After any sequence of insertions, updates and removals a B-tree of any degree finds exactly the keys inserted and not removed since, each with the value last given to it; its keys are in order, all its leaves are equally deep and each node holds the number of keys its degree allows. '
     'Removing or updating a key that is not there says so and changes nothing. When storage runs out the operation says so, or needs none, and the tree is as before; destroying the tree releases everything it holds exactly once.',
     ['inputs', 'histories', 'fault_sequences'], 'orders of insertion and removal, degrees, sizes, kinds of keys, every allocation refused',
     'Tests insert and remove a few fixed sequences; splitting, borrowing and merging at each place of a node combine.', ['src/datastructure/btree.c', 'include/datastructure/btree.h'],
     [('splitting', 'src/datastructure/btree.c btree_insert'), ('borrowing and merging', 'src/datastructure/btree.c btree_remove')], observe=['results of btree_insert, btree_lookup, btree_update, btree_remove', 'keys and shape of the tree', 'allocations'],
     technique='abstract interpretation of LLVM IR of the B-tree functions over enumerated operation sequences with opaque values, against a reference map',
     note='Decides the statement for the enumerated sequences and all values stored; no claim for sequences of other shapes. Trusts clang\'s IR and the models of libc in sa/scn.py.')
