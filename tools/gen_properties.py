#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="pkg/ddl/{postgres,cockroachdb,mysql,spanner}"
ALL=lambda f:[f"pkg/ddl/{d}/{f}" for d in ("postgres","cockroachdb","mysql","spanner")]

p("C01","Parsing any text terminates with a schema or an error, never a crash",
  "For every dialect and every input text, parsing DDL finishes and returns either a schema or an error. It never panics, never reads out of bounds and never loops without consuming input, and a schema it returns can always be printed and compared with itself without crashing.",
  ["inputs"],"every byte string, and every sequence of tokens of the dialect's vocabulary placed after any prefix of a statement",
  "The tests parse a few dozen hand-written statements and a few error cases; the space of malformed statements (unterminated quotes, truncated constraints, a keyword where a name is expected) is unbounded and a crash needs one specific token in one specific parser state.",
  ALL("lexar.go")+ALL("parser.go"),
  [("lexer cursor and end-of-input handling",D+"/lexar.go readChar, readQuotedLiteral, peekChar"),("current/peek token checks with error returns",D+"/parser.go checkCurrentToken, checkPeekToken, parse*")],
  observe=["NewParser(NewLexer(text)).Parse()","(*DDL).String()","Diff(x, x)"])
p("C02","Tokenising loses and invents nothing",
  "For every dialect and every input text, the sequence of tokens covers the text: concatenating the token texts in order gives back the input with only white space and comments removed, quoted text is kept byte for byte as one token, and the stream ends only at the end of the input. A word is recognised as the same keyword in any letter case.",
  ["inputs"],"every byte string",
  "The lexer tests compare a handful of complete statements; adjacency of operators, quotes, comments and names, and every letter-case variant of every keyword, are not sampled.",
  ALL("lexar.go"),
  [("single-character dispatch",D+"/lexar.go NextToken"),("identifier and quoted scanning",D+"/lexar.go readIdentifier, readQuotedLiteral"),("keyword table",D+"/lexar.go lookupIdent")],
  observe=["NewLexer(text).NextToken()"])
p("C03","The parsed schema is exactly the declared schema",
  "For every supported CREATE TABLE / CREATE INDEX text, the parsed schema contains exactly the declared tables, columns, data types with their arguments, defaults, nullability, constraints and indexes, each attached to the right table and column, in the declared order, with names as written. Inline column constraints (primary key, unique, references, check) become the equivalent table constraints, with the documented default names when none is given; nothing declared is dropped or attached elsewhere. A text that is not understood is refused: no name or literal of an accepted text is left out of the schema.",
  ["inputs"],"every schema of the supported grammar: any names, any combination and order of column attributes and constraints",
  "The parser tests pin whole-statement golden values for a few fixtures; combinations of attribute order, default shape, constraint kind, naming and position are combinatorial, and names range over all identifiers.",
  ALL("parser.go")+ALL("ddl_table.go"),
  [("column parsing",D+"/parser.go parseColumn, parseDataType, parseColumnDefault, parseColumnConstraints"),("table constraint parsing",D+"/parser.go parseTableConstraint"),("constraint list with name-based merge",D+"/ddl_table.go Constraints.Append")],
  observe=["fields of the returned DDL","(*DDL).String()"])
p("C04","Printing a parsed schema and parsing it again preserves it",
  "For every text that parses, the printed form of the schema parses again, denotes the same schema (the differ reports no difference in either direction), and printing it a second time gives the identical text.",
  ["inputs"],"every parseable schema text of the supported grammar",
  "Tests compare printed text to goldens for some statements, never re-parse generated output systematically; printing and parsing are separate hand-written functions per node type that must agree on every combination.",
  ALL("ddl_table_create.go")+ALL("ddl_table.go")+ALL("ddl_index_create.go")+ALL("ddl.go")+ALL("parser.go"),
  [("per-node printers",D+"/ddl*.go String"),("parser",D+"/parser.go")],
  observe=["Parse(text).String()","Parse(Parse(text).String())"])
p("C05","Equal schemas never produce a difference",
  "Two texts that declare the same schema - differing only in white space, comments, keyword letter case, quoting of names, IF NOT EXISTS, aliases of data types (INT and INTEGER, VARCHAR and CHARACTER VARYING, DECIMAL and NUMERIC and the like), or an explicitly written default constraint name - are always reported as having no difference; in particular every schema compared with itself has no difference.",
  ["inputs"],"every schema of the supported grammar and every pair of renderings of it",
  "Golden tests compare particular before/after pairs; equality must survive every re-rendering of every construct, a product space of formatting and schema shape.",
  ALL("diff.go")+ALL("diff_create_table.go")+ALL("ddl_table.go"),
  [("normalising comparison forms",D+"/ddl*.go StringForDiff"),("differ",D+"/diff.go Diff, "+D+"/diff_create_table.go")],
  observe=["Diff(a, b) error is ErrNoDifference"])
p("C06","Applying the emitted migration turns the first schema into the second",
  "For every pair of supported schemas, executing the emitted migration statements one by one on the first schema yields exactly the second schema: same tables, columns, types, defaults, nullability, options, constraints and indexes. Whenever the schemas differ a migration is emitted; if the differ says there is no difference the two schemas are the same.",
  ["inputs"],"every pair (before, after) of schemas of the supported grammar within the edit distance bound",
  "The diff tests hold golden texts for single edits of one fixture; convergence has to hold for every combination of edits (rename by drop/add, type plus default plus nullability together, constraint and column changed together).",
  ALL("diff.go")+ALL("diff_create_table.go")+ALL("ddl_table_alter.go"),
  [("statement-level matching",D+"/diff.go Diff, onlyLeftStmt, findStmtByTypeAndName"),("column and constraint diff",D+"/diff_create_table.go"),("ALTER printers",D+"/ddl_table_alter.go")],
  observe=["text of Diff(before, after)"])
p("C07","Migrations never touch or destroy what the two schemas share",
  "For every pair of supported schemas, the emitted migration never drops a table, column, constraint or index that both schemas declare identically, never mentions a table whose declaration and indexes are unchanged, and never drops or recreates a table or column that exists in both (its data would be lost). A changed column is altered in place and only in the attributes that changed. The one exception is a Spanner table whose primary key or interleaving changes: Spanner cannot alter those, and ddlctl drops and creates that table and its indexes again.",
  ["inputs"],"every pair of schemas of the supported grammar within the edit distance bound",
  "Tests check the expected statements for chosen edits; absence of collateral statements must hold for all pairs, including names that are prefixes of or equal to names in other tables.",
  ALL("diff.go")+ALL("diff_create_table.go"),
  [("name-based matching of tables, columns, constraints",D+"/diff_create_table.go findColumnByName, findConstraintByName; "+D+"/diff.go findStmtByTypeAndName")],
  observe=["text of Diff(before, after)"])
p("C08","Every emitted migration statement is executable at its point in the sequence",
  "For every pair of supported schemas that are each valid, running the emitted statements in order from the first schema never refers to a table, column, constraint or index that does not exist at that point and never creates one that already exists: indexes and constraints come after the columns they use, objects are dropped before those they depend on, tables are created after those they refer to whatever the order of the declarations, a foreign key exists only while its referenced columns are a primary key or unique, and each statement has the dialect's syntax for its object.",
  ["inputs"],"every pair of valid schemas of the supported grammar within the edit distance bound",
  "Golden diff tests never execute the statements against a database, and most change one thing at a time; ordering only matters when several changes interact.",
  ALL("diff.go")+ALL("diff_create_table.go")+ALL("ddl_index_drop.go")+ALL("ddl_table_alter.go"),
  [("emission order: drops, creates, alters",D+"/diff.go Diff"),("constraint drop / column / constraint add order",D+"/diff_create_table.go DiffCreateTable")],
  observe=["text of Diff(before, after)"])
p("C09","Diff against an empty schema creates or drops exactly everything",
  "For every supported schema, the difference from an empty schema is exactly that schema's own statements in their declared order (a table that is declared before one it refers to comes after it), and the difference to an empty schema drops every table and index of it and nothing else. An absent schema and a schema without statements behave the same, and two empty schemas have no difference.",
  ["inputs"],"every schema of the supported grammar with any mix of tables and indexes, either side empty or absent",
  "Tests cover one create and one drop example; the guarantee is over every mix and order of statements.",
  ALL("diff.go"),
  [("nil cases and one-sided matching",D+"/diff.go Diff"),("table level nil cases",D+"/diff_create_table.go DiffCreateTable")],
  observe=["Diff(empty, s)","Diff(s, empty)"])
p("C10","Comparing schemas is pure and repeatable",
  "Computing a difference never modifies either input schema: printing them afterwards gives the same text as before, and computing the same difference again, from the same or freshly parsed inputs, gives the identical migration text. Printing a schema likewise never changes what later printing or comparing returns.",
  ["inputs","histories"],"every pair of schemas of the supported grammar and every sequence of print and diff calls on them",
  "Each test calls Diff once on fresh inputs and never looks at the inputs again; aliasing between emitted statements and inputs shows only over a history of calls.",
  ALL("diff.go")+ALL("diff_create_table.go")+ALL("ddl_table.go"),
  [("emitted statements share nodes with the inputs",D+"/diff_create_table.go"),("list helpers that sort or append in place",D+"/ddl_table.go Constraints.Append; pkg/ddl/mysql/ddl.go and ddl_table_create.go options")],
  observe=["String() of both inputs before and after Diff"])
p("C11","Nothing is executed without explicit approval",
  "The apply command sends no statement to the database unless the auto-approve option is set or the operator's first input line is exactly the word yes. Any other line, and end of input, cancels with an error and leaves the database untouched; when there is no difference nothing is executed and the command succeeds.",
  ["inputs","configurations"],"every operator input, with and without auto-approve, every dialect",
  "The tests feed one or two inputs; the gate must reject every other byte sequence, including near misses (spaces, case, prefixes, empty, missing newline).",
  ["pkg/ddlctl/apply/ddlctl_apply.go"],
  [("approval prompt","pkg/ddlctl/apply/ddlctl_apply.go prompt, Command")],
  observe=["statements reaching the database driver","exit error of the apply command"])
p("C12","Apply executes exactly the displayed migration, in order",
  "For every dialect, the statements sent to the database are exactly the statements of the migration text in their order: each one complete, comments aside, with none lost, truncated, merged, duplicated or altered, also when a literal contains a comment marker, a semicolon or a line break. For Spanner all of them run inside one DDL batch that is started before the first and run after the last.",
  ["inputs"],"every migration text the differ can emit, any identifiers, literals and comments",
  "Apply is tested against a database only in skipped integration tests and with a single statement; how text is cut into statements depends on every byte of it.",
  ["pkg/ddlctl/apply/ddlctl_apply.go","pkg/internal/util/split_statements.go"],
  [("comment removal and statement splitting","pkg/internal/util/split_statements.go SplitStatements; pkg/ddlctl/apply/ddlctl_apply.go splitExec, Apply")],
  observe=["query texts seen by the database driver"])
p("C13","Apply never reports success when the database refused a statement",
  "Under every schedule of database failures - opening, connecting, starting a batch, any statement, running the batch, closing - the apply operation returns an error if any migration statement was not executed successfully in the end, and success only if all were. It always terminates, and it closes the connection it opened on every path.",
  ["fault_sequences","inputs"],"every assignment of success or failure (and error text) to every database call, within the retry bound",
  "No test injects a database fault; the property is over all fault schedules including faults that appear only on a retry.",
  ["pkg/ddlctl/apply/ddlctl_apply.go"],
  [("error accumulation and retry","pkg/ddlctl/apply/ddlctl_apply.go splitExec"),("deferred close","pkg/ddlctl/apply/ddlctl_apply.go Apply")],
  observe=["error returned by Apply","driver call log"])
p("C14","Generated DDL declares exactly what the annotated source declares",
  "For every annotated Go struct, the generated DDL has one table with one column per tagged field, in field order, with the tag's definition, the primary key made of exactly the marked fields in order, and the annotated constraints, options and indexes; fields and structs without annotations, comments in prose and annotations for another tag contribute nothing, wherever an index annotation stands. The output is accepted by the same dialect's parser and denotes that schema.",
  ["inputs","programs"],"every struct shape of the supported annotation grammar: any number and mix of tagged, untagged, skipped, embedded and key fields, any annotation order, comment style and placement",
  "Golden tests use two or three fixture files; annotation shape, tag content and comment layout combine freely.",
  ["pkg/internal/lang/go/parse.go","pkg/internal/lang/go/extract_source.go","pkg/internal/generator/ddl_create_table.go","pkg/internal/generator/ddl_create_index.go","pkg/internal/generator/dialect/postgres/postgres.go","pkg/internal/generator/dialect/postgres/create_table.go","pkg/internal/generator/dialect/mysql/create_table.go","pkg/internal/generator/dialect/spanner/create_table.go"],
  [("annotation extraction","pkg/internal/lang/go/extract_source.go, parse.go"),("printing","pkg/internal/generator/dialect/*/create_table.go, create_index.go"),("annotation setters","pkg/internal/generator/ddl_create_table.go, ddl_create_index.go")],
  observe=["output of generate","parse of that output"])
p("C15","Generation is deterministic and ordered by source position",
  "Generating from the same sources always gives the identical text, whatever order maps are iterated in, with statements in the order of their annotations in the file and files in path order; a table is emitted before the indexes declared with it.",
  ["schedules","inputs"],"every map iteration order, every arrangement of annotated declarations in files",
  "A test run sees one random map order for one fixture; stability must hold for all of them.",
  ["pkg/internal/lang/go/extract_source.go","pkg/internal/lang/go/parse.go"],
  [("sort by source position after map iteration","pkg/internal/lang/go/extract_source.go, parse.go")],
  observe=["output of generate"])
p("C16","Reading back a database schema renders exactly what the catalog says",
  "For every catalog content (tables, columns, defaults, nullability, constraints and indexes), the schema text produced from a live database declares exactly the objects of the schema ddlctl manages (no views, no other schemas), each column, constraint and index on its own table with its own column list, and the same dialect's parser accepts it. A database error while reading is returned as an error, never as a partial schema.",
  ["inputs","fault_sequences"],"every set of catalog rows the queries can return, and a failure of any query",
  "The show tests need a live database and are skipped; rendering from rows depends on how rows group by table and index.",
  ["pkg/show/postgres/show_create_all_tables.go","pkg/show/mysql/show_create_all_tables.go","pkg/show/cockroachdb/show_create_all_tables.go","pkg/show/spanner/show_create_all_tables.go"],
  [("catalog queries and rendering","pkg/show/*/show_create_all_tables.go ShowCreateAllTables")],
  observe=["text returned by ShowCreateAllTables"])
p("C17","Bad command lines are refused with an error before anything happens",
  "For every number of arguments, dialect name and language name, the diff, show, generate and apply operations either do their work or return an error: a wrong argument count, an empty or unknown dialect, or an empty or unknown language where source code is to be read is always an error, never a crash, and produces no schema output, no change of the destination file and no statement sent to a database; a wrong argument count or dialect is refused before the database is contacted at all.",
  ["inputs","configurations"],"every argument count from none upward and every dialect and language string",
  "Tests try one wrong argument list per command; dialect and language are arbitrary strings.",
  ["pkg/ddlctl/diff/ddlctl_diff.go","pkg/ddlctl/show/ddlctl_show.go","pkg/ddlctl/generate/ddlctl_generate.go","pkg/ddlctl/apply/ddlctl_apply.go"],
  [("argument and dialect checks","pkg/ddlctl/*/ddlctl_*.go Command, Diff, Show, Generate, Parse, Fprint, Apply")],
  observe=["returned error","bytes written to the output"])
p("C18","The diff command prints exactly the migration between its two sources",
  "For every pair of schema files, the diff operation writes exactly the migration from the first to the second and nothing else; if either source cannot be read or parsed, or the schemas do not differ, it writes nothing and reports that, so a failed comparison can never be mistaken for a migration. The order of the arguments decides the direction and each dialect uses its own grammar.",
  ["inputs","fault_sequences"],"every pair of file contents and every dialect, including unparsable and unreadable files",
  "Tests run the command on fixture files only; routing, direction and error behaviour must hold for every content.",
  ["pkg/ddlctl/diff/ddlctl_diff.go"],
  [("source resolution and dialect dispatch","pkg/ddlctl/diff/ddlctl_diff.go resolve, Diff")],
  observe=["bytes written by Diff","returned error"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
