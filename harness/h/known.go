package h

// The inputs of the findings in known_findings.txt. (They are run natively, without the finding being excused.)

func K06_cockroachdb_visibility() {
	converges(CR, "CREATE TABLE t (a INT8, b INT8);", "CREATE TABLE t (a INT8, b INT8 NOT VISIBLE);")
}

func K06_mysql_option_removal() {
	converges(MY, "CREATE TABLE t (a INT) COMMENT='x';", "CREATE TABLE t (a INT);")
}

func K06_spanner_recreate_referenced() {
	converges(SP, "CREATE TABLE t (a INT64, b INT64) PRIMARY KEY (a);CREATE TABLE w (z INT64, CONSTRAINT f FOREIGN KEY (z) REFERENCES t (a)) PRIMARY KEY (z);",
		"CREATE TABLE t (a INT64, b INT64) PRIMARY KEY (b);CREATE TABLE w (z INT64, CONSTRAINT f FOREIGN KEY (z) REFERENCES t (a)) PRIMARY KEY (z);")
}

func K08_mysql_drop_index() {
	inOrder(MY, "CREATE TABLE t (a INT, KEY i (a));", "CREATE TABLE t (a INT);")
}

func K08_replaced_key() {
	w := "CREATE TABLE w (z INT, CONSTRAINT f FOREIGN KEY (z) REFERENCES p (a));"
	inOrderKeyed(PG, "CREATE TABLE p (a INT NOT NULL, CONSTRAINT p_pkey PRIMARY KEY (a));"+w, "CREATE TABLE p (a INT NOT NULL, CONSTRAINT u UNIQUE (a));"+w)
}
