package cli

// The inputs of the findings in known_findings.txt. (They are run natively, without the finding being excused.)

func K16_spanner_constraints() {
	c := small(SP)
	c.tables[1].cons = []catCon{
		{name: "f", kind: "FOREIGN KEY", cols: []string{"a"}, ref: "t", refCols: []string{"a"}, update: "NO ACTION", del: "NO ACTION"},
		{name: "k", kind: "CHECK", cols: []string{"a"}, check: "a > 0"},
	}
	shows(c)
}

func K16_cockroachdb_foreign_keys() {
	c := &catalog{d: CR, tables: []*catTable{
		{text: "CREATE TABLE public.t (\n\ta INT8 NOT NULL,\n\tCONSTRAINT t_pkey PRIMARY KEY (a ASC)\n)"},
		{text: "CREATE TABLE public.u (\n\ta INT8 NOT NULL,\n\tCONSTRAINT u_pkey PRIMARY KEY (a ASC)\n)"},
		{text: "ALTER TABLE public.u ADD CONSTRAINT f FOREIGN KEY (a) REFERENCES public.t(a)"},
		{text: "-- Validate foreign key constraints. These can fail if there was unvalidated data during the SHOW CREATE ALL TABLES\nALTER TABLE public.u VALIDATE CONSTRAINT f"},
	}}
	shows(c)
}
