package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// A schema is a template whose slots ($A, $B, ...) are each filled with one alternative. In an alternative, # is an
// arbitrary digit 1 to 9, ^ an arbitrary letter and ? an arbitrary letter, digit, blank or punctuation mark: symbolic, each side of a comparison has its own.

type slot struct {
	core int // the first core alternatives also combine with changes elsewhere
	alt  []string
}

type layout struct {
	text  string
	slots []slot
	small bool
}

// fill writes the template with the given alternative of each slot.
func (l *layout) fill(side string, pick []int) string {
	s := ""
	for i := 0; i < len(l.text); i++ {
		if l.text[i] == '$' {
			i++
			k := int(l.text[i] - 'A')
			s += symbols(side, l.slots[k].alt[pick[k]])
			continue
		}
		s += l.text[i : i+1]
	}
	return s
}

// symbols replaces #, ^ and ? by symbolic characters.
func symbols(side, s string) string {
	out := ""
	b := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '#' || s[i] == '?' || s[i] == '^' {
			a := "123456789"
			switch s[i] {
			case '^':
				a = "abcxyzABCXYZ"
			case '?':
				a = "abcdxyzABCDXYZ019 ;,-()_%:|"
			}
			out += s[b:i] + string([]byte{sym.ByteIn(side, a)})
			b = i + 1
		}
	}
	return out + s[b:]
}

// schemaPair is two schemas: all slots but two are at their base alternative (0 or 1); of those two, the first takes any
// alternative on either side and the second any core alternative on either side. In the quick tier, the second slot has two
// alternatives and takes other than its base one only if the first is at a core alternative on one side.
func (l *layout) pair(d int) (before, after string) {
	n := len(l.slots)
	base := sym.Choice("base", 2)
	p, q := make([]int, n), make([]int, n)
	for i := range p {
		p[i], q[i] = base, base
		if len(l.slots[i].alt) == 1 {
			p[i], q[i] = 0, 0
		}
	}
	i := sym.Choice("slot", n)
	p[i] = sym.Choice("left", len(l.slots[i].alt))
	q[i] = sym.Choice("right", len(l.slots[i].alt))
	j := sym.Choice("slot2", n)
	if j == i {
		return l.fill("l", p), l.fill("r", q)
	}
	sym.Assume(!l.narrow() || base == 0)
	core := l.slots[j].core
	if sym.Tier() == 0 {
		core = 2
		sym.Assume(p[i] < l.slots[i].core || q[i] < l.slots[i].core)
	}
	p[j] = sym.Choice("left2", core)
	q[j] = sym.Choice("right2", core)
	sym.Assume(p[j] != base || q[j] != base)
	if sym.Tier() == 0 && base == 1 {
		sym.Assume(p[j] != q[j])
	}
	if sym.Tier() > 0 && p[i] < l.slots[i].core && q[i] < l.slots[i].core {
		sym.Assume(i < j)
	}
	return l.fill("l", p), l.fill("r", q)
}

// single is a pair of schemas that differ in one slot only (in the thorough tier, pair).
func (l *layout) single(d int) (before, after string) {
	if sym.Tier() > 0 {
		return l.smaller().pair(d)
	}
	n := len(l.slots)
	base := sym.Choice("base", 2)
	p, q := make([]int, n), make([]int, n)
	for i := range p {
		p[i], q[i] = base, base
		if len(l.slots[i].alt) == 1 {
			p[i], q[i] = 0, 0
		}
	}
	i := sym.Choice("slot", n)
	p[i] = sym.Choice("left", len(l.slots[i].alt))
	q[i] = sym.Choice("right", len(l.slots[i].alt))
	return l.fill("l", p), l.fill("r", q)
}

// few is one schema: all slots but one (in the thorough tier, two) are at their base alternative; full tells that all others
// are absent or the tier is thorough.
func (l *layout) few(side string) (text string, full bool) {
	if sym.Tier() > 0 {
		return l.one(side), true
	}
	n := len(l.slots)
	base := sym.Choice("base", 2)
	p := make([]int, n)
	for i := range p {
		p[i] = base
		if len(l.slots[i].alt) == 1 {
			p[i] = 0
		}
	}
	i := sym.Choice("slot", n)
	p[i] = sym.Choice("left", len(l.slots[i].alt))
	return l.fill(side, p), base == 0
}

// narrow explores only one slot against the second base in the quick tier.
func (l *layout) narrow() bool { return l.small && sym.Tier() == 0 }

// smaller is the same layout with fewer combinations in the quick tier.
func (l *layout) smaller() *layout { return &layout{l.text, l.slots, true} }

// one is one schema: all slots but two are at their base alternative.
func (l *layout) one(side string) string {
	n := len(l.slots)
	base := sym.Choice("base", 2)
	p := make([]int, n)
	for i := range p {
		p[i] = base
		if len(l.slots[i].alt) == 1 {
			p[i] = 0
		}
	}
	i := sym.Choice("slot", n)
	p[i] = sym.Choice("left", len(l.slots[i].alt))
	j := sym.Choice("slot2", n)
	sym.Assume(i <= j)
	if i != j {
		p[j] = sym.Choice("left2", len(l.slots[j].alt))
		sym.Assume(p[j] != base)
	}
	return l.fill(side, p)
}

var layouts = [4]layout{
	{"$A CREATE TABLE t (a INT NOT NULL$B$C$D$E$F);$G$H$I", []slot{
		{3, []string{"", "CREATE TABLE p (x INT, y INT);", "CREATE TABLE p (x INT);", "CREATE TABLE p (x INT);CREATE TABLE o (v INT);"}},
		{4, []string{"", ", b INT", ", b INT NOT NULL DEFAULT #", ", b VARCHAR(#)", ", b INT NOT NULL", ", b INT DEFAULT #", ", b INT DEFAULT # NOT NULL", ", b INT DEFAULT -#", ", b NUMERIC(1#, #)", ", b TEXT DEFAULT '?'",
			", b TEXT DEFAULT 'a '' ? -- ;'", ", b BOOLEAN DEFAULT true", ", b TEXT DEFAULT NULL", ", b INTEGER", ", b TIMESTAMP WITH TIME ZONE DEFAULT CURRENT_TIMESTAMP", ", b TIMESTAMP", ", b DOUBLE PRECISION",
			", b CHARACTER VARYING(#)", ", b UUID DEFAULT gen_random_uuid()", ", b INT DEFAULT (# + #)", ", b TEXT DEFAULT '?'::text", ", \"b\" INT", ", b INT NULL", ", b JSONB DEFAULT '{\"?\": #}'"}},
		{3, []string{"", ", c INT", ", c INT UNIQUE", ", c INT CHECK (c > #)", ", c INT REFERENCES p (x)", ", c INT REFERENCES p (x) ON DELETE CASCADE", ", c INT NOT NULL UNIQUE CHECK (c > 0)", ", c INT CHECK (c > 0) UNIQUE", ", c INT REFERENCES p (x) UNIQUE", ", c INT PRIMARY KEY"}},
		{3, []string{"", ", CONSTRAINT t_pkey PRIMARY KEY (a)", ", CONSTRAINT k PRIMARY KEY (a, b)", ", PRIMARY KEY (a)", ", PRIMARY KEY (b, a)", ", CONSTRAINT k PRIMARY KEY (b)"}},
		{3, []string{"", ", CONSTRAINT u UNIQUE (b)", ", CONSTRAINT u UNIQUE (a, b)", ", UNIQUE (b)", ", UNIQUE (b, a)", ", CONSTRAINT v UNIQUE (b, a)", ", CONSTRAINT u UNIQUE (a), CONSTRAINT v UNIQUE (b)"}},
		{3, []string{"", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x)", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (y) ON DELETE CASCADE", ", FOREIGN KEY (b) REFERENCES p (x)", ", FOREIGN KEY (a, b) REFERENCES p (x, y)", ", CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)",
			", CONSTRAINT f FOREIGN KEY (a, b) REFERENCES p (x, y) ON DELETE NO ACTION", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x) ON UPDATE CASCADE"}},
		{3, []string{"", "CREATE TABLE w (z INT);", "CREATE TABLE w (z INT, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (b));", "CREATE TABLE w (z INT, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (a));", "CREATE TABLE w (z INT, y TEXT DEFAULT '?');"}},
		{3, []string{"", "CREATE INDEX i ON t (b);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t USING gin (b);", "CREATE INDEX i ON t (a); CREATE INDEX i2 ON t (b);"}},
		{2, []string{"", "CREATE INDEX j ON w (z);", "CREATE UNIQUE INDEX j ON w (z);"}},
	}, false},
	{"$A CREATE TABLE t (a INT8 NOT NULL$B$C$D$E$F);$G$H$I", []slot{
		{3, []string{"", "CREATE TABLE p (x INT8, y INT8);", "CREATE TABLE p (x INT8);", "CREATE TABLE p (x INT8);CREATE TABLE o (v INT8);"}},
		{4, []string{"", ", b INT8", ", b INT8 NOT NULL DEFAULT #", ", b VARCHAR(#)", ", b INT8 NOT NULL", ", b INT8 DEFAULT #", ", b INT8 DEFAULT # NOT NULL", ", b INT8 DEFAULT -#", ", b DECIMAL(1#, #)", ", b STRING DEFAULT '?'",
			", b STRING DEFAULT 'a '' ? -- ;'", ", b BOOL DEFAULT true", ", b STRING DEFAULT NULL", ", b INTEGER", ", b TIMESTAMPTZ DEFAULT now()", ", b TIMESTAMP WITH TIME ZONE", ", b BIGINT",
			", b CHARACTER VARYING(#)", ", b UUID DEFAULT gen_random_uuid()", ", b INT8 DEFAULT (# + #)", ", b STRING DEFAULT '?':::STRING", ", \"b\" INT8", ", b INT8 NULL", ", b INT8 NOT VISIBLE", ", b INT8 AS (a + #) STORED", ", b INT8 NOT VISIBLE NOT NULL AS (a % #) VIRTUAL"}},
		{3, []string{"", ", c INT8", ", c INT8 UNIQUE", ", c INT8 CHECK (c > #)", ", c INT8 REFERENCES p (x)", ", c INT8 REFERENCES p (x) ON DELETE CASCADE", ", c INT8 NOT NULL UNIQUE CHECK (c > 0)", ", c INT8 CHECK (c > 0) UNIQUE", ", c INT8 REFERENCES p (x) UNIQUE", ", c INT8 PRIMARY KEY"}},
		{3, []string{"", ", CONSTRAINT t_pkey PRIMARY KEY (a)", ", CONSTRAINT k PRIMARY KEY (a, b)", ", PRIMARY KEY (a ASC)", ", PRIMARY KEY (b, a)", ", CONSTRAINT k PRIMARY KEY (b DESC)"}},
		{3, []string{"", ", UNIQUE INDEX u (b ASC)", ", UNIQUE INDEX u (a ASC, b ASC)", ", INDEX u (b ASC)", ", INDEX u (b DESC, a)", ", UNIQUE INDEX u (a), INDEX v (b)", ", CONSTRAINT u CHECK (b > #)", ", UNIQUE INDEX u (b) USING HASH", ", INDEX u (b, a) USING HASH WITH (bucket_count=#)"}},
		{3, []string{"", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x)", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (y) ON DELETE CASCADE", ", FOREIGN KEY (b) REFERENCES p (x)", ", FOREIGN KEY (a, b) REFERENCES p (x, y)", ", CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)",
			", CONSTRAINT f FOREIGN KEY (a, b) REFERENCES p (x, y) ON DELETE NO ACTION", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x) ON UPDATE CASCADE"}},
		{3, []string{"", "CREATE TABLE w (z INT8);", "CREATE TABLE w (z INT8, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (b));", "CREATE TABLE w (z INT8, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (a));", "CREATE TABLE w (z INT8, y STRING DEFAULT '?');"}},
		{3, []string{"", "CREATE INDEX i ON t (b);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t USING gin (b);", "CREATE INDEX i ON t (b DESC);", "CREATE INDEX i ON t (b) USING HASH;", "CREATE INDEX i ON t (a); CREATE INDEX i2 ON t (b);"}},
		{2, []string{"", "CREATE INDEX j ON w (z);", "CREATE UNIQUE INDEX j ON w (z);"}},
	}, false},
	{"$A CREATE TABLE t (a INT NOT NULL$B$C$D$E$F)$J;$G$H$I", []slot{
		{3, []string{"", "CREATE TABLE p (x INT, y INT);", "CREATE TABLE p (x INT);", "CREATE TABLE p (x INT);CREATE TABLE o (v INT);"}},
		{4, []string{"", ", b INT", ", b INT NOT NULL DEFAULT #", ", b VARCHAR(#)", ", b INT NOT NULL", ", b INT DEFAULT #", ", b INT DEFAULT # NOT NULL", ", b DECIMAL(1#, #)", ", b VARCHAR(9) DEFAULT '?'",
			", b VARCHAR(9) DEFAULT 'a '' ? -- ;'", ", b VARCHAR(9) COLLATE utf8mb4_bin", ", b VARCHAR(9) CHARACTER SET utf8mb4", ", b VARCHAR(9) COMMENT '?'", ", b INT AUTO_INCREMENT", ", b TIMESTAMP DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP",
			", b TIMESTAMP DEFAULT CURRENT_TIMESTAMP", ", b VARCHAR(9) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL DEFAULT '?' COMMENT '?'", ", b ENUM('?', 'b')", ", b TINYINT(1)", ", b VARCHAR(9) DEFAULT NULL", ", `b` INT", ", b INT NULL", ", b DATETIME(#)", ", b BIT(1) DEFAULT b'1'"}},
		{3, []string{"", ", c INT", ", c INT UNIQUE", ", c INT CHECK (c > #)", ", c INT REFERENCES p (x)", ", c INT REFERENCES p (x) ON DELETE CASCADE", ", c INT NOT NULL UNIQUE CHECK (c > 0)", ", c INT CHECK (c > 0) UNIQUE", ", c INT REFERENCES p (x) UNIQUE", ", c INT REFERENCES p (x) ON DELETE CASCADE ON UPDATE NO ACTION", ", c INT PRIMARY KEY"}},
		{3, []string{"", ", PRIMARY KEY (a)", ", PRIMARY KEY (a, b)", ", PRIMARY KEY (b, a)", ", CONSTRAINT k PRIMARY KEY (b)"}},
		{3, []string{"", ", UNIQUE KEY u (b)", ", UNIQUE KEY u (a, b)", ", KEY u (b)", ", INDEX u (b, a)", ", UNIQUE KEY u (a), KEY v (b)", ", CONSTRAINT u CHECK (b > #)", ", CHECK (b > #)", ", UNIQUE INDEX u (b DESC)"}},
		{3, []string{"", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x)", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (y) ON DELETE CASCADE", ", FOREIGN KEY (b) REFERENCES p (x)", ", FOREIGN KEY (a, b) REFERENCES p (x, y)", ", CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)",
			", CONSTRAINT f FOREIGN KEY (a, b) REFERENCES p (x, y) ON DELETE NO ACTION", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x) ON UPDATE NO ACTION ON DELETE CASCADE"}},
		{3, []string{"", "CREATE TABLE w (z INT);", "CREATE TABLE w (z INT, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (b));", "CREATE TABLE w (z INT, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (a));", "CREATE TABLE w (z INT, y VARCHAR(9) DEFAULT '?');"}},
		{3, []string{"", "CREATE INDEX i ON t (b);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t (b DESC);", "CREATE INDEX i ON t (a); CREATE INDEX i2 ON t (b);"}},
		{2, []string{"", "CREATE INDEX j ON w (z);", "CREATE UNIQUE INDEX j ON w (z);"}},
		{2, []string{"", " ENGINE=InnoDB", " ENGINE=MyISAM", " COMMENT='?'", " ENGINE=InnoDB AUTO_INCREMENT=# DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_bin COMMENT='?'", " DEFAULT CHARSET=utf8mb4", " COLLATE=utf8mb4_bin DEFAULT CHARSET=utf8mb4", " AUTO_INCREMENT=#"}},
	}, false},
	{"$A CREATE TABLE t (a INT64 NOT NULL$B$C$E$F)$D$J;$G$H$I", []slot{
		{3, []string{"", "CREATE TABLE p (x INT64, y INT64) PRIMARY KEY (x);", "CREATE TABLE p (x INT64) PRIMARY KEY (x);", "CREATE TABLE p (x INT64) PRIMARY KEY (x);CREATE TABLE o (v INT64) PRIMARY KEY (v);"}},
		{4, []string{"", ", b INT64", ", b INT64 NOT NULL DEFAULT (#)", ", b STRING(#)", ", b INT64 NOT NULL", ", b INT64 DEFAULT (#)", ", b INT64 DEFAULT (#) NOT NULL", ", b INT64 DEFAULT (-#)", ", b NUMERIC", ", b STRING(MAX) DEFAULT ('?')",
			", b STRING(MAX) DEFAULT (\"a ? -- ;\")", ", b BOOL DEFAULT (true)", ", b STRING(36) DEFAULT (GENERATE_UUID())", ", b TIMESTAMP OPTIONS (allow_commit_timestamp = true)", ", b TIMESTAMP", ", b FLOAT64", ", b ARRAY<STRING(#)>", ", `b` INT64", ", b JSON", ", b TIMESTAMP NOT NULL DEFAULT (CURRENT_TIMESTAMP())"}},
		{2, []string{"", ", c INT64", ", c INT64 CHECK (c > #)", ", c INT64 REFERENCES p (x)"}},
		{2, []string{" PRIMARY KEY (a)", " PRIMARY KEY (a, b)", " PRIMARY KEY (a DESC)", " PRIMARY KEY (b)", ""}},
		{3, []string{"", ", CONSTRAINT u CHECK (b > #)", ", CONSTRAINT u CHECK (a < #)", ", CHECK (b > #)", ", CONSTRAINT u CHECK (a > 1), CONSTRAINT v CHECK (b > 1)"}},
		{3, []string{"", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x)", ", CONSTRAINT f FOREIGN KEY (b) REFERENCES p (y)", ", FOREIGN KEY (b) REFERENCES p (x)", ", FOREIGN KEY (a, b) REFERENCES p (x, y)", ", CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)",
			", CONSTRAINT f FOREIGN KEY (a, b) REFERENCES p (x, y)"}},
		{3, []string{"", "CREATE TABLE w (z INT64) PRIMARY KEY (z);", "CREATE TABLE w (z INT64, CONSTRAINT wf FOREIGN KEY (z) REFERENCES t (b)) PRIMARY KEY (z);", "CREATE TABLE w (a INT64, z INT64) PRIMARY KEY (a, z), INTERLEAVE IN PARENT t ON DELETE CASCADE;",
			"CREATE TABLE w (a INT64, z INT64) PRIMARY KEY (a, z), INTERLEAVE IN PARENT t;", "CREATE TABLE w (z INT64, y STRING(MAX) DEFAULT ('?')) PRIMARY KEY (z);"}},
		{3, []string{"", "CREATE INDEX i ON t (b);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t (b DESC);", "CREATE INDEX i ON t (a); CREATE INDEX i2 ON t (b);"}},
		{2, []string{"", "CREATE INDEX j ON w (z);", "CREATE UNIQUE INDEX j ON w (z);"}},
		{2, []string{"", ", ROW DELETION POLICY (OLDER_THAN(b, INTERVAL # DAY))", ", ROW DELETION POLICY (OLDER_THAN(c, INTERVAL # DAY))", ", INTERLEAVE IN PARENT p", ", INTERLEAVE IN PARENT p ON DELETE CASCADE", ", INTERLEAVE IN PARENT p, ROW DELETION POLICY (OLDER_THAN(b, INTERVAL # DAY))"}},
	}, false},
}
