package h

// Keyword tables: the token type each word stands for (any letter case).
var keywords = [4]map[string]string{
	{ // postgres
		"EQUAL": "EQUAL", "GREATER": "GREATER", "LESS": "LESS", "CREATE": "CREATE", "ALTER": "ALTER",
		"DROP": "DROP", "RENAME": "RENAME", "TRUNCATE": "TRUNCATE", "DELETE": "DELETE", "UPDATE": "UPDATE",
		"TABLE": "TABLE", "INDEX": "INDEX", "VIEW": "VIEW", "IF": "IF", "EXISTS": "EXISTS", "USING": "USING",
		"ON": "ON", "TO": "TO", "BOOLEAN": "BOOLEAN", "SMALLINT": "SMALLINT", "INTEGER": "INTEGER",
		"INT": "INTEGER", "BIGINT": "BIGINT", "DECIMAL": "DECIMAL", "NUMERIC": "NUMERIC", "REAL": "REAL",
		"DOUBLE": "DOUBLE", "PRECISION": "PRECISION", "SMALLSERIAL": "SMALLSERIAL", "SERIAL": "SERIAL",
		"BIGSERIAL": "BIGSERIAL", "UUID": "UUID", "JSONB": "JSONB", "CHARACTER": "CHARACTER", "VARYING": "VARYING",
		"VARCHAR": "VARYING", "TEXT": "TEXT", "TIMESTAMP": "TIMESTAMP", "TIMESTAMPTZ": "TIMESTAMPTZ",
		"WITH": "WITH", "TIME": "TIME", "ZONE": "ZONE", "DEFAULT": "DEFAULT", "NOT": "NOT", "ASC": "ASC",
		"DESC": "DESC", "CASCADE": "CASCADE", "NO": "NO", "ACTION": "ACTION", "CONSTRAINT": "CONSTRAINT",
		"PRIMARY": "PRIMARY", "KEY": "KEY", "FOREIGN": "FOREIGN", "REFERENCES": "REFERENCES", "UNIQUE": "UNIQUE",
		"CHECK": "CHECK", "NULLIF": "NULLIF", "NULL": "NULL", "TRUE": "TRUE", "FALSE": "FALSE",
	},
	{ // cockroachdb
		"EQUAL": "EQUAL", "GREATER": "GREATER", "LESS": "LESS", "CREATE": "CREATE", "ALTER": "ALTER",
		"DROP": "DROP", "RENAME": "RENAME", "TRUNCATE": "TRUNCATE", "DELETE": "DELETE", "UPDATE": "UPDATE",
		"TABLE": "TABLE", "INDEX": "INDEX", "VIEW": "VIEW", "IF": "IF", "EXISTS": "EXISTS", "USING": "USING",
		"ON": "ON", "TO": "TO", "BOOLEAN": "BOOL", "BOOL": "BOOL", "INT2": "INT2", "SMALLINT": "INT2",
		"INT4": "INT4", "INTEGER": "INT4", "INT": "INT4", "INT8": "INT8", "BIGINT": "INT8", "DECIMAL": "DECIMAL",
		"NUMERIC": "NUMERIC", "REAL": "REAL", "DOUBLE": "DOUBLE", "PRECISION": "PRECISION", "FLOAT4": "FLOAT4",
		"FLOAT8": "FLOAT8", "SMALLSERIAL": "SMALLSERIAL", "SERIAL": "SERIAL", "BIGSERIAL": "BIGSERIAL",
		"UUID": "UUID", "JSONB": "JSONB", "CHARACTER": "CHARACTER", "VARYING": "VARYING", "VARCHAR": "VARCHAR",
		"TEXT": "STRING", "STRING": "STRING", "TIMESTAMP": "TIMESTAMP", "TIMESTAMPTZ": "TIMESTAMPTZ",
		"WITH": "WITH", "TIME": "TIME", "ZONE": "ZONE", "DEFAULT": "DEFAULT", "NOT": "NOT", "VISIBLE": "VISIBLE",
		"AS": "AS", "ASC": "ASC", "DESC": "DESC", "CASCADE": "CASCADE", "NO": "NO", "ACTION": "ACTION",
		"STORED": "STORED", "VIRTUAL": "VIRTUAL", "CONSTRAINT": "CONSTRAINT", "PRIMARY": "PRIMARY", "KEY": "KEY",
		"FOREIGN": "FOREIGN", "REFERENCES": "REFERENCES", "UNIQUE": "UNIQUE", "CHECK": "CHECK", "NULLIF": "NULLIF",
		"NULL": "NULL", "TRUE": "TRUE", "FALSE": "FALSE",
	},
	{ // mysql
		"EQUAL": "EQUAL", "GREATER": "GREATER", "LESS": "LESS", "CREATE": "CREATE", "ALTER": "ALTER",
		"DROP": "DROP", "RENAME": "RENAME", "TRUNCATE": "TRUNCATE", "TABLE": "TABLE", "INDEX": "INDEX",
		"VIEW": "VIEW", "IF": "IF", "EXISTS": "EXISTS", "USING": "USING", "ON": "ON", "UPDATE": "UPDATE",
		"DELETE": "DELETE", "CASCADE": "CASCADE", "RESTRICT": "RESTRICT", "NO": "NO", "ACTION": "ACTION",
		"TO": "TO", "SET": "SET", "BOOLEAN": "BOOLEAN", "BIT": "BIT", "TINYINT": "TINYINT", "SMALLINT": "SMALLINT",
		"MEDIUMINT": "MEDIUMINT", "INTEGER": "INTEGER", "INT": "INTEGER", "BIGINT": "BIGINT", "DECIMAL": "DECIMAL",
		"NUMERIC": "NUMERIC", "REAL": "REAL", "DOUBLE": "DOUBLE", "PRECISION": "PRECISION",
		"SMALLSERIAL": "SMALLSERIAL", "SERIAL": "SERIAL", "BIGSERIAL": "BIGSERIAL", "JSON": "JSON", "CHAR": "CHAR",
		"CHARACTER": "CHARACTER", "VARYING": "VARYING", "VARCHAR": "VARCHAR", "TEXT": "TEXT",
		"MEDIUMTEXT": "MEDIUMTEXT", "LONGTEXT": "LONGTEXT", "TIMESTAMP": "TIMESTAMP", "DATETIME": "DATETIME",
		"DATE": "DATE", "TIME": "TIME", "ENUM": "ENUM", "DEFAULT": "DEFAULT", "NOT": "NOT", "ASC": "ASC",
		"DESC": "DESC", "COMMENT": "COMMENT", "CONSTRAINT": "CONSTRAINT", "PRIMARY": "PRIMARY", "KEY": "KEY",
		"FOREIGN": "FOREIGN", "REFERENCES": "REFERENCES", "UNIQUE": "UNIQUE", "CHECK": "CHECK", "ENGINE": "ENGINE",
		"CHARSET": "CHARSET", "COLLATE": "COLLATE", "AUTO_INCREMENT": "AUTO_INCREMENT",
		"CURRENT_TIMESTAMP": "CURRENT_TIMESTAMP", "NULLIF": "NULLIF", "NULL": "NULL", "TRUE": "TRUE",
		"FALSE": "FALSE",
	},
	{ // spanner
		"EQUAL": "EQUAL", "GREATER": "GREATER", "LESS": "LESS", "CREATE": "CREATE", "ALTER": "ALTER",
		"DROP": "DROP", "RENAME": "RENAME", "TRUNCATE": "TRUNCATE", "DELETE": "DELETE", "UPDATE": "UPDATE",
		"TABLE": "TABLE", "INDEX": "INDEX", "VIEW": "VIEW", "IF": "IF", "EXISTS": "EXISTS", "USING": "USING",
		"ON": "ON", "TO": "TO", "WITH": "WITH", "BOOL": "BOOL", "INT64": "INT64", "FLOAT64": "FLOAT64",
		"NUMERIC": "NUMERIC", "JSON": "JSON", "STRING": "STRING", "BYTES": "BYTES", "TIMESTAMP": "TIMESTAMP",
		"DATE": "DATE", "ARRAY": "ARRAY", "STRUCT": "STRUCT", "DEFAULT": "DEFAULT", "NOT": "NOT", "ASC": "ASC",
		"DESC": "DESC", "OPTIONS": "OPTIONS", "INTERLEAVE": "INTERLEAVE", "IN": "IN", "PARENT": "PARENT",
		"CASCADE": "CASCADE", "NO": "NO", "ACTION": "ACTION", "CONSTRAINT": "CONSTRAINT", "PRIMARY": "PRIMARY",
		"KEY": "KEY", "FOREIGN": "FOREIGN", "REFERENCES": "REFERENCES", "UNIQUE": "UNIQUE", "CHECK": "CHECK",
		"NULLIF": "NULLIF", "NULL": "NULL", "TRUE": "TRUE", "FALSE": "FALSE", "ROW": "ROW", "DELETION": "DELETION",
		"POLICY": "POLICY", "OLDER_THAN": "OLDER_THAN", "INTERVAL": "INTERVAL", "DAY": "DAY",
	},
}
