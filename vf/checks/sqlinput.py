"""C34: SQL input."""
import json

from .. import gen, lang, model
from ..drv import Inconclusive, crashed, node_request
from .inference import rust_str
from .languages import NODE_MODES, ROOTS, TEXT_MODES, TsModule, TsZod, read_text_mode

TYPES = {
    "str": ["CHARACTER(5)", "CHARACTER", "CHAR(3)", "CHAR", "CHARACTER VARYING(20)", "CHAR VARYING(7)", "VARCHAR(255)", "VARCHAR",
            "NVARCHAR(9)", "TEXT", "STRING"],
    "int": ["TINYINT", "TINYINT(1)", "TINYINT UNSIGNED", "SMALLINT", "SMALLINT UNSIGNED", "SMALLINT(3) UNSIGNED", "MEDIUMINT",
            "MEDIUMINT(5)", "MEDIUMINT UNSIGNED", "INT", "INT(11)", "INT UNSIGNED", "INT(10) UNSIGNED", "INTEGER", "INTEGER(11)",
            "INTEGER UNSIGNED", "BIGINT", "BIGINT(20)", "BIGINT UNSIGNED", "BIGINT(20) UNSIGNED"],
    "bool": ["BOOLEAN"],
    "date": ["DATE", "DATETIME", "DATETIME(6)", "TIMESTAMP", "TIMESTAMP(3)", "TIMESTAMP WITH TIME ZONE",
             "TIMESTAMP WITHOUT TIME ZONE", "TIMESTAMP(6) WITH TIME ZONE", "TIMESTAMPTZ"],
    "any": ["FLOAT", "FLOAT(8)", "REAL", "DOUBLE", "DOUBLE PRECISION", "DECIMAL(10,2)", "DECIMAL", "NUMERIC(4)", "NUMERIC", "DEC(3,1)",
            "UUID", "JSON", "BYTEA", "BLOB", "CLOB", "BINARY(3)", "VARBINARY(9)", "TIME", "TIME WITH TIME ZONE", "INTERVAL",
            "INT[]", "TEXT[]", "my_type", "geo.point", "SERIAL", "ENUM('TEXT','b')", "SET('INT')", "point(3)", "date_range"],
}
OPTS = ["NULL", "PRIMARY KEY", "UNIQUE", "DEFAULT 1", "DEFAULT 'NOT NULL'", "DEFAULT CURRENT_TIMESTAMP", "DEFAULT now()",
        "CHECK (a IS NOT NULL)", "CHECK (a > 0 AND b <> 'x')", "REFERENCES other (id)", "REFERENCES s.o (id) ON DELETE CASCADE",
        "REFERENCES o (id) ON UPDATE SET NULL", "COMMENT 'NOT NULL'", "DEFAULT (1 + 2)", "DEFAULT 'it''s'", "DEFAULT -1",
        "CONSTRAINT u UNIQUE", "CONSTRAINT ck CHECK (x IS NULL)", "DEFAULT NULL", "DEFAULT true"]
CONSTRAINTS = ["PRIMARY KEY (id)", "PRIMARY KEY (id, name)", "UNIQUE (a, b)", "FOREIGN KEY (a) REFERENCES o (b) ON DELETE SET NULL",
               "CONSTRAINT fk FOREIGN KEY (a) REFERENCES o (b)", "CHECK (a IS NOT NULL)", "CONSTRAINT nn CHECK (a IS NOT NULL)"]
OTHER = ["SELECT 1", "INSERT INTO t VALUES (1, 'CREATE TABLE x (y INT);')", "DROP TABLE IF EXISTS users", "CREATE INDEX i ON t (a)",
         "CREATE VIEW v AS SELECT a FROM t", "ALTER TABLE t ADD COLUMN c INT NOT NULL", "UPDATE t SET a = 1 WHERE b = 2", "DELETE FROM t",
         "CREATE SCHEMA s", "SET a = 1"]
PLAIN = ["id", "name", "user_id", "createdAt", "ID", "a1", "x_y_z", "TotalCount", "n", "e_mail", "Foo", "snake_case_name", "f9", "description",
         "status", "url", "value_", "_hidden", "zip4", "type", "data", "date_of_birth", "text_body", "int_value", "not_null", "user", "rank",
         "year", "level", "class", "fun", "val", "def", "lambda", "self", "match", "let", "async", "count", "owner"]
QUOTED = ["a b", "select", "PRIMARY", "x-y", "\u00e9t\u00e9", "\u65e5\u672c", "1st", "a.b", "it's", "a;b", "--x", "/*y*/", "NOT NULL", "(", ",",
          "Table", "check", "order by", "constraint", "A\\B", "$1", "#", "null"]


def ident(rng, name, plain):
    if plain and rng.random() < 0.7:
        return name
    q = '"'
    return q + name + q


def case(rng, s, how):
    if how == 0 or "'" in s:
        return s
    return s.lower() if how == 1 else "".join(rng.choice([c.upper(), c.lower()]) for c in s)


def ws(rng, comments):
    r = rng.random()
    if comments and r < 0.1:
        return rng.choice([" -- NOT NULL, x INT\n", " /* ) ; NOT NULL */ ", "\n--\n", " /**/ "])
    return " " if r < 0.7 else rng.choice(["\n", "\t", "  ", "\n    ", "\r\n"])


def table(rng, comments):
    cols, used, how = [], set(), rng.choice([0, 0, 1, 2])
    many = 300 if rng.random() < 0.002 else 0
    for i in range(many or rng.choice([0, 1, 1, 2, 3, 4, 6, 10])):
        plain = rng.random() < 0.75
        name = rng.choice(PLAIN if plain else QUOTED)
        if many:
            name += str(i)
        if name in used:
            continue
        used.add(name)
        kind = rng.choice(["str", "str", "int", "int", "bool", "date", "any"])
        t = case(rng, rng.choice(TYPES[kind]), how)
        opts = rng.sample(OPTS, rng.choice([0, 0, 0, 1, 2, 3]))
        if "NULL" in opts and rng.random() < 0.5:
            opts.remove("NULL")
        notnull = rng.random() < 0.5 and "NULL" not in opts
        if notnull:
            opts.insert(rng.randint(0, len(opts)), rng.choice(["NOT NULL", "NOT NULL", "NOT  NULL", "NOT\nNULL", "CONSTRAINT nn NOT NULL"]))
        opts = [case(rng, o, how) for o in opts]
        cols.append((ident(rng, name, plain) + ws(rng, comments) + t + "".join(ws(rng, comments) + o for o in opts), name, kind, notnull))
    parts = [c[0] for c in cols]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        parts.insert(len(parts), case(rng, rng.choice(CONSTRAINTS), how))
    head = case(rng, "CREATE", how) + ws(rng, False) + rng.choice(["", "", "TEMPORARY ", "OR REPLACE "]) + case(rng, "TABLE", how) + " " + rng.choice(
        ["", "", "IF NOT EXISTS "]) + rng.choice(["t", "users", "a.b", '"T T"', "s.\"q r\"", "Orders"]) + rng.choice(["", " "])
    body = ("," + ws(rng, comments)).join(parts)
    pad = ws(rng, comments) if rng.random() < 0.5 else ""
    return head, "(" + pad + body + pad, [[n, k, nn] for _, n, k, nn in cols]


class C34(TsZod):
    id = "C34"
    technique = "monitor comparing the fields read back from the generated code with the columns of generated CREATE TABLE statements"
    level_note = ("exploration; the expected columns are known by construction (a SQL text is built around them), the readers of each language "
                  "are trusted. Covers the types, column options and statements listed in vf/checks/sqlinput.py; date columns are not looked at "
                  "in the modes zod and json_schema, where the opaque name has no meaning")
    rule = ("generated scripts of statements around one or more CREATE TABLE, in all modes, and scripts that have none or a syntax error; "
            "non-trivial: distinct (script, mode) with three or more columns")
    modes = TEXT_MODES + NODE_MODES + ("shape",)
    counts = (300000, 6000000)
    batch = 60

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            comments = rng.random() < 0.3
            head, body, cols = table(rng, comments)
            mode = rng.choice(self.modes)
            before = [rng.choice(OTHER) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            after = [rng.choice(OTHER) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            if rng.random() < 0.2:
                h, b, _ = table(rng, comments)
                after.append(h + b + ")")
            bad = None
            stmt = head + body + ")"
            r = rng.random()
            if r < 0.05:
                bad, stmt, after = "no CREATE TABLE", "", [a for a in after if a in OTHER]
            elif r < 0.2:
                bad = rng.choice(["cut", "extra", "second", "option", "garbage"])
                if bad == "cut":
                    k = rng.randint(1, len(body))
                    stmt, after = head + body[:k], []
                elif bad == "extra":
                    stmt = head + body + rng.choice([")) x", ", ) foo bar", ") )", ",, a INT)", " x INT y INT)", ") x y z"])
                elif bad == "second":
                    after = [rng.choice(["FOO BAR", "SELEC 1", "CREATE TABLE", "CREATE TABLE x (a INT", ")", "1", "INSERT INTO"])]
                elif bad == "option":
                    stmt = head + rng.choice(["(a INT NOT)", "(a INT REFERENCES)", "(a INT NOT NOT NULL)", "(INT NOT NULL a)",
                                              "(a VARCHAR(x) NOT NULL)", "(a INT DEFAULT)", "('a' INT)", "(1a INT)"])
                else:
                    stmt, after = rng.choice(["{", "[1]", "hello world", "CREATE", "CREATE TABLE (a INT)", "CREATE TABEL t (a INT)", "'", "\"",
                                              "CREATE TABLE t (a INT); '"]), []
            stmts = [s for s in before + [stmt] + after if s]
            text = (";" + rng.choice([" ", "\n", "", "\n\n", ";\n"])).join(stmts) + rng.choice(["", ";", ";\n", "\n", "; "])
            if comments and not bad:
                text = rng.choice(["", "-- CREATE TABLE no (a INT);\n", "/* CREATE TABLE no (a INT); */\n"]) + text
            c = {"input": text, "name": rng.choice(ROOTS if rng.random() < 0.6 else ["t", "users", "Orders", "T", "Users", "a", "q"]), "mode": mode, "cols": cols, "bad": bad}
            if mode in ("zod", "json_schema") and any(k == "date" for _, k, _ in cols):
                c["mode"] = rng.choice(["shape", "rust"])
            yield c

    def want(self, c):
        fs = {}
        for name, kind, notnull in c["cols"]:
            t = ("opaque", "Date") if kind == "date" else (kind,)
            if not notnull and kind != "any":
                t = ("nullable", t)
            fs[name] = (False, t)
        return ("struct", fs)

    def verdict(self, ctx, c, m):
        n = self.want(c)
        root = m.root(c["name"])
        try:
            lang.Compare(m).run(n, root)
            if c["mode"] not in ("zod", "kotlin/jackson", "kotlin/kotlinx") or n[1]:
                v = m.view(root)
                got = [f.key for f in v[1]] if v[0] == "struct" else None
                if c["mode"] == "zod":
                    got = None    # a JavaScript object does not keep the order of all keys
                if got is not None and got != list(n[1]):
                    return "columns in another order: %r" % (got,)
        except (lang.Mismatch, lang.Malformed) as e:
            return str(e)
        return None

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        tsf, zf, codes = [], [], {}
        for i, c in enumerate(cases):
            opts = "{input_mode: \"sql\", output_mode: %s}" % rust_str(c["mode"])
            r = self.s.codegen(c["input"], name=c["name"], options=opts)
            if crashed(r):
                out[i] = "crash: %r" % r
                continue
            if c["bad"]:
                ctx.stat("refused: " + c["bad"])
                if "err" not in r:
                    out[i] = "%s, but code was generated" % c["bad"]
                    codes[i] = r["ok"]
                else:
                    ctx.seen(c["input"])
                continue
            if "ok" not in r:
                out[i] = "no code: %s" % r
                continue
            code = codes[i] = r["ok"]
            if c["mode"] == "shape":
                v = json.loads(code)
                got, want = model.parse_shape(v), self.want(c)
                if got != want:
                    out[i] = "the structure is %s, expected %s" % (model.show(got), model.show(want))
                elif list(v) != [x[0] for x in c["cols"]]:
                    out[i] = "columns in another order: %r" % list(v)
            elif c["mode"].startswith("typescript"):
                tsf.append({"id": i, "code": code, "name": c["name"]})
            elif c["mode"] == "zod":
                zf.append({"id": i, "code": code})
            else:
                try:
                    out[i] = self.verdict(ctx, c, read_text_mode(c["mode"], code))
                except lang.Malformed as e:
                    out[i] = "malformed output: %s" % e
        if tsf:
            for o in node_request(self.node, {"op": "ts", "files": tsf}):
                out[o["id"]] = ("tsc: %s" % (o["code"][:3] or "root not exported") if o["code"] or "root" not in o
                                else self.verdict(ctx, cases[o["id"]], TsModule(cases[o["id"]]["mode"], o)))
        if zf:
            for o in node_request(self.node, {"op": "zod", "files": zf}):
                out[o["id"]] = ("zod: %s" % o.get("error") if o.get("error") or "root" not in o
                                else self.verdict(ctx, cases[o["id"]], lang.DumpModule("zod", o["root"])))
        for i, c in enumerate(cases):
            if out[i]:
                out[i] += "\nmode %s\ninput %s\n%s" % (c["mode"], c["input"], codes.get(i, "")[:1500])
            elif not c["bad"]:
                ctx.stat("mode " + c["mode"])
                for n, k, nn in c["cols"]:
                    ctx.stat("column %s %s" % (k, "not null" if nn else "nullable"))
                if len(c["cols"]) >= 3:
                    ctx.seen(c["mode"] + c["input"])
                if ctx.rng.random() < 0.001:
                    ctx.sample({"mode": c["mode"], "input": c["input"][:500]})
        return out

    def finish(self, m):
        for k in TYPES:
            for nn in ("not null", "nullable"):
                if not m["stats"].get("column %s %s" % (k, nn)):
                    raise Inconclusive("no column of kind %s %s" % (k, nn))
        return {}
