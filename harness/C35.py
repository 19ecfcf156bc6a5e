"""C35: the three command-line programs, built with ASan and UBSan, run on generated files, tables,
options and broken command lines. What they leave in the database or print is read back here, with
Python's own sqlite3 or by splitting the output, and compared with what was generated."""
import hashlib, math, os, random, re, shutil, sqlite3, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

RULE = ("Each command-line program run on generated inputs: text files of every delimiter, quoting, NaN string, row and column "
        "names, fixed width and existing-table option, from a file and from standard input, read back from the database; "
        "cross tabulations and plots (lines, points, histograms, no plot; query in the argument, in an option or in a file; to a "
        "file and to standard output) of generated tables compared cell by cell; command lines with missing, unknown and "
        "overlong arguments, which must end with a message and not a crash, leaving no stray file. Distinct by command line and input.")
FAMILIES = [("text_to_db", 1200, 12000), ("crosstab", 800, 8000), ("plot", 1200, 12000), ("broken", 300, 3000)]
WORDS = ["ant", "bee", "Cat tail", "d_e", "x", "the end", "q9", "zed", "N", "emu.x"]


class Case:
    def __init__(self, fam, seed, case, progs):
        self.fam, self.seed, self.case, self.progs = fam, seed, case, progs
        self.r = random.Random("%s/%s/%s" % (fam, seed, case))
        self.viol, self.ctr, self.checks = [], {}, 0
        self.sig = hashlib.sha256()
        self.desc = ""
        self.d = tempfile.mkdtemp(prefix="verif-c35-")

    def ev(self, k, n=1):
        self.ctr[k] = self.ctr.get(k, 0) + n

    def check(self, ok, key, msg):
        self.checks += 1
        if not ok:
            self.viol.append((self.fam, self.seed, self.case, self.fam + "/" + key, msg[:1200]))
        return ok

    def run(self, prog, args, stdin=b""):
        self.sig.update(repr((prog, args)).encode() + stdin)
        self.desc = "%s %s" % (prog, " ".join(args))[:300]
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "1", "HOME": self.d, "TMPDIR": self.d,
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "print_stacktrace=1"}
        try:
            p = subprocess.run([self.progs[prog]] + args, cwd=self.d, env=env, input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=100, start_new_session=True)
        except subprocess.TimeoutExpired:
            self.check(False, "hang", "no end after 100 s: " + self.desc)
            return -1, "", ""
        out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        self.ev("programs_run")
        bad = p.returncode < 0 or "AddressSanitizer" in err or "runtime error:" in err or p.returncode == 99
        if bad:
            import run_check
            self.check(False, run_check.crash_key(err, p.returncode), self.desc + "\n" + "\n".join(err.splitlines()[:20]))
            return -1, out, err
        self.checks += 1
        return p.returncode, out, err

    def value(self):
        r = self.r
        return r.choice([str(r.randint(-40, 40)), str(r.randint(0, 5)), "%.3f" % r.uniform(-5, 5), "%g" % (r.uniform(-1, 1) * 10 ** r.randint(-6, 9))])


def same(got, want):
    """a database value and the text that went in"""
    if want is None or got is None:
        return got is None and want is None
    try:
        w = float(want)
    except ValueError:
        return str(got) == want
    try:
        return abs(float(got) - w) <= 1e-13 * abs(w)
    except (TypeError, ValueError):
        return False


def f_text_to_db(c):
    r = c.r
    cols, rows = r.randint(1, 6), r.choice([1, 2, 5, 12, 40])
    fixed = r.random() < .25
    nan = r.choice([None, None, "Missing", ".", "-99"])
    rn = not fixed and r.random() < .3
    given = r.random() < .3                 # -N
    header = not given and r.random() < .7
    args = []
    delims = r.choice([None, None, ",", "|", ";", "|;", "\t", r"\t"])
    if fixed:
        delims = None
    names = ["c%d" % j if r.random() < .5 else "n_%s" % "abcdefgh"[j] for j in range(cols)]
    text = []
    data = []
    if fixed:
        w = [r.randint(3, 8) for _ in range(cols)]
        ends = [sum(w[:j + 1]) for j in range(cols)]
        showlast = cols == 1 or r.random() < .6     # the last field's end may be left out
        args += ["-f" + ",".join(str(e) for e in (ends if showlast else ends[:-1]))] if r.random() < .5 else ["-f", ",".join(str(e) for e in (ends if showlast else ends[:-1]))]

        def cell(j):
            s = r.choice([str(r.randint(0, 99)), str(r.randint(0, 99)), "ab", "xyz", "%.1f" % r.uniform(0, 9)])
            return s[:w[j]]
        if header:
            names = ["abcdefgh"[j] * r.randint(1, 3) for j in range(cols)]
            text.append("".join(n.ljust(w[j]) if j < cols - 1 else n for j, n in enumerate(names)))
        for i in range(rows):
            row = [cell(j) for j in range(cols)]
            data.append(row)
            text.append("".join(s.ljust(w[j]) if j < cols - 1 else s for j, s in enumerate(row)))
    else:
        dl = delims or "|,\t"
        dl = "\t" if dl == r"\t" else dl

        def cell():
            k = r.random()
            if k < .55:
                return c.value(), None
            if k < .75:
                return r.choice(WORDS), None
            if k < .83:
                return None, r.choice([nan or "NaN", (nan or "NaN").lower(), (nan or "NaN").upper()])
            if k < .92:
                s = r.choice(["p, q", "a|b", "semi;colon", "tab\there", "say #1"])
                return s, '"%s"' % s
            s = r.choice(WORDS)
            return s, '"%s"' % s
        if header:
            text.append(r.choice(dl).join(names))
        for i in range(rows):
            row, line = [], []
            if rn:
                row.append("row%d" % i)
                line.append("row%d" % i)
            for j in range(cols):
                v, shown = cell()
                row.append(v)
                line.append(shown if shown is not None else v)
            data.append(row)
            text.append(r.choice(dl).join(line))
        if delims:
            args += ["-d" + delims] if r.random() < .5 else ["-d", delims]
        if nan:
            args += ["-n" + nan]
        if rn:
            args.append("-r")
    if given:
        args += [("-N" + ",".join(names)) if r.random() < .5 else "-N" + ", ".join(names)]
    if not header:
        args.append("-nc")
    if not header and not given:
        names = ["col_%d" % j for j in range(cols)]
    blob = "\n".join(text) + ("" if r.random() < .2 else "\n")
    stdin = r.random() < .25
    with open(c.d + "/in.txt", "w") as f:
        f.write(blob)
    r.shuffle(args) if not any(a in ("-d", "-f") for a in args) else None
    exists = r.choice([None, None, "n", "d", "o", "a"])
    old = []
    db = "the.db"
    tab = r.choice(["tab", "t_1", "Data"])
    full = (["row_names"] if rn else []) + names
    con = sqlite3.connect(c.d + "/" + db)
    con.execute("create table other(z)")
    con.execute("insert into other values(17)")
    if exists:
        ocols = full if exists in "da" else ["q", "w"]
        con.execute("create table %s (%s)" % (tab, ", ".join("'%s' numeric" % x for x in ocols)))
        for i in range(r.randint(0, 3)):
            old.append([float(i)] * len(ocols))
            con.execute("insert into %s values (%s)" % (tab, ",".join("?" * len(ocols))), old[-1])
        if exists != "n" or r.random() < .5:
            args.append("-e" + exists)
    elif r.random() < .2:
        args.append("-e" + r.choice("ndoa"))
    con.commit()
    con.close()
    rc, out, err = c.run("apop_text_to_db", args + ["-" if stdin else "in.txt", tab, db], blob.encode() if stdin else b"")
    if rc < 0:
        return
    con = sqlite3.connect(c.d + "/" + db)
    try:
        got = [list(x) for x in con.execute("select * from %s order by rowid" % tab)]
        cn = [x[1] for x in con.execute("pragma table_info(%s)" % tab)]
        if exists == "n":
            c.check([list(map(float, x)) for x in got] == old, "exists-n", "-en changed the table: %r" % got[:3])
            c.check("exists" in err, "message", "no word of the table existing: %r" % err)
            c.ev("tables_left_alone")
            return
        want = (old if exists == "a" else []) + data
        cn = [x.rstrip(" ") for x in cn] if fixed else cn
        c.check(cn == full, "columns", "columns %r, expected %r" % (cn, full))
        if c.check(len(got) == len(want), "rows", "%d rows, expected %d; %r" % (len(got), len(want), got[:3])):
            for g, w in zip(got, want):
                g = [x.rstrip(" ") if fixed and isinstance(x, str) else x for x in g]
                ok = len(g) == len(w) and all(same(a, b) for a, b in zip(g, w))
                if not c.check(ok, "cells", "row %r, expected %r" % (g, w)):
                    break
                c.ev("rows_read_back")
        c.check([tuple(x) for x in con.execute("select * from other")] == [(17,)], "others", "another table changed")
        c.check(rc == 0, "status", "status %d" % rc)
    except sqlite3.Error as e:
        c.check(False, "table", "no table as asked: %s; stderr %r" % (e, err[:300]))
    finally:
        con.close()
    c.check(sorted(os.listdir(c.d)) == ["in.txt", "the.db"], "files", "files left: %r" % os.listdir(c.d))


def mkdb(c, cats=False):
    r = c.r
    con = sqlite3.connect(c.d + "/the.db")
    rows = []
    if cats:
        con.execute("create table t (a text, b numeric, v numeric)")
        ra = r.sample(["x", "yy", "apple", "Pear", "b 2", "z-z"], r.randint(1, 5))
        rb = r.sample([1, 2, 10, -3, 4.5, 0], r.randint(1, 5))
        for a in ra:
            for b in rb:
                if r.random() < .8:
                    rows.append((a, b, r.choice([r.randint(-50, 50), round(r.uniform(-9, 9), 3), r.randint(1000, 90000)])))
        r.shuffle(rows)
        if not rows:
            rows.append((ra[0], rb[0], 3))
    else:
        con.execute("create table t (a numeric, b numeric, c numeric)")
        for i in range(r.choice([1, 2, 5, 30, 120])):
            rows.append(tuple(None if r.random() < .04 and j else float(c.value()) for j in range(3)))
    con.executemany("insert into t values (?,?,?)", rows)
    con.commit()
    con.close()
    c.sig.update(repr(rows).encode())
    return rows


def close(a, b, absol=1e-6):
    if math.isnan(b):
        return math.isnan(a)
    return abs(a - b) <= absol + 1e-5 * abs(b)


def f_crosstab(c):
    r = c.r
    rows = mkdb(c, True)
    before = rows
    kind = r.choice(["abv", "abv", "abv", "bav", "count", "one", "onecount", "where"])
    dl = r.choice([None, None, ",", ";", " | ", "::"])
    tab, ra, rb, val = "t", "a", "b", "v"
    use = rows
    num = {}
    if kind == "where":
        cut = r.choice(rows)[2]
        tab = "t where v <= %r" % cut
        use = [x for x in rows if x[2] <= cut]
    if kind == "bav":
        ra, rb = "b", "a"
    args = [tab, ra, rb, val]
    if kind == "count":
        args = [tab, "a", "b"]
        val = None
    if kind in ("one", "onecount"):
        seen = {}
        for x in rows:
            seen[x[0]] = x
        if kind == "one":       # a single dimension: sum over the other
            args = ["t", "a", "1", "sum(v)"]
        else:
            args = ["t", "a"]
    want = {}
    for a, b, v in use:
        k = (a, b) if ra == "a" else (b, a)
        if kind == "count":
            want[k] = want.get(k, 0) + 1
        elif kind == "one":
            want[(a, 1)] = want.get((a, 1), 0) + v
        elif kind == "onecount":
            want[(a, 1)] = want.get((a, 1), 0) + 1
        else:
            want[k] = v
    opts = []
    if dl:
        opts = ["-d" + dl]
    if r.random() < .2:
        opts.append("-v")
    rc, out, err = c.run("apop_db_to_crosstab", opts + ["the.db"] + args)
    if rc < 0:
        return
    lab = lambda x: str(int(x)) if isinstance(x, float) and x == int(x) else str(x)
    lines = [l for l in out.split("\n") if l.strip()]
    rl, cl = sorted(set(lab(k[0]) for k in want)), sorted(set(lab(k[1]) for k in want))
    if not c.check(len(lines) == len(rl) + 1, "shape", "%d lines for %d rows: %r" % (len(lines), len(rl), out[:300])):
        return
    d = dl if dl else "\t"
    if r"" == d.strip() and d != "\t":
        d = None
    head = [x.strip() for x in lines[0].split(d)]
    head = [x for x in head if x]
    c.check(sorted(head) == cl, "columns", "columns %r, expected %r" % (head, cl))
    got = {}
    for l in lines[1:]:
        f = [x.strip() for x in l.split(d)]
        if not c.check(len(f) == len(head) + 1, "fields", "line %r has %d fields" % (l, len(f))):
            return
        for h, x in zip(head, f[1:]):
            try:
                got[(f[0], h)] = float(x)
            except ValueError:
                c.check(False, "cells", "cell %r" % x)
                return
    w2 = {(lab(k[0]), lab(k[1])): v for k, v in want.items()}
    for i in rl:
        for j in cl:
            g = got.get((i, j))
            w = w2.get((i, j), 0)
            c.check(g is not None and close(g, w), "cells", "cell (%s, %s) is %r, expected %r\n%s" % (i, j, g, w, out[:400]))
            c.ev("cells")
    con = sqlite3.connect(c.d + "/the.db")
    c.check(list(con.execute("select * from t order by rowid")) == before, "input", "the table was changed")
    c.check([x[0] for x in con.execute("select name from sqlite_master")] == ["t"], "input", "tables left in the database")
    con.close()
    c.check(rc == 0, "status", "status %d" % rc)
    c.check(os.listdir(c.d) == ["the.db"], "files", "files left: %r" % os.listdir(c.d))


def f_plot(c):
    r = c.r
    rows = mkdb(c)
    k = r.randint(1, 3)
    cols = r.sample(range(3), k)
    q = "select %s from t" % ", ".join("abc"[j] for j in cols)
    use = list(rows)
    if r.random() < .3:
        m = r.choice(rows)[0]
        q += " where a <= %r" % m
        use = [x for x in rows if x[0] <= m]
    if r.random() < .3:
        q += " order by a, b, c"
        use.sort(key=lambda x: tuple((y is not None, y or 0) for y in x))
    want = [[float("nan") if x[j] is None else x[j] for j in cols] for x in use]
    args = []
    no_plot = r.random() < .25
    hist = None if no_plot or r.random() < .6 else r.choice([0, 1, 3, 10, 50])
    if hist is not None:       # the first column is the one binned
        if cols[0] != 0:
            cols = [0] + [j for j in cols if j]
            q = "select %s from t" % ", ".join("abc"[j] for j in cols)
            use = rows
            want = [[float("nan") if x[j] is None else x[j] for j in cols] for x in use]
        args.append("-H%d" % hist)
    typ = r.choice([None, "points", "boxes linetype 3"])
    if typ:
        args += ["-t", typ]
    if no_plot:
        args.append("-n")
    tofile = not no_plot and r.random() < .4
    if not no_plot or r.random() < .5:
        args += ["-fplot.gp"] if tofile else ["-f-"]
    how = r.randint(0, 3)
    if how == 0:
        args += ["the.db", q]
    elif how == 1:
        args += ["-d", "the.db", "-q", q]
    elif how == 2:
        qq = re.sub(" from ", "\n from\n" + " " * r.choice([0, 0, 1500]), q)
        with open(c.d + "/q.sql", "w") as f:
            f.write(qq + ("\n" if r.random() < .7 else "") + (";" if r.random() < .2 else ""))
        args += ["-d", "the.db", "-Q", "q.sql"]
    else:
        args += ["-dthe.db", q]
    rc, out, err = c.run("apop_plot_query", args)
    if rc < 0:
        return
    if tofile:
        c.check(out == "", "stdout", "printed %r with a file to write to" % out[:100])
        try:
            out = open(c.d + "/plot.gp").read()
        except OSError:
            c.check(False, "file", "no file written")
            return
    lines = [l for l in out.split("\n") if l.strip()]
    if no_plot:
        c.check(lines and sorted(lines[0].split()) == sorted("abc"[j] for j in cols), "head", "heading %r" % lines[:1])
        body = lines[1:]
    else:
        style = "impulses" if hist is not None else typ or "lines"
        top = (["set key off"] if hist is not None else []) + ["plot '-' with " + style]
        c.check([re.sub(r"\s*;?\s*$", "", l) for l in lines[:len(top)]] == top, "command", "plot command %r" % lines[:2])
        body = lines[len(top):]
        if hist is not None:
            c.check(body and body[-1] == "e", "end", "no end of data: %r" % body[-1:])
            body = body[:-1]
    try:
        got = [[float(x) for x in l.split()] for l in body]
    except ValueError:
        c.check(False, "data", "not numbers: %r" % body[:3])
        return
    c.check(rc == 0, "status", "status %d" % rc)
    if hist is None:
        if c.check(len(got) == len(want), "rows", "%d rows, expected %d" % (len(got), len(want))):
            for g, w in zip(got, want):
                if not c.check(len(g) == len(w) and all(close(a, b, 6e-7) for a, b in zip(g, w)), "data", "row %r, expected %r" % (g, w)):
                    break
                c.ev("rows_plotted")
    else:
        xs = [x[0] for x in want]
        c.ev("histograms")
        if c.check(all(len(g) == 2 for g in got), "hist", "lines %r" % body[:3]):
            c.check(sum(g[1] for g in got) == len(xs), "hist-total", "%g in the bins, of %d" % (sum(g[1] for g in got), len(xs)))
            c.check(all(a[0] < b[0] for a, b in zip(got, got[1:])) or max(map(abs, xs)) > 1e5 or max(xs) - min(xs) < 1e-3, "hist-order", "bins not in order: %r" % got[:5])
            c.check(hist == 0 or len(got) <= hist, "hist-bins", "%d bins, %d asked for" % (len(got), hist))
            lo, hi = min(xs), max(xs)
            n = hist or int(math.sqrt(len(xs)))
            if hist and hi > lo:
                width = (hi - lo) / n
                slack = 1e-6 + 1e-5 * max(abs(lo), abs(hi))
                if width > 20 * slack:
                    for g in got:       # each bin's count, with room at the edges
                        a = sum(1 for x in xs if g[0] + slack < x < g[0] + width - slack)
                        b = sum(1 for x in xs if g[0] - slack <= x <= g[0] + width + slack)
                        if not c.check(a <= g[1] <= b, "hist-count", "bin at %g holds %g, expected %d to %d" % (g[0], g[1], a, b)):
                            break
    con = sqlite3.connect(c.d + "/the.db")
    c.check(list(con.execute("select * from t order by rowid")) == rows, "input", "the table was changed")
    con.close()
    left = sorted(os.listdir(c.d))
    c.check(left == sorted(["the.db"] + (["plot.gp"] if tofile else []) + (["q.sql"] if how == 2 else [])), "files", "files left: %r" % left)


def f_broken(c):
    r = c.r
    rows = mkdb(c)
    with open(c.d + "/in.txt", "w") as f:
        f.write("a,b,c\n1,2,3\n4,5,6\n")
    kind = r.randint(0, 17)
    long = "x" * r.choice([120, 1000, 6000])
    P, X, T = "apop_plot_query", "apop_db_to_crosstab", "apop_text_to_db"
    # (program, arguments, whether something must be said about it)
    table = [
        (T, [], 1), (T, ["-h"], 1), (T, ["in.txt"], 1), (T, ["-r", "in.txt"], 1), (T, ["-d", ",", "in.txt", "tab"], 1),
        (T, ["nofile", "tab", "out.db"], 1), (T, ["-d" + long, "in.txt", "tab", "out.db"], 0),
        (T, ["in.txt", r.choice(["bad name here", "select", "a;b"]), "out.db"], 1),
        (X, [], 1), (X, ["the.db"], 1), (X, ["-h"], 1), (X, ["the.db", "nosuch", "a", "b", "c"], 1),
        (X, ["-d" + long, "the.db", "t", "a", "b", "c"], 0), (X, [r.choice(["-v", "-v", ""]) or "-v", "the.db", "t", "a"], 1),
        (P, [], 1), (P, ["-f-", "the.db", r.choice(["select nosuch from t", "select a from nosuch", "not a query", "select a from t where 0"])], 1),
        (P, ["-f-", "-d", "the.db", "-Q", "nosuch.sql"], 1), (P, ["-f-", "-n", "-d", "the.db"], 1),
    ]
    prog, args, say = table[kind]
    rc, out, err = c.run(prog, args)
    if rc < 0:
        return
    c.ev("bad_command_lines")
    if say:
        c.check(out.strip() or err.strip(), "silent", "nothing said about: " + c.desc)
    con = sqlite3.connect(c.d + "/the.db")
    c.check(list(con.execute("select * from t order by rowid")) == rows, "input", "the table was changed")
    con.close()
    left = set(os.listdir(c.d)) - {"the.db", "in.txt", "out.db"}
    c.check(not left, "files", "stray files %r from: %s" % (sorted(left)[:3], c.desc))


def both(vbuild):
    """two cases in three with the sanitizers, one as shipped: optimised, with the C library's fortified functions"""
    a = vbuild.build_cmds("asan")
    return [a, a, vbuild.build_cmds("plain")]


def one(fam, seed, case, progs):
    c = Case(fam, seed, case, progs[case % 3])
    try:
        globals()["f_" + fam](c)
    finally:
        shutil.rmtree(c.d, ignore_errors=True)
    return c


def run(seed, thorough, vbuild):
    progs = both(vbuild)
    only = os.environ.get("VERIF_FAMILY")
    jobs = [(f, i) for f, q, t in FAMILIES if not only or only == f for i in range(t if thorough else q)]
    res = {"viol": [], "cases": [], "samples": [], "counters": {}}
    with ThreadPoolExecutor(8) as ex:
        for c in ex.map(lambda j: one(j[0], seed, j[1], progs), jobs):
            res["viol"] += c.viol
            res["cases"].append((c.sig.hexdigest()[:16], True))
            if c.case < 2:
                res["samples"].append("%s case %d: %s" % (c.fam, c.case, c.desc))
            for k, n in list(c.ctr.items()) + [("oracle_checks", c.checks)]:
                res["counters"][k] = res["counters"].get(k, 0) + n
    return res


def replay(fam, seed, case, vbuild):
    c = one(fam, seed, case, both(vbuild))
    return ["%s: %s" % (c.fam, c.desc)] * bool(c.viol) + ["replayed: property=C35 %s\n%s" % (v[3], v[4]) for v in c.viol]
