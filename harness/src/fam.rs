//! Enumeration families for documents. Every family is a finite, index-addressed set.
use crate::engine::{Case, Fam, Outcome};

pub fn fam_docs(name: &str, bound: &str, docs: Vec<String>) -> Fam {
    Fam { name: name.into(), bound: bound.into(), n: docs.len() as u64, gen: Box::new(move |i| Case::Doc(docs[i as usize].clone())) }
}
pub fn pow_sum(k: u64, lo: u32, hi: u32) -> u64 { (lo..=hi).map(|d| k.pow(d)).sum() }
/// i-th sequence over 0..k with length lo..=hi, shortest first
pub fn seq(mut i: u64, k: u64, lo: u32, hi: u32) -> Vec<usize> {
    for d in lo..=hi {
        let n = k.pow(d);
        if i < n {
            let mut v = vec![0; d as usize];
            for j in (0..d as usize).rev() { v[j] = (i % k) as usize; i /= k }
            return v;
        }
        i -= n;
    }
    unreachable!()
}
pub fn toks<F: Fn(&[&'static str]) -> String + Sync + Send + 'static>(name: &str, bound: &str, al: Vec<&'static str>, lo: u32, hi: u32, f: F) -> Fam {
    let k = al.len() as u64;
    Fam { name: name.into(), bound: format!("{} ({} symbols, length {}..={})", bound, k, lo, hi), n: pow_sum(k, lo, hi),
        gen: Box::new(move |i| { let v: Vec<&'static str> = seq(i, k, lo, hi).into_iter().map(|x| al[x]).collect(); Case::Doc(f(&v)) }) }
}

pub fn chars(n: u32) -> Fam {
    toks("chars", "every string over the structural alphabet", vec!["a", "1", "=", "[", "]", "{", "}", "\"", "'", ",", ".", "#", "\n", " ", "\\", "-"], 0, n, |v| v.concat())
}
pub fn value_chars(n: u32) -> Fam {
    toks("value-chars", "`a=` followed by every string over the value alphabet",
        vec!["0", "1", "9", "+", "-", "_", ".", "e", "E", "\"", "'", "\\", "n", "\n", "[", "]", "{", "}", ",", "=", "a", " ", "#"], 1, n, |v| format!("a={}", v.concat()))
}
pub fn array_chars(n: u32) -> Fam {
    toks("array-chars", "`a=[` + every token string + `]\\nz=1`", vec!["1", "\"s\"", "1.5", "[", "]", "{", "}", "b=2", ",", " ", "\n", "#c\n", "\r\n"], 0, n, |v| format!("a=[{}]\nz=1", v.concat()))
}
pub fn inline_chars(n: u32) -> Fam {
    toks("inline-chars", "`a={` + every token string + `}\\nz=1`", vec!["b=1", "c = 2", "\"q\"='v'", "d=[", "]", "e={", "}", ",", " ", "\t", ", ", ",\n"], 0, n, |v| format!("a={{{}}}\nz=1", v.concat()))
}
pub fn string_chars(n: u32, ml: bool) -> Fam {
    if ml {
        toks("mlstring-chars", "`s = \"\"\"`/`'''` + every token string + closer, then another line",
            vec!["a", "\"", "\"\"", "'", "''", "\\\"", "\\\\", "\\n", "\\t", "\\u00e9", "\n", "\r\n", "\\\n", " ", "#", "\u{20ac}"], 0, n,
            |v| { let b = v.concat(); if b.len() % 2 == 0 { format!("s = \"\"\"{}\"\"\"\nz=1", b) } else { format!("s = '''{}'''\nz=1", b) } })
    } else {
        toks("string-chars", "`s = \"..\"`/`'..'` and quoted key, body = every token string",
            vec!["a", "'", "\\\"", "\\\\", "\\/", "\\b", "\\t", "\\x", "\\u00E9", "\\u00e9", "\\U0001F600", "\\u12G4", " ", "#", "=", "]", "\u{1F600}", "\""], 0, n,
            |v| { let b = v.concat(); match b.len() % 3 { 0 => format!("s = \"{}\"\nz=1", b), 1 => format!("s = '{}'\nz=1", b), _ => format!("\"{}\" = 1\n[t.\"{}\"]\nz=1", b, b) } })
    }
}
pub fn dates_chars(n: u32) -> Fam {
    toks("date-chars", "`a=2012-02-29` variants: every sequence of date-time fragments", vec!["2012-02-29", "2011-02-29", "1985-13-01", "T", "23:59:59", "24:00:00", "07:32", ":", "00", ".", "5", "123456789012345678901", "Z", "+", "-", "08:00", "24:00", "[", "]", ","], 1, n, |v| format!("a={}\nz=1", v.concat()))
}
pub fn tokens(n: u32) -> Fam {
    toks("tokens", "every token sequence", vec!["a", "b", "\"k\"", " = ", "1", "1.5", "true", "\"s\"", "'l'", "\"\"\"m\nn\"\"\"", "[", "]", "[[", "]]", "{", "}", ", ", ".", "\n", "\r\n", " ", "# c", "2010-01-02", "2010-13-02"], 0, n, |v| v.concat())
}
pub const STRUCT: &[&str] = &["[a]", "[b]", "[a.b]", "[[a]]", "[[a.b]]", "[[b]]", "[a.b.c]", "x = 1", "b = 2", "a = {b = 1, c = [1]}",
    "[[ab]]", "[a.c]", "[b.a]", "[[a.b.c]]", "a = 3", "b = [1, 2]", "[ab]", "[[a.c]]"];
/// table/key structure: every sequence of header and key/value lines
pub fn lines(k: usize, n: u32) -> Fam {
    toks("lines", "every sequence of header / key-value lines", STRUCT[..k].to_vec(), 0, n, |v| v.join("\n"))
}
pub fn lines_deep(n: u32) -> Fam {
    toks("lines-deep", "every sequence over arrays of tables nested two/three deep", vec!["[[a]]", "[[a.b]]", "[a.b.c]", "[[a.b.c]]", "[a.d]", "x = 1"], 1, n, |v| v.join("\n"))
}
pub fn lines_quoted(n: u32) -> Fam {
    toks("lines-quoted", "every sequence over quoted, prefixed and index-like table names", vec!["[\"a.b\"]", "[a.\"b c\"]", "[[\"a[0]\"]]", "[a]", "[[a.\"b c\"]]", "x = 1", "\"x y\" = 2", "[ a . \"b c\" . d ]", "\"a.b\" = 3"], 1, n, |v| v.join("\n"))
}
pub const ERRLINES: &[&str] = &["a = 1", "[t]", "[[s]]", "b = [1, \"x\"]", "d = 2010-02-30", "c = {k = 1, k = 2}", "e = [[1, 'a'], [2010-13-01, 2]]", "f = {g = [1, 2.0], h = 2011-01-01T25:00:00}",
    "a = 2010-99-99", "b = [1.5, 1.5]", "[t.u]", "c = [{k = 1, k = [1, true]}, {k = 2}]", "", "a = [{x=1}, 3, {x=2}]", "bb = [true, 1]", "d = [ # c\n 1,\n 'x'\n]"];
/// error reporting: duplicates, invalid tables, mixed arrays, invalid dates and their combinations
pub fn err_lines(k: usize, n: u32) -> Fam { toks("error-lines", "every sequence of lines that define, redefine and break things", ERRLINES[..k].to_vec(), 1, n, |v| v.join("\n")) }
/// line counting: constructs that span lines, in every order, followed by an error
pub fn line_count(n: u32) -> Fam {
    let al = vec!["", "# c", "k@ = 1", "k@ = \"\"\"\na\n\"\"\"", "k@ = '''a\r\nb'''", "k@ = [\n1,\n2]", "k@ = [ # c\n # d\n\n 1 , # e\n]", "k@ = {a = 1,\n b = [\n]}", "[t@]", "k@ = [[\"\"\"\n\"\"\"],\n['x']\n]", "k@ = [\r\n\r\n]", "k@ = \"\"\"\\\n x\"\"\""];
    let ends: Vec<&'static str> = vec!["e = 1\ne = 2", "e = [1,\n'a']", "e = 2010-02-30", "[q]\n[q]\nx = 1", "!!", "e = [\n!", "e = \"\"\"\n\nx", "e = {a = 1,\na = 2}\n\n?", "[[q]\n", "e = [\n2010-02-30,\n\n2010-02-31\n]"];
    let k = al.len() as u64;
    let m = ends.len() as u64 * 2;
    Fam { name: "line-count".into(), bound: format!("every sequence of {} (multi-)line constructs, length 0..={}, x {} closing errors x LF/CRLF separators", k, n, ends.len()), n: pow_sum(k, 0, n) * m,
        gen: Box::new(move |i| {
            let e = ends[((i % m) / 2) as usize];
            let sep = if i % 2 == 0 { "\n" } else { "\r\n" };
            let v = seq(i / m, k, 0, n);
            let mut s = String::new();
            for (j, x) in v.iter().enumerate() { s.push_str(&al[*x].replace('@', &j.to_string())); s.push_str(sep) }
            s.push_str(e);
            Case::Doc(s)
        }) }
}

pub fn scalars() -> Vec<&'static str> {
    vec!["0", "1", "-1", "+99", "1_000", "12_3_4", "-0", "9223372036854775807", "3.0", "-0.5", "1e5", "6.02_2e+2_3", "-1E-9", "+1.5e1", "true", "false",
        "\"\"", "\"a b\"", "\"\\\"q\\\"\"", "\"\\u00E9\\t\"", "\"# no\"", "''", "'l\\'", "'\"'", "\"\"\"\"\"\"", "\"\"\"m\"\"\"", "\"\"\"a\nb\"\"\"", "\"\"\"a\\\n  b\"\"\"", "''''''", "'''x'y'''", "'''p\r\nq'''",
        "1979-05-27", "2000-02-29", "1979-05-27T07:32:00", "1979-05-27T07:32:00Z", "1979-05-27T00:32:00.999999", "1979-05-27T00:32:00.5-07:00", "9999-12-31T23:59:59+23:59"]
}
/// structured values in every small shape and every formatting of the separators
pub fn values(thorough: bool) -> Fam {
    let s = scalars();
    let few = ["1", "-2.5e3", "\"s, ]\"", "'l'", "true", "1979-05-27T07:32:00Z", "\"\"\"m\nm\"\"\"", "[]", "{}"];
    let mut v: Vec<String> = s.iter().map(|x| x.to_string()).collect();
    let seps = [",", ", ", " ,", " , ", ",\n", ", # c\n  ", ",\r\n\t", "\t,\t"];
    let opens = ["", " ", "\n", " # c]\n ", "\r\n", "\n\n# d\n\n"];
    let closes = ["", " ", "\n", ",", ", ", ",\n", " # e\n", " , # f\r\n", " # g\n# h\n "];
    // arrays
    for o in opens { for c in ["", " ", "\n", " # e\n"] { v.push(format!("[{}{}]", o, c)) } }
    for x in few { for o in opens { for c in closes { v.push(format!("[{}{}{}]", o, x, c)) } } }
    for x in few { for y in few { for sp in seps { for (o, c) in [("", ""), (" ", " "), ("\n", ",\n"), ("", " # z\n")] { v.push(format!("[{}{}{}{}{}]", o, x, sp, y, c)) } } } }
    for s1 in seps { for s2 in seps { for o in opens { for c in closes { v.push(format!("[{}1{}2{}3{}]", o, s1, s2, c)) } } } }
    // inline tables
    let isep = [",", ", ", " ,", " , ", ",\n", ", # c\n"];
    for o in ["", " ", "\t"] { for c in ["", " ", "\t "] { v.push(format!("{{{}{}}}", o, c)); for x in few { for e in ["=", " = ", "= ", "\t=\t"] { v.push(format!("{{{}k{}{}{}}}", o, e, x, c)) } } } }
    for x in few { for y in few { for sp in isep { v.push(format!("{{ k = {}{}\"k 2\" = {} }}", x, sp, y)) } } }
    for sp in isep { for sq in isep { for o in ["", " "] { for c in ["", " "] { v.push(format!("{{{}k=1{}l=2{}m=3{}}}", o, sp, sq, c)) } } } }
    // nesting
    let lvl1 = ["[1, 2]", "[ 'a' ,\n'b', ]", "{a = 1}", "{ a = [1], b = {c = 2} }", "[[1], ['x']]", "[{a = 1}, {a = 2}]", "[]", "{}", "[ # c\n]", "[1]"];
    for x in lvl1 { for y in lvl1 {
        v.push(format!("[{}, {}]", x, y));
        v.push(format!("{{p = {}, q = {}}}", x, y));
        v.push(format!("[[{}], [{},]]", x, y));
        v.push(format!("[{{p = {}}}, {{p = {}}}]", x, y));
        v.push(format!("{{p = {{q = {}}}, r = [{}]}}", x, y));
    } }
    if thorough {
        for x in lvl1 { for y in lvl1 { for z in lvl1 { for sp in seps { v.push(format!("[{}{}{}{}{}]", x, sp, y, sp, z)); v.push(format!("{{p = {}, q = [{}{}{}]}}", x, y, sp, z)) } } } }
        for x in &s { for y in &s { v.push(format!("[{}, {}]", x, y)); v.push(format!("{{p = {}, q = {}}}", x, y)) } }
    }
    let mut docs = vec![];
    for x in &v {
        docs.push(format!("a = {}", x));
        docs.push(format!("a={}\n[t]\nb\t= {} # c\n", x, x));
        docs.push(format!("[[t]]\r\n  \"q k\" = {}\r\nz = 1\r\n[[t]]\r\nz = 2", x));
    }
    fam_docs("values", "every value shape (scalars; arrays/inline tables up to 3 elements; nesting to 3) x separators/comments/newlines x 3 document contexts", docs)
}

/// whitespace, comments and newline style in every slot of a fixed document skeleton
pub fn format_slots() -> Fam {
    let ws: Vec<&'static str> = vec!["", " ", "\t", " \t "];
    let cm: Vec<&'static str> = vec!["", "#", "# c = [1] \"", "\t# x\ty"];
    let nl: Vec<&'static str> = vec!["\n", "\r\n", "\n\n", "\r\n \t\n"];
    // slots: 0 lead ws,1 key/eq,2 eq/val,3 trail,4 comment,5 nl,6 header inner ws,7 dot ws,8 header trail,9 comment
    let dims: Vec<u64> = vec![4, 4, 4, 4, 4, 4, 4, 4];
    let n: u64 = dims.iter().product::<u64>() * 3;
    Fam { name: "format-slots".into(), bound: "4 choices in each of 8 whitespace/comment/newline slots x 3 skeletons".into(), n,
        gen: Box::new(move |mut i| {
            let t = i % 3; i /= 3;
            let mut c = vec![];
            for d in &dims { c.push((i % d) as usize); i /= d }
            let s = match t {
                0 => format!("{}k{}={}1{}{}{}[{}t{}.{}u{}]{}{}", ws[c[0]], ws[c[1]], ws[c[2]], ws[c[3]], cm[c[4]], nl[c[5]], ws[c[6]], ws[c[7]], ws[c[7]], ws[c[6]], ws[c[3]], cm[c[4]]),
                1 => format!("{}[[{}t{}.{}\"u v\"{}]]{}{}{}{}k = 'x'{}", cm[c[4]], ws[c[0]], ws[c[1]], ws[c[2]], ws[c[3]], ws[c[6]], cm[c[7]], nl[c[5]], ws[c[0]], nl[c[5]]).replacen("#", if c[4] == 0 { "#" } else { "#\n#" }, 0),
                _ => format!("k = {{{}a{}={}1{},{}b = 2{}}}{}{}{}q=[{}1{},{}2{}]{}", ws[c[0]], ws[c[1]], ws[c[2]], ws[c[3]], ws[c[6]], ws[c[7]], ws[c[0]], cm[c[4]], nl[c[5]], ws[c[1]], ws[c[2]], ws[c[3]], ws[c[6]], nl[c[5]]),
            };
            Case::Doc(s)
        }) }
}

/// sizes: many elements, deep nesting, long lexemes, many lines
pub fn scale(max: usize, depth: usize) -> Fam { scale_at("scale", (0..=max).collect(), depth) }
/// sizes around the powers of two and ten
pub fn sizes(th: bool) -> Fam {
    let mut n = vec![63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257];
    if th { n.extend([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]) }
    scale_at("sizes", n, 0)
}
fn scale_at(name: &str, ns: Vec<usize>, depth: usize) -> Fam {
    let mut d = vec![];
    for &n in &ns {
        let ints: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        d.push(format!("a = [{}]", ints.join(", ")));
        d.push(format!("a = [{}]\nb = 1", ints.iter().map(|i| format!("\n  {} # n{}", i, i)).collect::<Vec<_>>().join(",").replace(" # n", ", # n").replace(",,", ",")));
        d.push(format!("a = [{}]", ints.iter().map(|i| format!("[{}, {}]", i, i)).collect::<Vec<_>>().join(",")));
        d.push(format!("a = {{{}}}", ints.iter().map(|i| format!("k{} = {}", i, i)).collect::<Vec<_>>().join(", ")));
        d.push(format!("a = [{}]", ints.iter().map(|i| format!("{{x = {}, y = ['{}']}}", i, i)).collect::<Vec<_>>().join(", ")));
        d.push(ints.iter().map(|i| format!("[[t]]\nx = {}\n", i)).collect::<Vec<_>>().concat());
        d.push(ints.iter().map(|i| format!("[[t]]\nx = {}\n[[t.u]]\ny = {}\n[[t.u]]\ny = 'b'\n[t.v]\nw = {}\n", i, i, i)).collect::<Vec<_>>().concat());
        d.push(ints.iter().map(|i| format!("[t{}]\nx = {}\n", i, i)).collect::<Vec<_>>().concat());
        d.push(ints.iter().map(|i| format!("[t.u.v{}]\nx{} = {}\n", i, i, i)).collect::<Vec<_>>().concat());
        d.push(ints.iter().map(|i| format!("k{} = \"v{}\"\r\n", i, i)).collect::<Vec<_>>().concat());
        d.push(format!("{}a = 1{}", "\n".repeat(n), "\n".repeat(n)));
        d.push(format!("{}a{}={}1{}# {}", " ".repeat(n), "\t".repeat(n), " ".repeat(n), " ".repeat(n), "c".repeat(n)));
        d.push(format!("{} = \"{}\"\n'x", "k".repeat(n + 1), "v\\n".repeat(n)));
        d.push(format!("a = {}{}\nb = 0.{}1\nc = 1979-05-27T07:32:00.{}1Z", "1".repeat(n + 1), "_0".repeat(n), "0".repeat(n), "9".repeat(n)));
        d.push(format!("a = '''{}'''\nb = \"\"\"{}\"\"\"\na = 1", "x\n".repeat(n), "\\\n".repeat(n)));
        d.push(format!("x = 1\n{}x = 2", "# c\n".repeat(n)));
        d.push(format!("a = [{}'s']", "1, ".repeat(n)));
        d.push(format!("a = ['s'{}]", ", 1".repeat(n)));
        d.push(format!("a = [{}'s'{}]", "1, ".repeat(n / 2), ", 1".repeat(n - n / 2)));
        d.push(format!("a = [1 2{}]\nz = 1", ", 1".repeat(n)));
        d.push(format!("a = [1{} 2]\nz = 1", ", 1".repeat(n)));
        d.push(format!("a = [1,, 2{}]\nz = 1", ", 1".repeat(n)));
        d.push(format!("a = [1{},, 2]\nz = 1", ", 1".repeat(n)));
        d.push(format!("a = [{}1{}]\nz = 1", "[2001-02-29], ".repeat(n / 2), ", 1".repeat(n - n / 2)));
        d.push(format!("a = [{}1979-13-01]\nz = 1", "1979-12-01, ".repeat(n)));
        d.push(format!("a = [1979-13-01{}]\nz = 1", ", 1979-12-01".repeat(n)));
        d.push(format!("a = [{}]\nz = 1", (0..n).map(|i| format!("\n1979-13-{:02}", i % 40)).collect::<Vec<_>>().join(",")));
        let kv = |a: usize, b: usize| (a..b).map(|i| format!("k{} = {}", i, i)).collect::<Vec<_>>().join(", ");
        d.push(format!("a = {{{}, k0 = 'x'}}\nz = 1", kv(0, n + 1)));
        d.push(format!("a = {{k{} = 'x', {}}}\nz = 1", n, kv(0, n + 1)));
        d.push(format!("a = {{x = 1, x = 'x', {}}}\nz = 1", kv(0, n + 1)));
        d.push(format!("a = {{x = 1 y = 'x', {}}}\nz = 1", kv(0, n + 1)));
        d.push(format!("a = {{{} y = 'x'}}\nz = 1", kv(0, n + 1)));
        d.push(format!("{}\nk0 = 'x'\nk{} = 'y'\n", kv(0, n + 1).replace(", ", "\n"), n));
        d.push(format!("[t]\n{}\n[t.u]\nk = 1\n[t]\n", kv(0, n + 1).replace(", ", "\n")));
        d.push(format!("{}[t0]\nx = 1\n[t{}]\ny = 2\n", (0..=n).map(|i| format!("[t{}]\nk = {}\n", i, i)).collect::<String>(), n));
        d.push(format!("[t]\nx = 1\n{}z = 1\n", (0..n).map(|i| format!("[t]\nk{} = {}\n", i, i)).collect::<String>()));
        d.push(format!("{}[t]\n[[t.x]]\n", (0..=n).map(|i| format!("[[t]]\nx = {}\n", i)).collect::<String>()));
        d.push(format!("{}[t]\n[[t.x]]\n", "[[t]]\n[[t.u]]\n".repeat(n)));
        d.push(format!("{}[t]\n[[t.x]]\n", "[[t]]\n[t.u]\n[t.u.v]\n[[t.u.w]]\n".repeat(n)));
        d.push(format!("{}[t]\n[t.u.w.x.y]\n", "[[t]]\n[t.u]\n[t.u.v]\n[[t.u.w]]\n[[t.u.w]]\n[[t.u.w.x]]\n".repeat(n)));
        d.push(format!("{}[t]\n[t.u.w.x.y]\n", "[[t]]\n[t.u]\n[t.u.v]\n[[t.u.w]]\n[[t.u.w]]\n[[t.u.w.x]]\nk = 1\nk = 2\n".repeat(n)));
        d.push(format!("{}[t]\n[t.u.w.x]\n", "[[t]]\n[t.u]\n[t.u.v]\n[t.u.v]\n[t.u.v.w.x.y.z]\nk = {}\n".repeat(n)));
        d.push(format!("{}[t]\n{}", "[[t]]\nk = 1\n[t.k]\nz = 1\n[[t.k]]\nl = [ 1, 'x']\n".repeat(n), "[t.k]\n".repeat(n)));
        // tables of every kind come before the key-value pairs of their parent, whose next subtable is refused
        for h in ["[t.s{}]\n", "[t.s{}.u]\n", "[[t.s{}]]\n", "[[t.s{}]]\nk = 1\n", "[t.s{}]\nk = 1\n"] {
            for tail in ["[t.x]\ny = 1\n", "[t.s0]\ny = 1\n", "[[t.x]]\ny = 1\n", "[t]\nx = 2\n", "[t.k.z]\ny = 1\n"] { d.push(format!("{}[t]\nk = 1\nl = 2\n{}", (0..n).map(|i| h.replace("{}", &i.to_string())).collect::<String>(), tail)) }
        }
        d.push(format!("{}[t]\n[t]\n{}", "k = [1,\n2]\n[u]\n".repeat(n.min(1)), (0..n).map(|i| format!("k{} = {}\n", i, i)).collect::<String>()));
    }
    for n in 1..=depth {
        d.push(format!("a = {}1{}\nb = 2", "[".repeat(n), "]".repeat(n)));
        d.push(format!("a = {}{}", "[ ".repeat(n), " ]".repeat(n)));
        d.push(format!("a = {}1{}", "{k = ".repeat(n), "}".repeat(n)));
        d.push(format!("a = {}1{}", "[{k = ".repeat(n), "}]".repeat(n)));
        d.push(format!("[{}]\nx = 1", vec!["t"; n].join(".")));
        d.push(format!("[[{}]]\nx = 1\n[[{}]]\nx = 2", vec!["t"; n].join("."), vec!["t"; n].join(".")));
        d.push((1..=n.min(24)).map(|i| format!("[[{}]]\nx = {}\n", vec!["t"; i].join("."), i)).collect::<String>());
        d.push(format!("a = {}", "[".repeat(n)));
        d.push(format!("a = {}", "[[1,".repeat(n / 2 + 1)));
        d.push(format!("a = {}", "{a = ".repeat(n)));
        d.push(format!("a = {}1{}", "[".repeat(n), "]".repeat(n - 1)));
    }
    fam_docs(name, &format!("69 parametric documents, well-formed and erroneous, at {} sizes {}..={} and 11 nesting shapes at every depth up to {}", ns.len(), ns[0], ns[ns.len() - 1], depth), d)
}

/// hundreds of elements of one kind
pub fn crowds(th: bool) -> Fam {
    let mut d = vec![];
    for &n in if th { &[299usize, 301, 511, 513, 1023, 1025, 2047, 2049, 4097][..] } else { &[301usize, 513, 1025][..] } {
        let k = (0..n).map(|i| format!("k{} = {}", i, i)).collect::<Vec<_>>();
        d.push("[[t]]\n".repeat(n));
        d.push(format!("{}[t.u]\nx = 1\n", "[[t]]\n".repeat(n)));
        d.push(format!("[[t]]\n{}[t.u.v]\nx = 1\n[t.u]\n", "[[t.u]]\n".repeat(n)));
        d.push(format!("{}[t]\nx = 1\n", "[[t]]\n".repeat(n)));
        d.push(format!("a = [{}]\nb = 1\n", vec!["1"; n].join(",")));
        d.push(format!("a = [{}, 's']\nb = 1\n", vec!["1"; n].join(",")));
        d.push(format!("a = {{{}}}\nb = 1\n", k.join(",")));
        d.push(format!("{}\nk{} = 1\n", k.join("\n"), n - 1));
        d.push(format!("[t]\n{}\n[t.x]\n[t]\n", k.join("\n")));
        d.push(format!("{}[t]\nk = 1\n[t.x]\ny = 1\n", (0..n).map(|i| format!("[t.s{}]\n", i)).collect::<String>()));
        d.push(format!("{}", (0..n).map(|i| format!("[[t.s{}]]\n", i)).collect::<String>()));
        d.push(format!("a = 1\n{}b = 2\n", "a = 1\n".repeat(n)));
        d.push(format!("[t]\n{}b = 2\n", "[t]\nk = 1\n".repeat(n)));
        d.push(format!("a = [{}]\n", vec!["1979-02-30"; n].join(",")));
        d.push(format!("{}b = 2\n", "a = [1, 's']\n".repeat(n)));
    }
    let k = if th { 9 } else { 3 };
    fam_docs("crowds", &format!("15 documents with one kind of element repeated, at {} counts up to {}", k, if th { 4097 } else { 1025 }), d)
}

/// many lines before the construct that is reported
pub fn tall() -> Fam {
    let mut d = vec![];
    for n in [254usize, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000] {
        for nl in ["\n", "\r\n"] {
            let pre = [nl.repeat(n), format!("# c{}", nl).repeat(n), format!(" \t{}", nl).repeat(n), format!("s = \"\"\"{}\"\"\"{}", nl.repeat(n - 1), nl), format!("s = '''{}'''{}", nl.repeat(n - 1), nl), format!("s = [{}]{}", nl.repeat(n - 1), nl), format!("s = [1, {} 2]{}", format!("# c{}", nl).repeat(n - 1), nl), format!("[t]{}{}", nl, nl.repeat(n - 1))];
            for p in pre { for e in ["a = 1\na = 2\n", "a = [1, 'x']", "a = 2010-02-30", "[z]\n[z]\n", "!", "a = [\n1,\n!"] { d.push(format!("{}{}", p, e)) } }
        }
    }
    fam_docs("tall", "11 numbers of lines up to 70000 x 2 line ends x 8 ways to fill them x 6 reported endings", d)
}

/// something is defined, other things follow, and it is mentioned again: how far apart must not matter
pub fn recall(th: bool) -> Fam {
    let mut ns: Vec<usize> = (0..=18).collect();
    ns.extend([24, 25, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]);
    if th { ns.extend(19..=48); ns.extend([500, 511, 512, 513, 999, 1000, 1001, 1024, 1025]) }
    let ends = ["[a]\nk = 1\n", "[[a]]\nk = 1\n", "[a.x]\nk = 1\n", "[a.y]\nk = 2\n", "[[a.x]]\nk = 1\n", "[a.x.y]\nk = 1\n", "a = 1\n", "a = {x = [1]}\nb = [1, 'x']\n", "[\"a\".x]\nk = 1\n", "[[b]]\n[[b.a]]\nk = 1\n"];
    let fill: Vec<fn(usize) -> String> = vec![|i| format!("[f{}]\n", i), |_| "[[f]]\nq = 1\n".into(), |i| format!("f{} = 1\n", i), |i| format!("[g.f{}]\nq = [1]\n", i), |i| format!("[a.f{}]\nq = 1\n", i), |_| "[[a]]\nq = 1\n".into(), |i| format!("[a.x.f{}]\n", i), |i| format!("[b]\nk = [{}, 'x']\n", i), |i| format!("[[f.a.x]]\nf{} = {{a = 1}}\n", i), |_| "\n# c\n".into()];
    let (ne, nf, nn) = (ends.len() as u64, fill.len() as u64, ns.len() as u64);
    Fam { name: "recall".into(), bound: format!("{} definitions x {} kinds of lines in between x {} counts up to {} x {} mentions, and the first one once more", ne, nf, nn, ns[ns.len() - 1], ne), n: ne * ne * nf * nn,
        gen: Box::new(move |i| {
            let (x, y, f, n) = (i % ne, i / ne % ne, i / ne / ne % nf, i / ne / ne / nf);
            let (x, y) = (ends[x as usize], ends[y as usize]);
            let mid: String = (0..ns[n as usize]).map(fill[f as usize]).collect();
            Case::Doc(format!("{}{}{}{}", x, mid, y, x))
        }) }
}

/// long pieces of text in every lexical position
pub fn lengths(th: bool) -> Fam {
    let mut ns = vec![15usize, 16, 17, 18, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000];
    ns.extend(if th { vec![16384, 32767, 32768, 65535, 65536, 65537, 100000] } else { vec![65536] });
    let slots: Vec<fn(&str) -> String> = vec![
        |s| format!("a = \"\"\"\n{}\n{}\"\"\"\n", s, s), |s| format!("a = '''{}\r\n{}\n'''\n", s, s), |s| format!("a = \"{}\"\n", s), |s| format!("a = '{}'\n", s), |s| format!("# {}\n", s), |s| format!("a = 1 # {}\n", s), |s| format!("a = [ # {}\n1, # {}\n]\n", s, s), |s| format!("a = {{b = 1, # {}\nc = 2 }}\n", s),
        |s| format!("\"{}\" = 1\n", s), |s| format!("[t.\"{}\"]\nx = 1\n", s), |s| format!("a = \"{}\\u00e9{}\"\n", s, s), |s| format!("a = ['{}', \"{}\"]\n", s, s), |s| format!("a = {{\"{}\" = '{}'}}\n", s, s), |s| format!("[[\"{}\"]]\nx = 1\n[[\"{}\"]]\nx = 2\n", s, s), |s| format!("a = 1 {}\n", s), |s| format!("a = \"{}\n", s), |s| format!("{} = 1\n", s),
    ];
    // these repeat a piece of their own
    let own: Vec<fn(usize) -> String> = vec![
        |n| format!("a = {}\n", "1".repeat(n)), |n| format!("a = -1{}\n", "_0".repeat(n)), |n| format!("a = {}.5\n", "9".repeat(n)), |n| format!("a = 0.{}\n", "5".repeat(n)), |n| format!("a = 1e{}\n", "7".repeat(n)), |n| format!("a = 1.{}E-1{}\n", "0_1".repeat(n), "_2".repeat(n)), |n| format!("a = 2000-01-01T00:00:00.{}Z\n", "3".repeat(n)), |n| format!("a = 2000-01-01T00:00:00.{}\n", "0".repeat(n)),
        |n| format!("{} a{}={}1{}\n", " ".repeat(n), "\t".repeat(n), " ".repeat(n), " \t".repeat(n)), |n| format!("[{}t{}.{}u{}]{}\nx = 1\n", " ".repeat(n), "\t".repeat(n), " ".repeat(n), " ".repeat(n), "\t".repeat(n)), |n| format!("a = [{}1{},{}2{}]{}\n", " ".repeat(n), " ".repeat(n), "\t".repeat(n), " ".repeat(n), " ".repeat(n)), |n| format!("a = {{{}b{}={}1{},{}c = 2{}}}\n", " ".repeat(n), " ".repeat(n), "\t".repeat(n), " ".repeat(n), " ".repeat(n), " ".repeat(n)), |n| format!("a = \"{}\"\n", "\\n".repeat(n)), |n| format!("a = \"\"\"{}\"\"\"\n", "\\\n".repeat(n)), |n| format!("a = \"\"\"{}\"\"\"\n", "\" ".repeat(n)), |n| format!("a = \"{}\"\n", "\\U0001F600".repeat(n)),
    ];
    let cs = ["x", "\u{e9}", "\u{1F600}", "'\"", "k 1"];
    let mut d: Vec<(usize, usize, usize)> = vec![];
    for (k, _) in ns.iter().enumerate() { for s in 0..slots.len() { for c in 0..cs.len() { d.push((k, s, c)) } } for s in 0..own.len() { d.push((k, slots.len() + s, 0)) } }
    let ends = ["b = [1, 'x']\n", "z = 2010-02-30\n[q]\n[q]\n", ""];
    Fam { name: "lengths".into(), bound: format!("{} lengths up to {} x ({} places x {} texts + {} repeated pieces) x {} endings", ns.len(), ns[ns.len() - 1], slots.len(), cs.len(), own.len(), ends.len()), n: (d.len() * ends.len()) as u64,
        gen: Box::new(move |i| {
            let (k, s, c) = d[i as usize / ends.len()];
            let b = if s < slots.len() { slots[s](&cs[c].repeat(ns[k])) } else { own[s - slots.len()](ns[k]) };
            Case::Doc(format!("{}{}", b, ends[i as usize % ends.len()]))
        }) }
}

/// every Unicode scalar value in every context where text may appear
pub fn unicode() -> Fam {
    let mut all: Vec<char> = (0u32..=0x10FFFF).filter_map(char::from_u32).collect();
    let low: Vec<char> = all.iter().copied().filter(|c| (*c as u32) < 0x100).collect();
    all.retain(|c| (*c as u32) >= 0x80);
    let blocks: Vec<String> = all.chunks(64).map(|c| c.iter().collect()).collect();
    let ctx: Vec<fn(&str) -> String> = vec![
        |s| format!("# {}\na = 1", s), |s| format!("a = 1 #{}", s), |s| format!("a = \"{}\"", s), |s| format!("a = '{}'\nb = 1", s),
        |s| format!("a = \"\"\"{}\"\"\"\nb = 1", s), |s| format!("a = '''{}'''", s), |s| format!("\"{}\" = 1", s), |s| format!("[t.\"{}\"]\nx = 1", s),
        |s| format!("a = [1, # {}\n2]", s), |s| format!("{} = 1\nb = 2", s), |s| format!("a = {}\nb = 2", s), |s| format!("a = 1{}\nb = 2", s), |s| format!("[{}]", s), |s| format!("a = [1{}]", s), |s| format!("{{a = 1{}}}", s),
        |s| format!("a = 197{}-05-27", s), |s| format!("a = 1979-05-27T07:32:0{}", s), |s| format!("a = {}5", s), |s| format!("a = \"\\u000{}\"", s), |s| format!("a = 1.{}", s),
    ];
    let nb = blocks.len() as u64;
    let nc = ctx.len() as u64;
    let nl = low.len() as u64;
    Fam { name: "unicode".into(), bound: format!("every Unicode scalar value (blocks of 64; first 256 one by one) x {} contexts", nc), n: (nb + nl) * nc,
        gen: Box::new(move |i| {
            let (c, j) = (ctx[(i % nc) as usize], i / nc);
            if j < nl { Case::Doc(c(&low[j as usize].to_string())) } else { Case::Doc(c(&blocks[(j - nl) as usize])) }
        }) }
}
/// every digit-like and letter-like non-ASCII character alone where digits / hex digits / bare keys are expected
pub fn unicode_digits() -> Fam {
    let nd: Vec<char> = (0x80u32..=0x10FFFF).filter_map(char::from_u32).filter(|c| c.is_numeric() || c.is_alphabetic() && (*c as u32) < 0x600).collect();
    let ctx: Vec<fn(&str) -> String> = vec![
        |s| format!("a = {}", s), |s| format!("a = 1{}", s), |s| format!("a = 1.{}", s), |s| format!("a = 1e{}", s), |s| format!("a = 1_{}", s), |s| format!("a = 197{}-05-27", s), |s| format!("a = \"\\u000{}\"", s), |s| format!("{} = 1", s),
        |s| format!("a = 1979-05-27T07:32:00.{}", s), |s| format!("a = 1979-05-27T07:32:0{}", s),
    ];
    let nc = ctx.len() as u64;
    Fam { name: "unicode-digits".into(), bound: format!("every non-ASCII numeric character x {} numeric contexts", nc), n: nd.len() as u64 * nc,
        gen: Box::new(move |i| Case::Doc(ctx[(i % nc) as usize](&nd[(i / nc) as usize].to_string()))) }
}

/// every string as a path into small documents
pub fn paths(n: u32) -> Fam {
    let docs = ["", "a = 1", "a = [1, 2]", "a = {b = 1}", "[a]\nb = 1", "[[a]]\nb = 1\n[[a]]", "[a.b]\nx = 1", "\"a b\" = 1\n\"a.b\" = 2\n\"a\" = 3", "[[a]]\n[[a.b]]\nx = 1", "a = [[1], [2, 3]]", "b = [{a = 1}, {a = [1]}]", "\"\u{e9}\" = 1\n1 = 2\n0 = [1]\nb = {\"\u{e9}\" = 1}"];
    let al = ["a", "b", "[", "]", "0", "1", ".", "\"", " ", "\u{e9}", "$", "x", "-"];
    let (k, nd) = (al.len() as u64, docs.len() as u64);
    Fam { name: "paths".into(), bound: format!("every path of <= {} characters out of {} in each of {} documents", n, k, nd), n: pow_sum(k, 0, n) * nd,
        gen: Box::new(move |i| Case::Probe(docs[(i % nd) as usize].to_string(), vec![seq(i / nd, k, 0, n).iter().map(|x| al[*x]).collect()])) }
}

/// pairs (triples) of names that differ little, in every place a name can stand
pub fn near_keys(wide: bool) -> Fam {
    let mut names = vec!["a", "A", "\"a\"", "\"A\"", "aB", "Ab", "a-b", "a_b", "\"a b\"", "\"a.b\"", "1", "01", "-", "\"\u{e9}\"", "\"\u{c9}\""];
    if wide { names.extend(["ab", "AB", "aa", "_", "\"a  b\"", "\" a\"", "\"a \"", "\"e\u{301}\"", "\"a'b\"", "\"\\u00e9\"", "\"\\u00E9\"", "\"ab\"", "a1", "a10", "\"1\"", "true", "1e1", "1979-05-27"]) }
    let mut d = vec![];
    for x in &names { for y in &names {
        d.push(format!("{} = 1\n{} = 2", x, y));
        d.push(format!("[t]\n{} = 1\n{} = 2", x, y));
        d.push(format!("t = {{{} = 1, {} = 2}}", x, y));
        d.push(format!("t = [{{{} = 1}}, {{{} = 2}}]", x, y));
        d.push(format!("[{}]\nx = 1\n[{}]\nx = 2", x, y));
        d.push(format!("[t.{}]\nx = 1\n[t.{}]\ny = 2", x, y));
        d.push(format!("[{}.t]\nx = 1\n[{}.t]\nx = 2", x, y));
        d.push(format!("[[{}]]\nx = 1\n[[{}]]\nx = 2\n[[{}]]\nx = 3", x, y, x));
        d.push(format!("{} = 1\n[{}]\n{} = 2", x, y, x));
        d.push(format!("{} = {{{} = {{{} = 1}}}}", x, y, x));
        d.push(format!("[[t]]\n[[t.{}]]\nx = 1\n[t.{}]\nx = 2\n[[t]]\n[t.{}]\nx = 3", x, y, y));
        d.push(format!("[[{}]]\n[{}.{}]\nx = 1\n[[{}]]\n[{}.{}]\nx = 2", x, x, y, x, x, y));
        if wide { for z in names.iter().take(15) {
            d.push(format!("{} = 1\n{} = {{{} = 2}}\n[{}.{}]\n{} = 3", x, y, z, x, z, y));
            d.push(format!("[{}.{}]\n{} = 1\n[{}]\n{} = 2", x, y, z, x, z));
            d.push(format!("[[{}.{}]]\n{} = 1\n[[{}.{}]]\n{} = 2", x, y, z, x, z, y));
        } }
    } }
    fam_docs("near-keys", &format!("every pair{} of {} similar names x 12 places", if wide { " and triple" } else { "" }, names.len()), d)
}

fn edit_bases() -> Vec<String> {
    let mut b: Vec<String> = scalars().iter().map(|v| format!("a = {}\nz = 1", v)).collect();
    for v in ["[1, 2]", "[ 'x' , # c\n 'y',\n]", "[[1], [\"s\"]]", "{b = 1, \"c d\" = 'x'}", "[{b = 1}, {b = [2]}]", "{ b = { c = [ ] } }", "[1979-05-27, 1979-05-28T00:00:00Z]"] { b.push(format!("a = {}\nz = 1", v)) }
    for t in ["[t]\nx = 1\n[t.u]\ny = 2\n", "[[s]]\r\nx = 1\r\n[[s]]\r\nx = 2\r\n", "# c\n  a.b = 1\n", "[ t . \"u v\" ] # c\n\"k k\"\t= 1\n", "a = 1 # c\n\n\nb = 2\n[t] # d\n", "[[a.b]]\nc = {d = 1}\n[a.b.e]\n", "k-1_A = true\n\"\\u00e9\" = false", "a = [1, 'x']\nb = 2010-02-30\na = 1\n"] { b.push(t.into()) }
    b
}
/// every single character substituted, inserted or deleted at every position of representative documents
pub fn edits(wide: bool) -> Fam {
    let bases = edit_bases();
    let mut al: Vec<char> = (0u32..128).filter_map(char::from_u32).collect();
    al.extend(['\u{80}', '\u{a0}', '\u{e9}', '\u{661}', '\u{2028}', '\u{ff11}', '\u{ff}', '\u{85}']);
    if wide { al.extend(['\u{feff}', '\u{200b}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{1F600}', '\u{10FFFF}', '\u{3000}', '\u{1d7d8}', '\u{ad}', '\u{130}', '\u{2215}', '\u{201c}']) }
    let k = al.len() as u64 * 2 + 1;
    let mut at = vec![];
    let mut n = 0u64;
    for b in &bases { at.push(n); n += (b.chars().count() as u64 + 1) * k }
    Fam { name: "edits".into(), bound: format!("{} documents x every position x (delete, substitute, insert) x {} characters", bases.len(), al.len()), n,
        gen: Box::new(move |i| {
            let b = at.partition_point(|x| *x <= i) - 1;
            let (pos, e) = (((i - at[b]) / k) as usize, ((i - at[b]) % k) as usize);
            Case::Doc(edit(&bases[b].chars().collect::<Vec<_>>(), pos, e, &al).into_iter().collect())
        }) }
}
fn edit(b: &[char], pos: usize, e: usize, al: &[char]) -> Vec<char> {
    let mut v = b.to_vec();
    if e == 0 { if pos < v.len() { v.remove(pos); } }
    else if e % 2 == 1 { v.insert(pos, al[e / 2]) }
    else if pos < v.len() { v[pos] = al[e / 2 - 1] } else { v.push(al[e / 2 - 1]); v.push('\n') }
    v
}
/// two edits from a small alphabet anywhere in the value
pub fn edit_pairs(level: u32) -> Fam {
    let vals: Vec<Vec<char>> = ["1979-05-27T07:32:00Z", "1979-05-27T00:32:00.5-07:00", "1979-05-27", "-1_0.5e+2", "\"a\\n\"", "'b'", "\"\"\"c\n\"\"\"", "'''d'''", "[1, 2]", "{k = 1}", "true", "[{k = 1}]", "12_3"].iter().map(|s| s.chars().collect()).collect();
    let mut al = vec!['0', '-', ':', '.', ' ', '"', '\n', ']', '}', 'a'];
    if level > 1 { al.extend(['9', '_', '+', 'T', 'Z', 'e', '\'', '\\', '[', '{', ',', '=', '#', '\r', '\t']) }
    let k = al.len() as u64 * 2 + 1;
    let mut at = vec![];
    let mut n = 0u64;
    for b in &vals { at.push(n); let m = (b.len() as u64 + 2) * k; n += m * m }
    Fam { name: "edit-pairs".into(), bound: format!("{} values x every pair of edits (delete, substitute, insert) x {} characters", vals.len(), al.len()), n,
        gen: Box::new(move |i| {
            let b = at.partition_point(|x| *x <= i) - 1;
            let m = (vals[b].len() as u64 + 2) * k;
            let (x, y) = ((i - at[b]) / m, (i - at[b]) % m);
            let one = edit(&vals[b], ((x / k) as usize).min(vals[b].len()), (x % k) as usize, &al);
            let two = edit(&one, ((y / k) as usize).min(one.len()), (y % k) as usize, &al);
            Case::Doc(format!("a = {}\nz = 1", two.into_iter().collect::<String>()))
        }) }
}

/// calendar and clock boundaries in documents
/// escapes that are too short, too long, followed by anything, in every kind of string and key
pub fn escapes() -> Fam {
    let mut bodies: Vec<String> = (0x20u8..0x7f).map(|c| format!("\\{}", c as char)).collect();
    bodies.extend(["\\\n", "\\\r\n", "\\\r", "\\ \n", "\\\t", "\\\u{e9}", "\\\\", "\\\\\\", "\\\\u", "\\u\\u", "\\U0010FFFF", "\\U00110000", "\\U0000D7FF", "\\uD7FF", "\\uE000", "\\uFFFF", "\\U0001F600"].iter().map(|s| s.to_string()));
    for u in ["\\u", "\\U"] { for n in 0..=9usize { for h in ["0", "9", "a", "f", "A", "F", "0aF9"] { for t in ["", "g", "G", "/", ":", "@", "`", " ", "_", "\u{e9}", "\u{660}", "\u{ff11}", "\\n", "\\", "u", "\\u0041"] {
        let hex: String = if u == "\\U" { "0000".chars().chain(h.chars().cycle()).take(n).collect() } else { h.chars().cycle().take(n).collect() };
        bodies.push(format!("{}{}{}", u, hex, t));
        // a character that is no hex digit at each place
        if h == "0" && t.len() == 1 { for p in 0..n { let mut x: Vec<char> = hex.chars().collect(); x[p] = t.chars().next().unwrap(); bodies.push(format!("{}{}", u, x.iter().collect::<String>())) } }
    } } } }
    bodies.sort();
    bodies.dedup();
    let shapes: Vec<(&str, &str)> = vec![("a = \"", "\"\nz = 1\n"), ("a = \"x", "y\"\nz = 1\n"), ("a = \"\"\"", "\"\"\"\nz = 1\n"), ("a = \"\"\"x\n", "y\"\"\"\nz = 1\n"), ("a = '", "'\nz = 1\n"), ("a = \'\'\'", "\'\'\'\nz = 1\n"), ("\"", "\" = 1\nz = 1\n"), ("[\"", "\"]\nz = 1\n"), ("[t.\"x", "y\"]\nz = 1\n"), ("[[\"", "\".q]]\nz = 1\n"), ("a = {\"", "\" = 1}\nz = 1\n"), ("a = [\"", "\"]\nz = 1\n"), ("a = [\"\"\"", "\"\"\", 'x']\nz = 1\n"), ("# ", "\nz = 1\n")];
    let docs = bodies.iter().flat_map(|b| shapes.iter().map(move |(x, y)| format!("{}{}{}", x, b, y))).collect();
    fam_docs("escapes", "a backslash and each printable ASCII character, \\u and \\U with 0 to 9 hex digits of 7 kinds followed by each of 16 texts and with a character that is no hex digit at each place, in 14 positions", docs)
}
/// something that is reported (or not), anywhere in nested arrays and inline tables
pub fn nest(th: bool) -> Fam {
    let wraps: [(&str, &str); 6] = [("[", "]"), ("{b = ", "}"), ("[[], ", "]"), ("{\"c d\" = 1, b=", " }"), ("[{}, {x = ", "}]"), ("[ # c\n", ",\n]")];
    let mut seqs: Vec<Vec<usize>> = vec![];
    let full = if th { 7 } else { 5 };
    for n in 0..=full { for i in 0..6u64.pow(n) { let mut i = i; seqs.push((0..n).map(|_| { let c = (i % 6) as usize; i /= 6; c }).collect()) } }
    for n in full as usize + 1..=if th { 60 } else { 30 } { for a in 0..6 { for b in 0..6 { seqs.push((0..n).map(|k| if k % 2 == 0 { a } else { b }).collect()); if a != b { seqs.push((0..n).map(|k| if k == n / 2 { b } else { a }).collect()) } } } }
    let inner = ["1", "1979-13-01", "[1, 'a']", "{a = 1, a = 2}", "[2001-02-29T00:00:00Z, 1]", "[]", "[1.0 2]"];
    let heads = ["", "[t]\n", "[[s]]\n[[s]]\nq = 1\n", "[t]\nx = 1\n[t.u]\n"];
    let n = seqs.len() as u64;
    let (ni, nh) = (inner.len() as u64, heads.len() as u64);
    Fam { name: "nest".into(), bound: format!("7 values, of which 4 are reported and 1 is malformed, in every sequence of <= {} wrappers out of 6 and in alternating and interrupted ones up to depth {}, in 4 places", full, if th { 60 } else { 30 }), n: n * ni * nh,
        gen: Box::new(move |i| {
            let (s, v, h) = (&seqs[(i % n) as usize], inner[(i / n % ni) as usize], heads[(i / n / ni) as usize]);
            let mut x = v.to_string();
            for &w in s { x = format!("{}{}{}", wraps[w].0, x, wraps[w].1) }
            Case::Doc(format!("{}a = {}\nz = 1\n", h, x))
        }) }
}
pub fn calendar() -> Fam {
    let mut d: Vec<String> = vec![];
    for y in 0..10000 { for md in ["02-28", "02-29", "02-30"] { d.push(format!("{:04}-{}", y, md)) } }
    for y in [0, 1, 4, 100, 400, 1900, 1999, 2000, 2012, 2100, 9999] { for m in 0..=19 { for dd in 0..=39 { d.push(format!("{:04}-{:02}-{:02}", y, m, dd)) } } }
    let e = [0, 1, 9, 10, 30, 58, 59, 60, 61, 99];
    for h in 0..30 { for m in e { for s in e { for z in ["", "Z", ".0", ".999+00:00"] { d.push(format!("1979-05-27T{:02}:{:02}:{:02}{}", h, m, s, z)) } } } }
    for n in 0..100 { d.push(format!("1979-05-27T{:02}:00:00", n)); d.push(format!("1979-05-27T00:{:02}:00", n)); d.push(format!("1979-05-27T00:00:{:02}", n)); d.push(format!("1979-{:02}-01", n)); d.push(format!("1979-01-{:02}", n)) }
    for sg in ["+", "-"] { for h in 0..100 { for m in 0..100 { d.push(format!("1979-05-27T07:32:00{}{:02}:{:02}", sg, h, m)) } } }
    for h in 0..30 { for s in ["+23:59", "-24:00", "+23:60", "-00:00"] { for dt in ["2011-02-28", "2011-02-29", "2012-02-29"] { d.push(format!("{}T{:02}:00:00.1{}", dt, h, s)) } } }
    let n = d.len() as u64 * 4;
    Fam { name: "calendar".into(), bound: format!("{} dates and times (leap days of every year, month/day grids, clock and offset grids) x 4 contexts", d.len()), n,
        gen: Box::new(move |i| { let x = &d[(i / 4) as usize]; Case::Doc(match i % 4 { 0 => format!("a = {}\nz = 1", x), 1 => format!("a = [\n{},\n2000-01-01]", x), 2 => format!("[t]\na = {{b = {}, c = 1}}", x), _ => format!("a = [[{}], [{}]] # c", x, x) }) }) }
}

pub fn short_texts(n: u32) -> Fam { toks("short-texts", "every short text", vec!["a", "=", "1", "\n", "#", "[", "]", "!"], 0, n, |v| v.concat()) }
pub fn array_comments(n: u32) -> Fam { toks("array-comments", "`a=[` + runs of comments, newlines and blanks + `]\\nz=1\\nz=2`", vec!["1", ",", "#c\n", "\n", " ", "#\n", "\r\n"], 0, n, |v| format!("a=[{}]\nz=1\nz=2", v.concat())) }
pub fn inline_comments(n: u32) -> Fam { toks("inline-comments", "`a={` + runs of comments, newlines and blanks + `}\\nz=1\\nz=2`", vec!["b=1", ",", "#c\n", "\n", " ", "#\n", "\r\n"], 0, n, |v| { let mut k = 0; let s: Vec<String> = v.iter().map(|t| if *t == "b=1" { k += 1; format!("b{}=1", k) } else { t.to_string() }).collect(); format!("a={{{}}}\nz=1\nz=2", s.concat()) }) }
pub fn doc_comments(n: u32) -> Fam { toks("doc-comments", "runs of comments, blanks and newlines between expressions", vec!["#c\n", "\n", " ", "\t", "a=1", "[t]", "\r\n", "# d"], 0, n, |v| v.concat()) }

/// nesting far beyond anything written by hand; every one in a process of its own
pub fn deep() -> Fam {
    let mut v = vec![];
    for k in DEEP { for n in [128u64, 256, 384, 100_000] { v.push((k, n)) } }
    for k in FLAT { for n in [128u64, 512, 4096] { v.push((k, n)) } }
    Fam { name: "deep".into(), bound: "9 nesting shapes x 4 depths up to 100000 and 3 wide header shapes x 3 widths, each parsed and printed in a process of its own with an 8 MB stack".into(), n: v.len() as u64, gen: Box::new(move |i| { let (k, n) = v[i as usize]; Case::Deep(k.to_string(), n) }) }
}
const DEEP: [&str; 9] = ["arrays", "open arrays", "unbalanced arrays", "inline tables", "open inline tables", "arrays of inline tables", "arrays with siblings", "inline tables with siblings", "empty arrays"];
const FLAT: [&str; 3] = ["table header", "array of tables header", "quoted table header"];
pub fn deep_doc(k: &str, n: usize) -> String {
    match k {
        "arrays" => format!("a = {}1{}\nb = 2", "[".repeat(n), "]".repeat(n)),
        "open arrays" => format!("a = {}", "[".repeat(n)),
        "unbalanced arrays" => format!("a = {}1{}", "[".repeat(n), "]".repeat(n - 1)),
        "empty arrays" => format!("a = {}{}", "[ ".repeat(n), "\n]".repeat(n)),
        "inline tables" => format!("a = {}1{}", "{k = ".repeat(n), "}".repeat(n)),
        "open inline tables" => format!("a = {}", "{k = ".repeat(n)),
        "arrays of inline tables" => format!("a = {}1{}", "[{k = ".repeat(n), "}]".repeat(n)),
        "arrays with siblings" => format!("a = {}1{}", "[[], ".repeat(n), ", []]".repeat(n)),
        "inline tables with siblings" => format!("a = {}1{}", "{a = 1, k = ".repeat(n), ", z = 2}".repeat(n)),
        "table header" => format!("[{}]\nx = 1", vec!["t"; n].join(".")),
        "array of tables header" => format!("[[{}]]\nx = 1", vec!["t"; n].join(".")),
        _ => format!("[{}]\nx = 1", vec!["\"a b\""; n].join(" . ")),
    }
}
/// in the process of its own: 0 = came back and lossless
pub fn deep_child(k: &str, n: usize) -> i32 {
    let d = deep_doc(k, n);
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let (p, r) = tomllib::TOMLParser::new().parse(&d);
        let left = crate::obs::res(&r).leftover.unwrap_or_default();
        let ok = format!("{}{}", p, left) == d;
        if ok { 0 } else { 7 }
    }).unwrap().join().unwrap_or(101)
}
pub fn deep_run(k: &str, n: u64) -> Outcome {
    use std::process::{Command, Stdio};
    let mut o = Outcome { steps: 2, state: crate::judge::fnv(&format!("{}{}", k, n)), ..Default::default() };
    let mut c = Command::new(std::env::current_exe().unwrap());
    let mut ch = c.arg("deep").arg(k).arg(n.to_string()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = std::time::Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            match s.code() { Some(0) => {} Some(7) => o.fails.push("printed text and leftover differ from the input".into()), Some(_) => o.fails.push("parsing panicked".into()), None => o.fails.push("parsing killed the process".into()) }
            break;
        }
        if t.elapsed().as_secs() > 20 { ch.kill().ok(); ch.wait().ok(); o.fails.push("parsing did not return within 20 s".into()); break }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    o
}
