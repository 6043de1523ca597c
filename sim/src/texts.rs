//! Source texts: documents in legal layouts, near misses, and hostile shapes.
use crate::model::{self, Gen, Model, Size};
use simrt::Src;

#[derive(Clone)]
pub struct Text {
    pub schema: bool,
    pub t: String,
}

pub fn any_model(s: &mut Src) -> Model {
    let schema = s.chance(2, 5);
    model::any(s, schema)
}
pub fn small_model(s: &mut Src, schema: bool) -> Model {
    let z = Size { depth: s.range(1, 2) as u32, width: s.range(1, 3) as usize, wild: s.chance(1, 2), fat: false, tall: 0 };
    let n = s.range(1, 3) as usize;
    let mut g = Gen { s, z };
    if schema {
        Model::Schema(g.schema(n))
    } else {
        Model::Query(g.query(n))
    }
}
pub fn of(s: &mut Src, m: &Model) -> Text {
    Text { schema: matches!(m, Model::Schema(_)), t: model::write(s, m) }
}


/// A query document nested to `depth` brackets (at least 1).
pub fn nested(s: &mut Src, depth: u64) -> String {
    let mut o = String::new();
    let mut close = Vec::new();
    let shape = s.below(4);
    match shape {
        0 => {
            // selection sets only
            for i in 0..depth {
                o.push_str(if i == 0 { "{" } else { "a{" });
                close.push('}');
            }
            o.push('b');
        }
        1 => {
            // lists in an argument
            o.push_str("{a");
            close.push('}');
            if depth > 1 {
                o.push_str("(b:");
                close.push(')');
            }
            for _ in 2..depth {
                o.push('[');
                close.push(']');
            }
            if depth > 1 {
                o.push('1');
            }
        }
        2 => {
            // objects and lists in an argument
            o.push_str("{a");
            close.push('}');
            if depth > 1 {
                o.push_str("(b:");
                close.push(')');
            }
            for i in 2..depth {
                if i % 2 == 0 {
                    o.push_str("{c:");
                    close.push('}');
                } else {
                    o.push('[');
                    close.push(']');
                }
            }
            if depth > 1 {
                o.push_str("$v");
            }
        }
        _ => {
            // list types in a variable definition
            o.push_str("query($v:");
            for _ in 1..depth {
                o.push('[');
                close.push(']');
            }
            o.push_str("Int");
            while let Some(c) = close.pop() {
                o.push(c);
                if s.chance(1, 4) {
                    o.push('!');
                }
            }
            o.push_str("){a}");
        }
    }
    while let Some(c) = close.pop() {
        o.push(c);
    }
    o
}
pub fn nested_schema(s: &mut Src, depth: u64) -> String {
    let mut o = String::from("type A");
    let mut close = Vec::new();
    match s.below(3) {
        0 => {
            o.push_str("{a:");
            close.push('}');
            for _ in 1..depth {
                o.push('[');
                close.push(']');
            }
            o.push_str("Int");
        }
        1 => {
            o.push_str("@d(x:");
            close.push(')');
            for _ in 1..depth {
                o.push('[');
                close.push(']');
            }
        }
        _ => {
            o.push_str("{f(x:Int=");
            close.push('}');
            close.push(')');
            for i in 2..depth {
                if i % 2 == 0 {
                    o.push_str("{k:");
                    close.push('}');
                } else {
                    o.push('[');
                    close.push(']');
                }
            }
            o.push('1');
            while let Some(c) = close.pop() {
                o.push(c);
                if c == ')' {
                    o.push_str(":Int");
                }
            }
        }
    }
    while let Some(c) = close.pop() {
        o.push(c);
    }
    o
}

/// Units that open and close their brackets again (at most two deep), for the places of `nested_after`.
const BALANCED: [&[&str]; 6] = [
    &["[]", "{}", "[1]", "{k:1}", "{k:[]}", "[{}]", "[[]]", "\"]]]\"", "\"[\"", "\"\"\"}}}\"\"\"", "#]]]\n", "#[\n", "E ", "1 ", "[\"]\"]", "[,]", "[ ]", "{ # }\n}", "[[][]]"],
    &["a ", "a{b}", "...{b}", "a(x:1)", "...on T{b}", "a(x:[])", "a(x:{})", "a(x:\")\")", "#}\n", "a @d(x:1){b}", "...F ", "a{b }", "a(x:1){b}", "...on T@d(x:1){b}"],
    &["$v:Int ", "$v:[Int] ", "$v:[[Int!]]! ", "$v:Int=[] ", "$v:[Int]=[{}] ", "$v:I={} ", "$v:S=\")\" "],
    &["{a}", "{a{b}}", "query Q{a}", "query($v:Int){a}", "{a(x:[])}", "fragment F on T{a{b}}", "mutation M@d(x:1){a}", "#}}\n"],
    &["f:T ", "f:[T] ", "f:[[T!]]! ", "f(a:I):T ", "f(a:I=[]):[T] ", "f(a:I={}):T ", "f(a:[I]):T @d(x:1) ", "\"}\" f:T ", "\"\"\"]}\"\"\" f:T "],
    &["scalar S ", "scalar S@d(x:[]) ", "type T{f:[T]} ", "type T{f(a:I):T} ", "enum E{A} ", "input I{a:I=[]} ", "union U=A ", "schema{query:Q} ", "directive@d(a:[I])on FIELD ", "extend type T{a:I} ", "\"}\" type T{f:T} "],
];
/// A document nested `depth` deep (at least 4), after many units in the same place that do not nest.
pub fn nested_after(s: &mut Src, schema: bool, depth: u64, count: u64) -> String {
    let place = if schema { *s.pick(&[0, 4, 5]) } else { *s.pick(&[0, 0, 1, 1, 2, 3]) };
    let kinds = s.range(1, 2);
    let units: Vec<&str> = (0..kinds).map(|_| *s.pick(BALANCED[place])).collect();
    let mut body = String::new();
    for i in 0..count {
        body.push_str(units[(i % kinds) as usize]);
    }
    let d = depth as usize;
    let lists = |n: usize, x: &str| format!("{}{x}{}", "[".repeat(n), "]".repeat(n));
    let vals = |n: usize, k: u64| match k {
        0 => lists(n, ""),
        1 => format!("{}1{}", "{k:".repeat(n), "}".repeat(n)),
        _ => format!("{}{}{}", "[{k:".repeat(n / 2), if n % 2 == 1 { "[]" } else { "2" }, "}]".repeat(n / 2)),
    };
    let k = s.below(3);
    match (place, schema) {
        (0, false) if s.chance(1, 3) => format!("query($v:I=[{body}{}]){{a}}", vals(d - 2, k)),
        (0, false) => format!("{{a(b:[{body}{}])}}", vals(d - 3, k)),
        (0, true) => format!("scalar A@d(x:[{body}{}])", vals(d - 2, k)),
        (1, _) => {
            let open = *s.pick(&["a{", "...{", "...on T{", "a@d(x:1){"]);
            format!("{{{body}{}b{}}}", open.repeat(d - 1), "}".repeat(d - 1))
        }
        (2, _) if k == 0 => format!("query({body}$w:A={}){{a}}", vals(d - 1, 0)),
        (2, _) => format!("query({body}$w:{}){{a}}", lists(d - 1, "Int")),
        (3, _) => format!("query Ok{{a}}{body}{}", nested(s, depth)),
        (4, _) if k == 0 => format!("type A{{{body}f(a:I={}):T}}", vals(d - 2, 1)),
        (4, _) => format!("type A{{{body}f:{}}}", lists(d - 1, "Int")),
        _ => format!("{body}{}", nested_schema(s, depth)),
    }
}

/// Which bytes are inside string literals (1), comments (2) or neither (0).
fn regions(t: &str) -> Vec<u8> {
    let b = t.as_bytes();
    let mut out = vec![0; b.len()];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'#' => {
                while i < b.len() && b[i] != b'\n' {
                    out[i] = 2;
                    i += 1;
                }
            }
            b'"' => {
                let q = if b[i..].starts_with(b"\"\"\"") { 3 } else { 1 };
                let from = i;
                i += q;
                while i < b.len() && !b[i..].starts_with(&b"\"\"\""[..q]) && !(q == 1 && b[i] == b'\n') {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                let to = (i + q).min(b.len());
                out[from..to].fill(1);
                i = to;
            }
            _ => i += 1,
        }
    }
    out
}
/// The same length, one letter or digit changed, or two exchanged.
pub fn variant(s: &mut Src, t: &str) -> String {
    let region = regions(t);
    let want = s.weighted(&[4, 5, 1]) as u8;
    let all: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| b.is_ascii_alphanumeric()).map(|x| x.0).collect();
    let part: Vec<usize> = all.iter().copied().filter(|i| region[*i] == want).collect();
    let at = if part.is_empty() { all } else { part };
    if at.is_empty() {
        return t.to_string();
    }
    // the middle and the end matter as much as the beginning
    let i = *s.pick(&at);
    let mut b = t.as_bytes().to_vec();
    if s.chance(1, 4) {
        // the same letters in another order
        let near = at.iter().position(|x| *x == i).unwrap();
        let j = if s.chance(2, 3) { at[(near + 1) % at.len()] } else { *s.pick(&at) };
        if b[i] != b[j] {
            b.swap(i, j);
            return String::from_utf8(b).unwrap();
        }
    }
    if s.chance(1, 6) && b[i].is_ascii_alphabetic() {
        b[i] ^= 32;
        return String::from_utf8(b).unwrap();
    }
    b[i] = match b[i] {
        b'0'..=b'9' => {
            if b[i] == b'7' {
                b'6'
            } else {
                b'7'
            }
        }
        b'q' => b'z',
        _ => b'q',
    };
    String::from_utf8(b).unwrap()
}
/// The same text with one whole word or number replaced by another of its kind.
fn replaced(s: &mut Src, t: &str) -> String {
    const KINDS: [&[&str]; 4] = [
        crate::model::LOCATIONS,
        &["query", "mutation", "subscription"],
        &["type", "interface", "input"],
        &["true", "false", "null", "on", "A", "repeatable", "implements"],
    ];
    let region = regions(t);
    let b = t.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut words = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let from = i;
        while i < b.len() && word(b[i]) && region[i] == region[from] {
            i += 1;
        }
        if i > from && region[from] == 0 {
            words.push((from, i));
        }
        i = i.max(from + 1);
    }
    if words.is_empty() {
        return t.to_string();
    }
    let kind = |w: &(usize, usize)| KINDS.iter().position(|k| k.contains(&&t[w.0..w.1]));
    let known: Vec<_> = words.iter().copied().filter(|w| kind(w).is_some()).collect();
    let (from, to) = if !known.is_empty() && s.chance(2, 3) { *s.pick(&known) } else { *s.pick(&words) };
    let new = match kind(&(from, to)) {
        Some(k) => s.pick(KINDS[k]).to_string(),
        None if b[from].is_ascii_digit() => s.pick(&["0", "1", "7", "12", "255", "65536", "9007199254740993"]).to_string(),
        None => {
            // a name from elsewhere in the text, or one that is a bit longer or shorter
            let (f, e) = *s.pick(&words);
            match s.below(3) {
                0 if !b[f].is_ascii_digit() => t[f..e].to_string(),
                1 if to - from > 1 => t[from..to - 1].to_string(),
                _ => format!("{}{}", &t[from..to], s.pick(&["A", "z", "_", "0", "Type"])),
            }
        }
    };
    format!("{}{new}{}", &t[..from], &t[to..])
}
/// A text with a mistake somewhere.
pub fn broken(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    const ODD: [char; 16] = ['%', '?', '~', '^', '*', '+', '<', '>', ';', '`', '\'', '/', '\\', ',', '\u{a0}', '\u{7f}'];
    for _ in 0..s.range(1, 2) {
        if cs.is_empty() {
            break;
        }
        let mut i = s.below(cs.len() as u64) as usize;
        if s.chance(1, 4) {
            // near the end: what is left to read is short
            i = cs.len() - 1 - s.below(cs.len().min(12) as u64) as usize;
        }
        match s.below(6) {
            5 => {
                // something twice
                let n = s.range(1, 24).min((cs.len() - i) as u64) as usize;
                let again = cs[i..i + n].to_vec();
                cs.splice(i..i, again);
            }
            4 => cs.insert(i, *s.pick(&ODD)),
            0 => cs.truncate(i),
            1 => {
                cs.remove(i);
            }
            2 => cs[i] = *s.pick(&['?', '"', '{', '}', '(', ')', '[', ']', '\\', '\0', ';', '1', '.', '$', '@', ':', '!']),
            _ => cs.insert(i, *s.pick(&['{', '"', '}', ':', '&', '-', '|', '%', '#', '0', '('])),
        }
    }
    cs.into_iter().collect()
}
/// A document of one small definition, with one word that matters.
fn single_definition(s: &mut Src) -> Text {
    let mut g = Gen { s, z: Size { depth: 1, width: 1, wild: false, fat: false, tall: 0 } };
    if g.s.chance(1, 3) {
        let at = *g.s.pick(crate::model::LOCATIONS);
        let t = match g.s.below(3) {
            0 => format!("directive @a on {at}"),
            1 => format!("directive @a repeatable on {at} | {}", g.s.pick(crate::model::LOCATIONS)),
            _ => format!("directive @{}(a: A) on {at}", g.any_name()),
        };
        return Text { schema: true, t };
    }
    let schema = g.s.chance(3, 5);
    let m = if schema { Model::Schema(vec![g.sdef()]) } else { Model::Query(vec![g.qdef()]) };
    of(s, &m)
}
/// A document with one literal in one place.
fn tiny(s: &mut Src) -> Text {
    let mut body = String::new();
    for _ in 0..s.range(0, 8) {
        body.push_str(*s.pick(&["a", "b", "Z", "9", " ", "é", "\\\"\"\"", "#", "{", "\u{10ffff}", "\t"]));
    }
    let block = s.chance(1, 2);
    let nl = *s.pick(&["", "\n", "\n  "]);
    let lit = match s.below(6) {
        0 => format!("\"{}\"", body.replace("\"\"\"", "\"")),
        1 | 2 => format!("\"\"\"{nl}{body} x{nl}\"\"\""),
        3 => s.bits().wrapping_shr(*s.pick(&[1, 30, 60])).to_string(),
        4 => format!("{}{}.{}e{}", s.pick(&["", "-"]), s.below(10), s.below(1000), s.below(20)),
        _ => "name".to_string(),
    };
    let desc = if block { format!("\"\"\"{nl}{body} y{nl}\"\"\"") } else { format!("\"{}\"", body.replace("\"\"\"", "\"")) };
    // the same name again, or the next one
    let (k, v) = if s.chance(1, 2) { ("k", "$v") } else { ("l", "W") };
    let f = s.below(16);
    let t = match f {
        10 => format!("{{a(b:{{k:{lit} {k}:{lit}}})}}"),
        11 => format!("{{a(b:{{k:[$v{lit}] {k}:{{x:{lit}}}}} b:{v}) a@d@d}}"),
        12 => format!("query Q($k:A={{k:$v,{k}:{lit}}}${k}:B)@d@d{{a}}"),
        13 => format!("fragment f on T{{...f ...f}}fragment {k} on T@x(k:{lit} {k}:{lit}){{a}}"),
        14 => format!("type k implements k&{k}@d(k:{{k:{lit},{k}:{lit}}}){{k(k:A {k}:B={lit}):C {k}:D}}"),
        15 => format!("enum E{{k {k}}}input I{{k:A={{k:{lit} {k}:{lit}}} {k}:A}}union U=k|{k} directive@d(k:A={lit} {k}:A)on FIELD|FIELD"),
        0 => format!("{{a(b:{lit})}}"),
        1 => format!("query($v:S={lit}){{a}}"),
        2 => format!("{{a@d(x:[{lit}])}}"),
        3 => format!("{{a}}#{}", body.replace('\n', " ")),
        4 => format!("fragment f on T{{a(b:{{c:{lit}}})}}"),
        5 => format!("{desc}scalar A"),
        6 => format!("type A{{{desc}f(a:S={lit}):Int}}"),
        7 => format!("enum E{{A {desc}B}}"),
        8 => format!("{desc}directive@d on FIELD"),
        _ => format!("scalar A@d(a:{lit})"),
    };
    Text { schema: (5..10).contains(&f) || f >= 14, t }
}
/// Many literals of every kind in one place.
fn medley(s: &mut Src) -> Text {
    let wild = s.chance(1, 2);
    let z = Size { depth: 1, width: 3, wild, fat: false, tall: 0 };
    let n = s.range(3, 16);
    let xs = {
        let mut g = Gen { s, z };
        (0..n).map(|_| g.val(1, true)).collect::<Vec<_>>()
    };
    let schema = s.chance(1, 3);
    let mut t = model::Toks { s, o: Vec::new(), plain: false };
    xs.iter().for_each(|v| t.val(v));
    let toks = t.o;
    let list = model::layout(s, &toks, false);
    let t = match (schema, s.below(3)) {
        (false, 0) => format!("{{a(b:[{list}\n])}}"),
        (false, _) => format!("{{a@d(x:{{y:[{list}\n]}})}}"),
        _ => format!("scalar A@d(x:[{list}\n])"),
    };
    Text { schema, t }
}
/// Block strings with anything in them, also what the specification leaves open.
fn raw(s: &mut Src) -> Text {
    const PIECES: [&str; 24] = [
        "\r", "\r\n", "\n", "\n", " ", "  ", "\t", "x", "yz", "\\\"\"\"", "\"", "\"\" ", "\\", "\\n", "#", "{", "é", "\u{10ffff}", "\u{feff}", "\u{2028}", "\u{a0}", "\u{85}", "\u{b}", "\r\r",
    ];
    let schema = s.chance(1, 3);
    let mut lits = Vec::new();
    for _ in 0..s.range(1, 4) {
        let mut b = String::new();
        let n = s.range(0, 10);
        // a few pieces, again and again
        let some: Vec<&str> = (0..s.range(1, 5)).map(|_| *s.pick(&PIECES)).collect();
        for _ in 0..n {
            b.push_str(*s.pick(&some));
        }
        let mut t = format!("\"\"\"{b}");
        if t.ends_with(['"', '\\']) {
            t.push(' ');
        }
        t.push_str("\"\"\"");
        lits.push(t);
    }
    let t = match (schema, s.below(3)) {
        (false, 0) => format!("{{a(b:[{}])}}", lits.concat()),
        (false, 1) => format!("{{{}}}", lits.iter().map(|l| format!("a(b:{l})")).collect::<String>()),
        (false, _) => format!("query($v:S={}){{a@d(x:{{y:{}}})}}", lits[0], lits[lits.len() - 1]),
        (true, 0) => lits.iter().map(|l| format!("{l}scalar A ")).collect(),
        (true, 1) => format!("type A{{{}}}", lits.iter().map(|l| format!("{l}f(a:S={l}):T ")).collect::<String>()),
        (true, _) => format!("enum E{{{}}}", lits.iter().map(|l| format!("{l}A ")).collect::<String>()),
    };
    Text { schema, t }
}
/// Many small things, one after another, up to some tens of kilobytes.
fn long(s: &mut Src) -> Text {
    let place = s.below(6) as usize;
    let units: Vec<&str> = (0..s.range(1, 3)).map(|_| *s.pick(BALANCED[place])).collect();
    let least = *s.pick(&[300, 1100, 2100, 4200, 4200, 8300, 16_500, 33_000]);
    let mut body = String::new();
    let mut i = 0;
    while body.len() < least {
        body.push_str(units[i % units.len()]);
        i += 1;
    }
    let t = match place {
        0 => format!("{{a(b:[{body}])}}"),
        1 => format!("{{{body}b}}"),
        2 => format!("query({body}$w:A){{a}}"),
        4 => format!("type A{{{body}}}"),
        _ => body,
    };
    Text { schema: place > 3, t }
}
/// What looks like GraphQL and is refused for what it says: these errors are made by hand-written code.
const NEAR_QUERY: &[&str] = &[
    "{a(b:\"\\u12\")}", "{a(b:\"\\ud800\")}", "{a(b:\"\\x\")}", "{a(b:\"\\uZZ00\")}", "{a(b:9223372036854775808)}", "{a(b:-9223372036854775809)}",
    "{a(b:1e)}", "{a(b:1.)}", "{a(b:01)}", "{a(b:.5)}", "{a(b:\"x", "{a(b:\"\"\"x", "{a(b:$)}", "{a..b}", "{a(b:1,)}", "{a()}", "{}", "query Q(){a}", "fragment on on T{a}",
    "fragment f T{a}", "{...on}", "{...}", "{a:}", "query($v){a}", "query($v:){a}", "query($v:[Int){a}", "query($v:Int=$w){a}", "{a@}", "{a(b:{c})}", "{a(b:[1}", "{a}}", "{a}{", "sub{a}",
];
const NEAR_SCHEMA: &[&str] = &[
    "schema{query:A query:B}", "schema{mutation:A mutation:B}", "schema{subscription:A subscription:B}", "schema{other:A}", "schema{query:A,mutation:B,subscription:C,query:D}", "schema{}",
    "extend scalar A", "extend type A", "extend interface A", "extend union A", "extend enum A", "extend input A", "extend A", "extend schema{query:A}", "directive@d on NOWHERE", "directive@d on",
    "directive@d on|FIELD|", "directive d on FIELD", "type A implements{a:B}", "type A implements B&{a:B}", "type A implements B&&C", "union A=", "union A=|B|", "enum A{true}", "enum A{}", "type A{a:}",
    "type A{a(b):C}", "type A{}", "input A{a(b:C):D}", "\"d\"", "\"d\" schema{query:A}", "\"d\"extend type A{a:B}", "\"d\"\"e\" scalar A", "scalar", "scalar A@d(a:\"\\u00g0\")",
];
fn near(s: &mut Src) -> Text {
    let schema = s.chance(1, 2);
    let mut t = s.pick(if schema { NEAR_SCHEMA } else { NEAR_QUERY }).to_string();
    if s.chance(1, 2) {
        // after something that is right
        let m = small_model(s, schema);
        let x = of(s, &m).t;
        t = if s.chance(3, 4) { format!("{x}\n{t}") } else { format!("{t}\n{x}") };
    }
    Text { schema, t }
}
/// One token of any length, then perhaps a character of several bytes, in a place where it may be wrong:
/// what is cut out of it, or said about it.
fn cliff(s: &mut Src) -> Text {
    let most = if s.chance(2, 3) { 70 } else { 1 << s.range(6, 11) };
    let n = s.range(1, most) as usize;
    let of = |s: &mut Src, all: &[&str]| {
        let x = *s.pick(all);
        x.repeat(n.div_ceil(x.len())).chars().take(n).collect::<String>()
    };
    let mut t = match s.below(8) {
        0 => of(s, &["1", "123", "-1", "0"]),
        1 => format!("{}.{}", s.below(10), of(s, &["1", "9", "0"])),
        2 => format!("1e{}", of(s, &["1", "9", "0"])),
        3 => of(s, &["n", "aB_", "query"]),
        4 => format!("\"{}", of(s, &["x", "\\n", "\\u0041", "é", "\\\"", "# "])),
        5 => format!("\"\"\"{}", of(s, &["x", "\n", "\\\"\"\"", " x", "y\n"])),
        6 => format!("#{}", of(s, &["c", "é", "\\"])),
        _ => of(s, &[".", "!", "@", "$", "%"]),
    };
    t.push_str(*s.pick(&["", "", "é", "€", "😀", "\\", "\\u", "\\ué"]));
    match s.below(3) {
        0 if t.starts_with("\"\"\"") => t.push_str("\"\"\""),
        0 if t.starts_with('"') => t.push('"'),
        1 => t.push_str(*s.pick(&["\n", " ", "}", ")", ",", ":", "\"", "é", "=", "|"])),
        _ => {}
    }
    let schema = s.chance(1, 2);
    let (a, b) = if schema {
        *s.pick(&[("", ""), ("type A", ""), ("type A ", "{a:B}"), ("type A{a", "}"), ("scalar A @d(a:", ")"), ("union A=B|", ""), ("enum A{", "}"), ("type A implements ", ""), ("extend ", ""), ("", "scalar A"), ("directive@d on ", "")])
    } else {
        *s.pick(&[("", ""), ("{a(b:", ")}"), ("{a", "}"), ("{a ", "}"), ("query ", "{a}"), ("{a(", ":1)}"), ("query($v:", "){a}"), ("{...on ", "{a}}"), ("{a}", ""), ("{a(b:[1 ", "])}"), ("{a@d(x:{k:", "})}")])
    };
    Text { schema, t: format!("{a}{t}{b}") }
}
pub fn draw(s: &mut Src) -> Text {
    let k = s.weighted(&[24, 6, 4, 2, 6, 6, 4, 8, 0, 3, 1, 4]);
    draw_kind(s, k)
}
fn draw_kind(s: &mut Src, k: usize) -> Text {
    match k {
        8 => {
            // about as deep as is allowed
            let schema = s.chance(1, 3);
            let d = s.range(36, 58);
            Text { schema, t: if schema { nested_schema(s, d) } else { nested(s, d) } }
        }
        7 => medley(s),
        9 => raw(s),
        10 => long(s),
        11 => cliff(s),
        5 => tiny(s),
        6 => near(s),
        0 => {
            let m = any_model(s);
            of(s, &m)
        }
        1 => {
            let schema = s.chance(1, 3);
            let d = if s.chance(1, 2) { s.range(36, 46) } else { s.range(1, 46) };
            if s.chance(1, 4) {
                let n = s.range(1, 90);
                let t = nested_after(s, schema, d.max(4), n);
                return Text { schema, t };
            }
            Text { schema, t: if schema { nested_schema(s, d) } else { nested(s, d) } }
        }
        2 => {
            let schema = s.chance(1, 3);
            let d = s.range(47, 80);
            Text { schema, t: if schema { nested_schema(s, d) } else { nested(s, d) } }
        }
        3 => Text { schema: s.chance(1, 2), t: s.pick(&["", "{", "}", "#", "\u{feff}", "{a}", "\"", "\"\"\"", "query", "schema{}", "{a(b:1e9)}", "{a(b:-)}", "scalar A"]).to_string() },
        _ => {
            let schema = s.chance(2, 5);
            let m = small_model(s, schema);
            of(s, &m)
        }
    }
}
/// One short text in many versions that differ in one word, number or character.
fn sweep(s: &mut Src) -> Vec<Text> {
    const NUMBERS: &[&str] = &["0", "-0", "1", "-1", "10", "12", "21", "255", "256", "1.5", "-1.5", "1e9", "1.0", "0.1", "1e-9", "9223372036854775807", "65536", "01", "1.", "-"];
    const ESCAPES: &[&str] = &["\\n", "\\r", "\\t", "\\b", "\\f", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00e9", "\\u000A", "\\u000a", "\\ud800", "\\x", "a", "é", "#", "{", " ", ""];
    const TYPES: &[&str] = &["B", "B!", "[B]", "[B]!", "[B!]", "[B!]!", "[[B]]", "[[B]!]", "C", "b", "Int", "[]"];
    const VALUES: &[&str] = &["true", "false", "null", "A", "\"A\"", "1", "1.5", "[]", "{}", "[A]", "[1 2]", "{a:1}", "{b:1}", "\"\"", "\"\"\"A\"\"\"", "{a:1 b:2}", "{b:2 a:1}", "$a"];
    const NAMES: &[&str] = &["a", "A", "b", "aa", "ab", "ba", "_", "a1", "a2", "on", "true", "type", "query", "fragment", "__typename", "name", "Name", "id", "ID", "extend"];
    const ODD: &[&str] = &["%", "?", "~", "^", "*", ";", "'", "/", "\\", "\u{a0}", "\u{7f}", "\0", ".", "..", "é", "`", "<", ">", "+", "&"];
    let table: &[(bool, &str, &[&str])] = &[
        (true, "directive@a on @@", crate::model::LOCATIONS),
        (true, "directive@a on @@", crate::model::LOCATIONS),
        (true, "directive @a(b:C) repeatable on | @@|FIELD", crate::model::LOCATIONS),
        (true, "@@ A{a:B}", &["type", "interface", "input", "extend type", "extend interface", "extend input", "enum", "union", "scalar", "schema", "tyqe"]),
        (true, "@@ A", &["type", "interface", "input", "scalar", "enum", "union", "extend scalar", "extend type", "scalar scalar", "directive"]),
        (true, "schema{@@:A}", &["query", "mutation", "subscription", "a", "Query", "mutatiom"]),
        (true, "type A{a:@@}", TYPES),
        (true, "input A{a:B=@@}", VALUES),
        (true, "\"@@\"scalar A", ESCAPES),
        (true, "enum A{@@}", NAMES),
        (true, "type A@@{a:B}", ODD),
        (false, "@@ A{a}", &["query", "mutation", "subscription", "fragment", "Query", "a", "subscriptiom"]),
        (false, "@@{a}", &["query", "mutation", "subscription", "query A", "mutation A", "fragment A on B", "fragment on on B", ""]),
        (false, "query($a:@@){a}", TYPES),
        (false, "query($a:B=@@){a}", VALUES),
        (false, "{a(b:@@)}", VALUES),
        (false, "{a(b:@@)}", NUMBERS),
        (false, "{a(b:[@@ 1])}", NUMBERS),
        (false, "{a(b:\"x@@y\")}", ESCAPES),
        (false, "{a(b:\"\"\"\n x@@\n  y\"\"\")}", ESCAPES),
        (false, "{@@}", NAMES),
        (false, "{a(@@:1)}", NAMES),
        (false, "{...@@}", NAMES),
        (false, "{a@@}", ODD),
        (false, "{a(b:@@)}", ODD),
    ];
    let (schema, frame, words) = *s.pick(table);
    let mut words = words.to_vec();
    let n = s.range(2, words.len().min(16) as u64) as usize;
    (0..n)
        .map(|_| {
            let k = s.below(words.len() as u64) as usize;
            Text { schema, t: frame.replace("@@", words.swap_remove(k)) }
        })
        .collect()
}
/// Some texts, among them near copies of one another.
pub fn pool(s: &mut Src, max: usize) -> Vec<Text> {
    let mut out: Vec<Text> = Vec::new();
    if max > 1 && s.chance(1, 8) {
        return sweep(s);
    }
    let n = s.range(1, max as u64) as usize;
    // now and then all are of one kind
    let kind = if s.chance(1, 8) { Some(*s.pick(&[4, 5, 6, 7, 8, 8, 9, 11])) } else { None };
    // or of one definition each
    let single = kind.is_none() && s.chance(1, 12);
    while out.len() < n {
        let at = s.pos();
        let x = if !out.is_empty() && s.chance(1, 2) {
            let b = s.pick(&out).clone();
            let t = match s.weighted(&[6, 4, 4]) {
                0 => variant(s, &b.t),
                1 => broken(s, &b.t),
                _ => replaced(s, &b.t),
            };
            Text { schema: b.schema, t }
        } else if single {
            single_definition(s)
        } else if let Some(k) = kind {
            draw_kind(s, k)
        } else {
            draw(s)
        };
        let most = *s.pick(&[3000, 3000, 3000, 3000, 3000, 3000, 20_000, 20_000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 140_000]);
        if x.t.len() <= most {
            out.push(x);
        } else {
            out.push(Text { schema: false, t: "{a}".into() });
        }
        s.span(at);
    }
    out
}
