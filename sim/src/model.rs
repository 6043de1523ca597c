//! A model of GraphQL documents that shares no code with the library, its seeded generator, and a
//! renderer that writes it in any legal layout.
use simrt::Src;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Float(u64),
    Str(String),
    Enum(String),
    Var(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>), // sorted by name, names unique
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Name(String),
    List(Box<Ty>),
    NonNull(Box<Ty>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Dir {
    pub name: String,
    pub args: Vec<(String, Val)>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Sel {
    Field { alias: Option<String>, name: String, args: Vec<(String, Val)>, dirs: Vec<Dir>, sels: Vec<Sel> },
    Spread { name: String, dirs: Vec<Dir> },
    Inline { cond: Option<String>, dirs: Vec<Dir>, sels: Vec<Sel> },
}
#[derive(Clone, PartialEq, Debug)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}
#[derive(Clone, PartialEq, Debug)]
pub enum QDef {
    Anon(Vec<Sel>),
    Op { kind: OpKind, name: Option<String>, vars: Vec<VarDef>, dirs: Vec<Dir>, sels: Vec<Sel> },
    Frag { name: String, cond: String, dirs: Vec<Dir>, sels: Vec<Sel> },
}
#[derive(Clone, PartialEq, Debug)]
pub struct InputVal {
    pub desc: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct FieldDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct EnumVal {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum TypeBody {
    Scalar,
    Object { implements: Vec<String>, fields: Vec<FieldDef> },
    Interface { implements: Vec<String>, fields: Vec<FieldDef> },
    Union { types: Vec<String> },
    Enum { values: Vec<EnumVal> },
    Input { fields: Vec<InputVal> },
}
#[derive(Clone, PartialEq, Debug)]
pub enum SDef {
    Schema { dirs: Vec<Dir>, query: Option<String>, mutation: Option<String>, subscription: Option<String> },
    Type { ext: bool, desc: Option<String>, name: String, dirs: Vec<Dir>, body: TypeBody },
    Directive { desc: Option<String>, name: String, args: Vec<InputVal>, repeatable: bool, locations: Vec<String> },
}
#[derive(Clone, PartialEq, Debug)]
pub enum Model {
    Query(Vec<QDef>),
    Schema(Vec<SDef>),
}

// ------------------------------------------------------------------------------- known finding

/// The document as it reads back when whole floats have turned into integers (see known-findings.txt).
pub fn loosen(m: &Model) -> Model {
    let mut m = m.clone();
    match &mut m {
        Model::Query(v) => v.iter_mut().for_each(l_qdef),
        Model::Schema(v) => v.iter_mut().for_each(l_sdef),
    }
    m
}
fn l_val(v: &mut Val) {
    match v {
        Val::Float(b) => {
            let f = f64::from_bits(*b);
            if let (true, Ok(i)) = (f == f.trunc(), format!("{f}").parse::<i64>()) {
                *v = Val::Int(i);
            }
        }
        Val::List(xs) => xs.iter_mut().for_each(l_val),
        Val::Obj(xs) => xs.iter_mut().for_each(|x| l_val(&mut x.1)),
        _ => {}
    }
}
fn l_args(v: &mut [(String, Val)]) {
    v.iter_mut().for_each(|x| l_val(&mut x.1));
}
fn l_dirs(v: &mut [Dir]) {
    v.iter_mut().for_each(|d| l_args(&mut d.args));
}
fn l_sels(v: &mut [Sel]) {
    for s in v {
        match s {
            Sel::Field { args, dirs, sels, .. } => {
                l_args(args);
                l_dirs(dirs);
                l_sels(sels);
            }
            Sel::Spread { dirs, .. } => l_dirs(dirs),
            Sel::Inline { dirs, sels, .. } => {
                l_dirs(dirs);
                l_sels(sels);
            }
        }
    }
}
fn l_qdef(d: &mut QDef) {
    match d {
        QDef::Anon(s) => l_sels(s),
        QDef::Op { vars, dirs, sels, .. } => {
            vars.iter_mut().filter_map(|v| v.default.as_mut()).for_each(l_val);
            l_dirs(dirs);
            l_sels(sels);
        }
        QDef::Frag { dirs, sels, .. } => {
            l_dirs(dirs);
            l_sels(sels);
        }
    }
}
fn l_input(v: &mut [InputVal]) {
    for i in v {
        i.default.iter_mut().for_each(l_val);
        l_dirs(&mut i.dirs);
    }
}
fn l_fields(v: &mut [FieldDef]) {
    for f in v {
        l_input(&mut f.args);
        l_dirs(&mut f.dirs);
    }
}
fn l_sdef(d: &mut SDef) {
    match d {
        SDef::Schema { dirs, .. } => l_dirs(dirs),
        SDef::Directive { args, .. } => l_input(args),
        SDef::Type { dirs, body, .. } => {
            l_dirs(dirs);
            match body {
                TypeBody::Object { fields, .. } | TypeBody::Interface { fields, .. } => l_fields(fields),
                TypeBody::Enum { values } => values.iter_mut().for_each(|v| l_dirs(&mut v.dirs)),
                TypeBody::Input { fields } => l_input(fields),
                TypeBody::Scalar | TypeBody::Union { .. } => {}
            }
        }
    }
}

pub const LOCATIONS: &[&str] = &[
    "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA",
    "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE",
    "INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "VARIABLE_DEFINITION",
];

// ------------------------------------------------------------------------------------- generator

const NAMES: &[&str] = &[
    "a", "b", "id", "name", "user", "User", "_x", "A1", "query", "mutation", "subscription", "fragment", "type", "input",
    "schema", "extend", "repeatable", "implements", "interface", "union", "enum", "scalar", "directive", "nullable",
    "trueish", "veryLongFieldNameThatGoesOnAndOn_0123456789", "__typename", "E", "e1", "Z9_", "onto",
];
/// Names that mean something elsewhere, or nearly so.
const ODD_NAMES: &[&str] = &[
    "_", "__", "__schema", "__type", "QUERY", "FIELD", "FIELD_DEFINITION", "Int", "String", "Float", "Boolean", "ID", "skip", "include", "deprecated", "specifiedBy", "oneOf",
    "if", "reason", "u0041", "n", "t", "nulls", "null_", "NULL", "Null", "True", "TRUE", "on_", "On", "ON", "self", "Self", "e", "x", "extends", "types", "Query", "Mutation",
    "Subscription", "inf", "NaN", "Infinity", "I", "i", "Type", "SCHEMA", "queries", "frag", "implement", "imports", "import", "import_",
];

/// Limits of one generated document.
#[derive(Clone, Copy)]
pub struct Size {
    pub depth: u32,
    pub width: usize,
    /// strings may hold anything (otherwise printable ASCII)
    pub wild: bool,
    /// lists, strings and names may be very long
    pub fat: bool,
    /// things may be nested up to this much deeper than `depth`
    pub tall: u32,
}

thread_local! {
    /// what long lists and deep nesting may still cost in the document being generated
    static LEFT: std::cell::Cell<(u64, u32)> = const { std::cell::Cell::new((0, 0)) };
}

pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub z: Size,
}

impl Gen<'_> {
    pub fn name(&mut self) -> String {
        if let Some(n) = edge(self.s, 20) {
            return "n".repeat(n);
        }
        if self.z.fat && self.s.chance(1, 20) {
            return self.s.pick(NAMES).repeat(self.s.scale(8) as usize + 1);
        }
        if self.s.chance(1, 12) {
            return self.s.pick(ODD_NAMES).to_string();
        }
        if self.s.chance(1, 6) {
            let n = if self.s.chance(1, 4) { self.s.range(10, 40) } else { self.s.range(1, 9) };
            let mut o = String::new();
            for i in 0..n {
                let set: &[u8] = if i == 0 {
                    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
                } else {
                    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
                };
                o.push(*self.s.pick(set) as char);
            }
            if ["on", "true", "false", "null"].contains(&o.as_str()) {
                o.push('_');
            }
            o
        } else {
            self.s.pick(NAMES).to_string()
        }
    }
    /// A name where every word is allowed.
    pub fn any_name(&mut self) -> String {
        if self.s.chance(1, 20) {
            self.s.pick(&["on", "true", "false", "null"]).to_string()
        } else {
            self.name()
        }
    }
    pub fn string(&mut self) -> String {
        let o = self.piece();
        if let Some(n) = edge(self.s, 6) {
            let tail: String = o.chars().take(n).collect();
            return "s".repeat(n - tail.chars().count()) + &tail;
        }
        if self.z.wild && self.s.chance(1, 12) {
            // lines that are indented further
            let mut t = String::new();
            for i in 0..self.s.range(2, 5) {
                if i > 0 {
                    t.push('\n');
                }
                let n = if self.s.chance(1, 3) { 0 } else { self.s.range(1, 20) };
                let c = *self.s.pick(&[' ', ' ', ' ', '\t']);
                (0..n).for_each(|_| t.push(c));
                t.push_str(&self.piece());
            }
            return t;
        }
        if self.z.fat && self.s.chance(1, 4) {
            // the same again and again, up to some thousand characters
            let k = self.s.scale(11) as usize / o.len().max(1) + 1;
            let p = self.piece();
            return o.repeat(k) + &p;
        }
        o
    }
    fn piece(&mut self) -> String {
        let n = self.s.scale(5);
        let mut o = String::new();
        for _ in 0..n {
            if !self.z.wild {
                o.push((b' ' + self.s.below(95) as u8) as char);
                continue;
            }
            match self.s.weighted(&[30, 12, 10, 6, 4, 4, 4, 4, 3, 3, 3, 3, 3]) {
                0 if self.s.chance(1, 6) => o.push(*self.s.pick(&['A', 'Z', 'Q', 'F', '0', '9', '7', '_', '-', '.', ';', '%'])),
                0 => o.push((b'a' + self.s.below(26) as u8) as char),
                1 => o.push(' '),
                2 => o.push('\n'),
                3 => o.push('"'),
                4 => o.push('\\'),
                5 => o.push_str("\"\"\""),
                6 => o.push_str(*self.s.pick(&["{", "}", "(", ")", "[", "]", "#", ",", "!", "$", "...", ":", "=", "@", "|", "&"])),
                7 => o.push_str(*self.s.pick(&["\t", "\r", "\r\n", "  ", "\n\n", "\n  ", " \n", "\n\t", "\u{b}", "\u{c}"])),
                8 => o.push(char::from_u32(self.s.below(0x20) as u32).unwrap()),
                9 => o.push(*self.s.pick(&['\u{7f}', '\u{80}', '\u{a0}', '\u{ad}', '\u{fffd}', '\u{ffff}', '\u{feff}', '\u{2028}', '\u{3000}', '\u{85}', '\u{d7ff}', '\u{e000}', '\u{200b}', '\u{200d}', '\u{2029}', '\u{301}', '\u{fe0f}', '\u{fffe}', '\u{1f}', '\u{9f}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}'])),
                10 => o.push(char::from_u32(0xa1 + self.s.below(0x2f00) as u32).unwrap_or('é')),
                11 => o.push(*self.s.pick(&['\u{10000}', '😀', '\u{10ffff}', '𝒳'])),
                _ => o.push_str(*self.s.pick(&["\\\"\"\"", "\\n", "\\u0041", "\\", "'", "/", "\u{8}", "\"\"", "\\\\\""])),
            }
        }
        o
    }
    fn int(&mut self) -> i64 {
        match self.s.weighted(&[12, 6, 4, 2, 2, 2, 3]) {
            6 => {
                // next to a power of two or ten
                let p = if self.s.chance(1, 2) { 1i128 << self.s.below(64) } else { 10i128.pow(self.s.below(19) as u32) };
                let n = (p + self.s.below(3) as i128 - 1) * if self.s.chance(1, 3) { -1 } else { 1 };
                n.clamp(i64::MIN as i128, i64::MAX as i128) as i64
            }
            0 => self.s.below(10) as i64,
            1 => self.s.below(100_000) as i64 - 50_000,
            2 => self.s.bits() as i32 as i64,
            3 => self.s.bits() as i64,
            4 => i64::MAX - self.s.below(2) as i64,
            _ => i64::MIN + self.s.below(2) as i64,
        }
    }
    fn float(&mut self) -> f64 {
        let f = match self.s.weighted(&[8, 8, 4, 4, 4, 3]) {
            5 => {
                // next to a power of two or ten
                let p = if self.s.chance(1, 2) { 2f64.powi(self.s.below(140) as i32 - 70) } else { 10f64.powi(self.s.below(60) as i32 - 30) };
                let p = f64::from_bits(p.to_bits() + self.s.below(3) - 1);
                if self.s.chance(1, 3) {
                    -p
                } else {
                    p
                }
            }
            0 => *self.s.pick(&[0.5, 1.0, 0.0, -0.0, 100.0, 1e9, 1e16, 9e90, 123456789.125, 1e-7, 5e-324, f64::MAX, f64::MIN_POSITIVE, -1e21, f64::INFINITY, f64::NEG_INFINITY, 9223372036854774784.0, 9223372036854775808.0]),
            1 => (self.s.below(2_000_000) as f64 - 1e6) / 64.0,
            2 => (self.s.bits() as i64) as f64,
            3 => f64::from_bits(self.s.bits()),
            _ => (self.s.below(200) as f64 - 100.0) * 10f64.powi(self.s.below(600) as i32 - 300),
        };
        // there is no literal for NaN; 1e999 is infinite
        if f.is_nan() {
            0.25
        } else {
            f
        }
    }
    pub fn val(&mut self, depth: u32, var: bool) -> Val {
        let w: &[u64] = if depth == 0 { &[3, 3, 2, 2, 2, 1, 2, 0, 0] } else { &[3, 3, 2, 2, 2, 1, 2, 2, 2] };
        match self.s.weighted(w) {
            0 => Val::Int(self.int()),
            1 => Val::Str(self.string()),
            2 => Val::Bool(self.s.chance(1, 2)),
            3 => Val::Enum(self.name()),
            4 => Val::Float(self.float().to_bits()),
            5 => Val::Null,
            6 if var => Val::Var(self.any_name()),
            6 => Val::Int(0),
            7 => {
                let w = self.z.width;
                Val::List(self.each(0, w, |g| g.val(depth - 1, var)))
            }
            _ => {
                let w = self.z.width;
                let mut xs = self.each(0, w, |g| (g.any_name(), g.val(depth - 1, var)));
                xs.sort_by(|a, b| a.0.cmp(&b.0));
                xs.dedup_by(|a, b| a.0 == b.0);
                Val::Obj(xs)
            }
        }
    }
    fn each<T: Clone>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let mut z = self.z;
        if z.fat && self.s.chance(1, 6) {
            // a few of them over and over
            z.fat = false;
            z.width = z.width.min(3);
            z.depth = z.depth.min(1);
            z.tall = 0;
            let v = self.s.many(min.max(1), 3, 1, 2, |s| f(&mut Gen { s, z }));
            let (long, tall) = LEFT.get();
            let n = self.s.scale(9).min(long) as usize;
            LEFT.set((long - n as u64, tall));
            return (0..n.max(v.len())).map(|i| v[i % v.len()].clone()).collect();
        }
        if self.s.chance(1, 32) {
            // a dozen, each of them small
            z.fat = false;
            z.width = z.width.min(2);
            z.depth = z.depth.min(1);
            z.tall = 0;
            let (long, tall) = LEFT.get();
            let n = self.s.range(4, 20).min(long) as usize;
            LEFT.set((long - n as u64, tall));
            if n >= 4 {
                return (0..n).map(|_| f(&mut Gen { s: self.s, z })).collect();
            }
        }
        self.s.many(min, max, 1, 2, |s| f(&mut Gen { s, z }))
    }
    /// How many more levels to put around something.
    fn levels(&mut self) -> u32 {
        if self.z.tall == 0 || !self.s.chance(1, 4) {
            return 0;
        }
        let n = self.s.range(1, self.z.tall as u64) as u32;
        let (long, tall) = LEFT.get();
        LEFT.set((long, tall.saturating_sub(n)));
        n.min(tall)
    }
    fn tall_val(&mut self, depth: u32, var: bool) -> Val {
        let n = self.levels();
        self.z.tall -= n;
        let mut v = self.val(depth, var);
        for _ in 0..n {
            v = match self.s.below(3) {
                0 => Val::List(vec![v]),
                1 => Val::Obj(vec![(self.any_name(), v)]),
                _ => Val::List(vec![Val::Int(1), v]),
            };
        }
        self.z.tall += n;
        v
    }
    fn tall_ty(&mut self) -> Ty {
        let n = self.levels();
        let mut t = self.ty(3);
        for _ in 0..n {
            t = Ty::List(Box::new(t));
            if self.s.chance(1, 3) {
                t = Ty::NonNull(Box::new(t));
            }
        }
        t
    }
    fn tall_sels(&mut self, depth: u32) -> Vec<Sel> {
        let n = self.levels();
        self.z.tall -= n;
        let mut v = self.sels(depth);
        for _ in 0..n {
            v = vec![match self.s.below(2) {
                0 => Sel::Field { alias: None, name: self.any_name(), args: self.args(), dirs: self.dirs(), sels: v },
                _ => Sel::Inline { cond: if self.s.chance(2, 3) { Some(self.any_name()) } else { None }, dirs: self.dirs(), sels: v },
            }];
        }
        self.z.tall += n;
        v
    }
    fn ty(&mut self, depth: u32) -> Ty {
        let t = if depth > 0 && self.s.chance(1, 4) { Ty::List(Box::new(self.ty(depth - 1))) } else { Ty::Name(self.any_name()) };
        if self.s.chance(1, 3) {
            Ty::NonNull(Box::new(t))
        } else {
            t
        }
    }
    fn args(&mut self) -> Vec<(String, Val)> {
        if !self.s.chance(1, 3) {
            return Vec::new();
        }
        let (d, w) = (self.z.depth.min(3), self.z.width);
        self.each(1, w, |g| (g.any_name(), g.tall_val(d, true)))
    }
    fn dirs(&mut self) -> Vec<Dir> {
        if !self.s.chance(1, 5) {
            return Vec::new();
        }
        self.each(1, 3, |g| Dir { name: g.any_name(), args: g.args() })
    }
    fn sels(&mut self, depth: u32) -> Vec<Sel> {
        let w = self.z.width;
        self.each(1, w, |g| match g.s.weighted(&[8, 1, if depth > 0 { 2 } else { 0 }]) {
            0 => Sel::Field {
                alias: if g.s.chance(1, 5) { Some(g.any_name()) } else { None },
                name: g.any_name(),
                args: g.args(),
                dirs: g.dirs(),
                sels: if depth > 0 && g.s.chance(1, 2) { g.sels(depth - 1) } else { Vec::new() },
            },
            1 => Sel::Spread { name: g.name(), dirs: g.dirs() },
            _ => Sel::Inline {
                cond: if g.s.chance(2, 3) { Some(g.any_name()) } else { None },
                dirs: g.dirs(),
                sels: g.sels(depth - 1),
            },
        })
    }
    pub fn qdef(&mut self) -> QDef {
        let d = self.s.below(self.z.depth as u64 + 1) as u32;
        match self.s.weighted(&[3, 6, 2]) {
            0 => QDef::Anon(self.tall_sels(d)),
            1 => QDef::Op {
                kind: *self.s.pick(&[OpKind::Query, OpKind::Mutation, OpKind::Subscription]),
                name: if self.s.chance(2, 3) { Some(self.any_name()) } else { None },
                vars: if self.s.chance(1, 2) {
                    let w = self.z.width;
                    self.each(1, w, |g| VarDef {
                        name: g.any_name(),
                        ty: g.tall_ty(),
                        default: if g.s.chance(1, 2) { Some(g.tall_val(2, false)) } else { None },
                    })
                } else {
                    Vec::new()
                },
                dirs: self.dirs(),
                sels: self.tall_sels(d),
            },
            _ => QDef::Frag { name: self.name(), cond: self.any_name(), dirs: self.dirs(), sels: self.tall_sels(d) },
        }
    }
    pub fn desc(&mut self) -> Option<String> {
        if self.s.chance(1, 3) {
            Some(self.string())
        } else {
            None
        }
    }
    fn input_val(&mut self) -> InputVal {
        InputVal {
            desc: self.desc(),
            name: self.any_name(),
            ty: self.tall_ty(),
            default: if self.s.chance(1, 3) { Some(self.tall_val(2, false)) } else { None },
            dirs: self.dirs(),
        }
    }
    fn field_defs(&mut self) -> Vec<FieldDef> {
        let w = self.z.width;
        self.each(0, w, |g| FieldDef {
            desc: g.desc(),
            name: g.any_name(),
            args: if g.s.chance(1, 3) { g.each(1, 3, |g| g.input_val()) } else { Vec::new() },
            ty: g.tall_ty(),
            dirs: g.dirs(),
        })
    }
    fn implements(&mut self) -> Vec<String> {
        if self.s.chance(1, 3) {
            self.each(1, 3, |g| g.any_name())
        } else {
            Vec::new()
        }
    }
    pub fn sdef(&mut self) -> SDef {
        match self.s.weighted(&[2, 10, 2]) {
            0 => {
                let mut o = || if self.s.chance(1, 2) { Some(Gen { s: self.s, z: self.z }.any_name()) } else { None };
                let (query, mutation, subscription) = (o(), o(), o());
                SDef::Schema { dirs: self.dirs(), query, mutation, subscription }
            }
            1 => {
                let ext = self.s.chance(1, 4);
                let w = self.z.width;
                let body = match self.s.below(6) {
                    0 => TypeBody::Scalar,
                    1 => TypeBody::Object { implements: self.implements(), fields: self.field_defs() },
                    2 => TypeBody::Interface { implements: self.implements(), fields: self.field_defs() },
                    3 => TypeBody::Union { types: self.each(0, w, |g| g.any_name()) },
                    4 => TypeBody::Enum {
                        values: self.each(0, w, |g| EnumVal { desc: g.desc(), name: g.any_name(), dirs: g.dirs() }),
                    },
                    _ => TypeBody::Input { fields: self.each(0, w, |g| g.input_val()) },
                };
                let mut dirs = self.dirs();
                let name = self.any_name();
                let empty = match &body {
                    TypeBody::Scalar => true,
                    TypeBody::Object { implements, fields } | TypeBody::Interface { implements, fields } => {
                        implements.is_empty() && fields.is_empty()
                    }
                    TypeBody::Union { types } => types.is_empty(),
                    TypeBody::Enum { values } => values.is_empty(),
                    TypeBody::Input { fields } => fields.is_empty(),
                };
                if ext && empty && dirs.is_empty() {
                    dirs.push(Dir { name: "x".into(), args: Vec::new() });
                }
                SDef::Type { ext, desc: if ext { None } else { self.desc() }, name, dirs, body }
            }
            _ => SDef::Directive {
                desc: self.desc(),
                name: self.any_name(),
                args: if self.s.chance(1, 2) { self.each(1, 3, |g| g.input_val()) } else { Vec::new() },
                repeatable: self.s.chance(1, 4),
                locations: self.each(1, 4, |g| g.s.pick(LOCATIONS).to_string()),
            },
        }
    }
    pub fn query(&mut self, max: usize) -> Vec<QDef> {
        self.each(1, max, |g| g.qdef())
    }
    pub fn schema(&mut self, max: usize) -> Vec<SDef> {
        self.each(1, max, |g| g.sdef())
    }
}

thread_local! {
    /// how many more things of this document may get a length around the width of a counter
    static EDGES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Now and then a length around the width of a counter or the size of a buffer.
fn edge(s: &mut Src, one_in: u64) -> Option<usize> {
    if EDGES.get() == 0 || !s.chance(1, one_in) {
        return None;
    }
    let w = *s.pick(&[256, 256, 256, 256, 65536, 65536, 128, 512, 1024, 1024, 2048, 4096]);
    // one that large is enough
    EDGES.set(if w == 65536 { 0 } else { EDGES.get() - 1 });
    Some((w + s.below(12) - 6) as usize)
}
pub fn size(s: &mut Src) -> Size {
    LEFT.set((1500, 100));
    EDGES.set(if s.chance(1, 24) { s.range(1, 3) as u32 } else { 0 });
    // mostly small documents; now and then wide or deep ones
    Size {
        depth: *s.pick(&[1, 2, 1, 2, 3, 4, 8]),
        width: *s.pick(&[2, 3, 2, 3, 4, 6, 10]),
        wild: s.chance(2, 3),
        fat: s.chance(1, 10),
        tall: if s.chance(1, 12) { 30 } else { 0 },
    }
}
pub fn any(s: &mut Src, schema: bool) -> Model {
    let z = size(s);
    let max = *s.pick(&[1usize, 2, 3, 5, 8]);
    let mut g = Gen { s, z };
    if schema {
        Model::Schema(g.schema(max))
    } else {
        Model::Query(g.query(max))
    }
}

// -------------------------------------------------------------------------------------- rendering

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: String,
    /// name, number or string: needs a separator before another such token
    pub word: bool,
    pub num: bool,
}

/// Renders a model to tokens. Literals are written in one of their legal spellings.
pub struct Toks<'s> {
    pub s: &'s mut Src,
    pub o: Vec<Tok>,
    pub plain: bool,
}
impl Toks<'_> {
    fn p(&mut self, t: &str) {
        self.o.push(Tok { t: t.into(), word: false, num: false });
    }
    fn w(&mut self, t: &str) {
        self.o.push(Tok { t: t.into(), word: true, num: false });
    }
    fn n(&mut self, t: &str) {
        self.o.push(Tok { t: t.into(), word: true, num: true });
    }
    fn string(&mut self, v: &str) {
        if !self.plain && block_ok(v) && self.s.chance(1, 3) {
            let t = self.block(v);
            return self.w(&t);
        }
        let mut o = String::from("\"");
        for c in v.chars() {
            let short = matches!(c, '\u{8}' | '\u{c}' | '\t' | '/');
            let esc = !self.plain && self.s.chance(if short { 6 } else { 1 }, 12);
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\u{8}' if esc && self.s.chance(3, 4) => o.push_str("\\b"),
                '\u{c}' if esc && self.s.chance(3, 4) => o.push_str("\\f"),
                '\t' if esc => o.push_str("\\t"),
                '/' if esc => o.push_str("\\/"),
                '\t' => o.push('\t'),
                c if (c as u32) < 0x20 || (esc && (c as u32) < 0x10000) => {
                    if self.s.chance(1, 4) {
                        // hexadecimal digits of either case
                        let h: String = format!("{:04x}", c as u32).chars().map(|d| if self.s.chance(1, 2) { d.to_ascii_uppercase() } else { d }).collect();
                        o.push_str(&format!("\\u{h}"))
                    } else if self.s.chance(1, 2) {
                        o.push_str(&format!("\\u{:04x}", c as u32))
                    } else {
                        o.push_str(&format!("\\u{:04X}", c as u32))
                    }
                }
                c => o.push(c),
            }
        }
        o.push('"');
        self.w(&o)
    }
    /// Blanks of either kind.
    fn blanks(&mut self, n: u64) -> String {
        let tabs = self.s.chance(1, 4);
        (0..n).map(|_| if tabs && self.s.chance(1, 2) { '\t' } else { ' ' }).collect()
    }
    fn newline(&mut self) -> &'static str {
        *self.s.pick(&["\n", "\n", "\n", "\r\n"])
    }
    fn block(&mut self, v: &str) -> String {
        let indent = if self.s.chance(1, 12) { self.s.below(40) } else { self.s.below(5) };
        let mut o = String::from("\"\"\"");
        let lines: Vec<&str> = v.split('\n').collect();
        // the first line may follow the quotes directly: it is then not indented, and what the others
        // have in common is removed
        let inline = !v.starts_with('"')
            && (lines.len() == 1 || lines[1..].iter().any(|l| !l.is_empty() && !l.starts_with([' ', '\t'])))
            && self.s.chance(1, 2);
        if !inline {
            for _ in 0..self.s.below(3) {
                let n = self.s.below(3);
                o.push_str(&self.blanks(n));
                o.push_str(self.newline());
            }
        }
        for (i, l) in lines.iter().enumerate() {
            if !(i == 0 && inline) {
                if i > 0 || !o.ends_with('\n') {
                    o.push_str(self.newline());
                }
                // of an empty line no more than the indentation is left over
                let n = if l.is_empty() { self.s.below(indent + 1) } else { indent };
                o.push_str(&self.blanks(n));
            }
            o.push_str(&l.replace("\"\"\"", "\\\"\"\""));
        }
        let bad_end = v.ends_with(['"', '\\']);
        if !inline || bad_end || self.s.chance(1, 2) {
            for _ in 0..self.s.range(1, 2) {
                o.push_str(self.newline());
                let n = self.s.below(4);
                o.push_str(&self.blanks(n));
            }
        }
        o.push_str("\"\"\"");
        o
    }
    fn float(&mut self, f: f64) -> String {
        if f.is_infinite() {
            return if f > 0.0 { "1e999" } else { "-2.5E+4567" }.into();
        }
        let d = format!("{f:?}");
        let sci = format!("{f:e}");
        let (m, e) = sci.split_once('e').unwrap();
        let m = if m.contains('.') || (self.plain || self.s.chance(1, 2)) { m.to_string() } else { format!("{m}.0") };
        let odd = !self.plain && self.s.chance(1, 3);
        // zeros that mean nothing
        let m = if odd && m.contains('.') { m + &"0".repeat(self.s.scale(5) as usize) } else { m };
        let (sign, digits) = if let Some(d) = e.strip_prefix('-') { ("-", d) } else { ("+", e) };
        let zeros = if odd { "0".repeat(self.s.scale(3) as usize) } else { String::new() };
        // (an exponent that starts with 0 needs its sign: an existing test of the library demands it)
        let sign = if odd && sign == "+" && zeros.is_empty() && !digits.starts_with('0') && self.s.chance(1, 2) { "" } else { sign };
        let e = format!("{zeros}{digits}");
        let c = if self.plain { 0 } else { self.s.below(3) };
        match c {
            0 if !d.contains('e') => d,
            1 if f.abs() < 1e22 && f.abs() > 1e-5 => {
                let s = format!("{f}");
                if s.contains('.') {
                    s
                } else {
                    format!("{s}.0")
                }
            }
            2 => format!("{m}E{sign}{e}"),
            _ => format!("{m}e{sign}{e}"),
        }
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Null => self.w("null"),
            Val::Bool(b) => self.w(if *b { "true" } else { "false" }),
            Val::Int(i) => {
                let t = if *i == 0 && !self.plain && self.s.chance(1, 6) { "-0".to_string() } else { i.to_string() };
                self.n(&t)
            }
            Val::Float(b) => {
                let t = self.float(f64::from_bits(*b));
                self.n(&t)
            }
            Val::Str(s) => self.string(s),
            Val::Enum(e) => self.w(e),
            Val::Var(v) => {
                self.p("$");
                self.w(v);
            }
            Val::List(xs) => {
                self.p("[");
                xs.iter().for_each(|x| self.val(x));
                self.p("]");
            }
            Val::Obj(xs) => {
                self.p("{");
                // in any order
                let from = if self.plain || xs.len() < 2 { 0 } else { self.s.below(xs.len() as u64) as usize };
                let back = !self.plain && xs.len() > 1 && self.s.chance(1, 3);
                for i in 0..xs.len() {
                    let i = (i + from) % xs.len();
                    let (n, v) = &xs[if back { xs.len() - 1 - i } else { i }];
                    self.w(n);
                    self.p(":");
                    self.val(v);
                }
                self.p("}");
            }
        }
    }
    fn args(&mut self, a: &[(String, Val)]) {
        if !a.is_empty() {
            self.p("(");
            for (n, v) in a {
                self.w(n);
                self.p(":");
                self.val(v);
            }
            self.p(")");
        }
    }
    fn dirs(&mut self, ds: &[Dir]) {
        for d in ds {
            self.p("@");
            self.w(&d.name);
            self.args(&d.args);
        }
    }
    fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Name(n) => self.w(n),
            Ty::List(t) => {
                self.p("[");
                self.ty(t);
                self.p("]");
            }
            Ty::NonNull(t) => {
                self.ty(t);
                self.p("!");
            }
        }
    }
    fn sels(&mut self, xs: &[Sel]) {
        self.p("{");
        for x in xs {
            match x {
                Sel::Field { alias, name, args, dirs, sels } => {
                    if let Some(a) = alias {
                        self.w(a);
                        self.p(":");
                    }
                    self.w(name);
                    self.args(args);
                    self.dirs(dirs);
                    if !sels.is_empty() {
                        self.sels(sels);
                    }
                }
                Sel::Spread { name, dirs } => {
                    self.p("...");
                    self.w(name);
                    self.dirs(dirs);
                }
                Sel::Inline { cond, dirs, sels } => {
                    self.p("...");
                    if let Some(c) = cond {
                        self.w("on");
                        self.w(c);
                    }
                    self.dirs(dirs);
                    self.sels(sels);
                }
            }
        }
        self.p("}");
    }
    pub fn qdef(&mut self, d: &QDef) {
        match d {
            QDef::Anon(s) => self.sels(s),
            QDef::Op { kind, name, vars, dirs, sels } => {
                self.w(match kind {
                    OpKind::Query => "query",
                    OpKind::Mutation => "mutation",
                    OpKind::Subscription => "subscription",
                });
                if let Some(n) = name {
                    self.w(n);
                }
                if !vars.is_empty() {
                    self.p("(");
                    for v in vars {
                        self.p("$");
                        self.w(&v.name);
                        self.p(":");
                        self.ty(&v.ty);
                        if let Some(d) = &v.default {
                            self.p("=");
                            self.val(d);
                        }
                    }
                    self.p(")");
                }
                self.dirs(dirs);
                self.sels(sels);
            }
            QDef::Frag { name, cond, dirs, sels } => {
                self.w("fragment");
                self.w(name);
                self.w("on");
                self.w(cond);
                self.dirs(dirs);
                self.sels(sels);
            }
        }
    }
    fn desc(&mut self, d: &Option<String>) {
        if let Some(s) = d {
            self.string(s);
        }
    }
    fn input_val(&mut self, x: &InputVal) {
        self.desc(&x.desc);
        self.w(&x.name);
        self.p(":");
        self.ty(&x.ty);
        if let Some(v) = &x.default {
            self.p("=");
            self.val(v);
        }
        self.dirs(&x.dirs);
    }
    fn bars(&mut self, sep: &str, xs: &[String]) {
        if !self.plain && self.s.chance(1, 4) {
            self.p(sep);
        }
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.p(sep);
            }
            self.w(x);
        }
    }
    pub fn sdef(&mut self, d: &SDef) {
        match d {
            SDef::Schema { dirs, query, mutation, subscription } => {
                self.w("schema");
                self.dirs(dirs);
                self.p("{");
                let from = if self.plain { 0 } else { self.s.below(3) as usize };
                let ops = [("query", query), ("mutation", mutation), ("subscription", subscription)];
                for i in 0..3 {
                    let (k, v) = ops[(i + from) % 3];
                    if let Some(v) = v {
                        self.w(k);
                        self.p(":");
                        self.w(v);
                    }
                }
                self.p("}");
            }
            SDef::Type { ext, desc, name, dirs, body } => {
                self.desc(desc);
                if *ext {
                    self.w("extend");
                }
                self.w(match body {
                    TypeBody::Scalar => "scalar",
                    TypeBody::Object { .. } => "type",
                    TypeBody::Interface { .. } => "interface",
                    TypeBody::Union { .. } => "union",
                    TypeBody::Enum { .. } => "enum",
                    TypeBody::Input { .. } => "input",
                });
                self.w(name);
                if let TypeBody::Object { implements, .. } | TypeBody::Interface { implements, .. } = body {
                    if !implements.is_empty() {
                        self.w("implements");
                        self.bars("&", implements);
                    }
                }
                self.dirs(dirs);
                match body {
                    TypeBody::Object { fields, .. } | TypeBody::Interface { fields, .. } if !fields.is_empty() => {
                        self.p("{");
                        for f in fields {
                            self.desc(&f.desc);
                            self.w(&f.name);
                            if !f.args.is_empty() {
                                self.p("(");
                                f.args.iter().for_each(|a| self.input_val(a));
                                self.p(")");
                            }
                            self.p(":");
                            self.ty(&f.ty);
                            self.dirs(&f.dirs);
                        }
                        self.p("}");
                    }
                    TypeBody::Union { types } if !types.is_empty() => {
                        self.p("=");
                        self.bars("|", types);
                    }
                    TypeBody::Enum { values } if !values.is_empty() => {
                        self.p("{");
                        for v in values {
                            self.desc(&v.desc);
                            self.w(&v.name);
                            self.dirs(&v.dirs);
                        }
                        self.p("}");
                    }
                    TypeBody::Input { fields } if !fields.is_empty() => {
                        self.p("{");
                        fields.iter().for_each(|f| self.input_val(f));
                        self.p("}");
                    }
                    _ => {}
                }
            }
            SDef::Directive { desc, name, args, repeatable, locations } => {
                self.desc(desc);
                self.w("directive");
                self.p("@");
                self.w(name);
                if !args.is_empty() {
                    self.p("(");
                    args.iter().for_each(|a| self.input_val(a));
                    self.p(")");
                }
                if *repeatable {
                    self.w("repeatable");
                }
                self.w("on");
                self.bars("|", locations);
            }
        }
    }
}

/// Can this value be written as a block string (by the specification's rules)?
fn block_ok(v: &str) -> bool {
    if v.is_empty() || v.chars().any(|c| (c < ' ' && c != '\n' && c != '\t') || c == '\u{7f}') {
        return false;
    }
    let ls: Vec<&str> = v.split('\n').collect();
    let blank = |l: &str| l.chars().all(|c| c == ' ' || c == '\t');
    // the outer lines must not be blank, and at least one line must start in the first column
    !blank(ls[0]) && !blank(ls[ls.len() - 1]) && ls.iter().any(|l| !l.is_empty() && !l.starts_with([' ', '\t']))
}

/// Writes ignored characters.
fn trivia(s: &mut Src, o: &mut String, need: bool) {
    let n = s.weighted(&[50, 30, 8, 4, 2]);
    let n = if need { n.max(1) } else { n };
    if let Some(k) = edge(s, 40) {
        match s.below(3) {
            0 => o.push_str(&" ".repeat(k)),
            1 => o.push_str(&"\n".repeat(k)),
            _ => o.push_str(&format!("#{}\n", "c".repeat(k - 1))),
        }
    }
    for _ in 0..n {
        match s.weighted(&[40, 20, 10, 6, 6, 5, 3]) {
            0 => o.push(' '),
            1 => o.push('\n'),
            2 => o.push_str(", "),
            3 => o.push(','),
            4 => o.push('\t'),
            5 => {
                o.push('#');
                let k = s.scale(4);
                for _ in 0..k {
                    o.push(*s.pick(&['a', ' ', '"', '{', '}', '#', '(', '\\', ',', 'é', '😀', '\t', '\u{2028}']));
                }
                o.push_str(*s.pick(&["\n", "\n", "\r\n", "\n", "\n", "\r"]));
            }
            _ if s.chance(2, 3) => o.push('\u{feff}'),
            _ => o.push_str("\r\n"),
        }
    }
}

/// Lays tokens out with seeded ignored characters between them.
pub fn layout(s: &mut Src, toks: &[Tok], plain: bool) -> String {
    let mut o = String::new();
    if !plain {
        trivia(s, &mut o, false);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let need = toks[i - 1].word && t.word;
            if plain {
                // nothing that could be left out
                if need || (toks[i - 1].num && t.t.starts_with('.')) {
                    o.push(' ');
                }
            } else {
                // a string delimits itself, two of them could fuse
                let (a, b) = (toks[i - 1].t.ends_with('"'), t.t.starts_with('"'));
                trivia(s, &mut o, (need && a == b) || (toks[i - 1].num && t.t.starts_with('.')));
            }
        }
        o.push_str(&t.t);
    }
    o
}

pub fn tokens(s: &mut Src, m: &Model, plain: bool) -> Vec<Tok> {
    let mut t = Toks { s, o: Vec::new(), plain };
    match m {
        Model::Query(ds) => ds.iter().for_each(|d| t.qdef(d)),
        Model::Schema(ds) => ds.iter().for_each(|d| t.sdef(d)),
    }
    t.o
}
/// The model written out in some legal layout.
pub fn write(s: &mut Src, m: &Model) -> String {
    let plain = s.chance(1, 4);
    let t = tokens(s, m, plain);
    let mut o = layout(s, &t, plain);
    if s.chance(1, 3) {
        trivia(s, &mut o, false);
        if s.chance(1, 4) {
            o.push_str("# the end");
        }
    }
    o
}
