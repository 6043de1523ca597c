//! Thin, instrumented wrappers around the library's public API. Everything generic in the library
//! is instantiated here, so that it carries scheduling points like the rest of it.
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::{Pos, Style};
use simrt::text::SimText;
use std::borrow::Cow;
use std::fmt::{self, Display, Write};

/// How the caller holds text.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fl {
    Own,
    Str,
    Cow,
    Sim,
}
pub const FLAVOURS: [Fl; 4] = [Fl::Own, Fl::Str, Fl::Cow, Fl::Sim];

#[derive(PartialEq)]
pub enum Doc<'a> {
    QOwn(q::Document<'a, String>),
    QStr(q::Document<'a, &'a str>),
    QCow(q::Document<'a, Cow<'a, str>>),
    QSim(q::Document<'a, SimText>),
    SOwn(s::Document<'a, String>),
    SStr(s::Document<'a, &'a str>),
    SCow(s::Document<'a, Cow<'a, str>>),
    SSim(s::Document<'a, SimText>),
}

pub enum Fail {
    Q(q::ParseError),
    S(s::ParseError),
}

macro_rules! each {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            Doc::QOwn($x) => $e,
            Doc::QStr($x) => $e,
            Doc::QCow($x) => $e,
            Doc::QSim($x) => $e,
            Doc::SOwn($x) => $e,
            Doc::SStr($x) => $e,
            Doc::SCow($x) => $e,
            Doc::SSim($x) => $e,
        }
    };
}

#[inline(never)]
pub fn parse_query(fl: Fl, t: &str) -> Result<Doc<'_>, Fail> {
    match fl {
        Fl::Own => q::parse_query::<String>(t).map(Doc::QOwn),
        Fl::Str => q::parse_query::<&str>(t).map(Doc::QStr),
        Fl::Cow => q::parse_query::<Cow<str>>(t).map(Doc::QCow),
        Fl::Sim => q::parse_query::<SimText>(t).map(Doc::QSim),
    }
    .map_err(Fail::Q)
}
#[inline(never)]
pub fn parse_schema(fl: Fl, t: &str) -> Result<Doc<'_>, Fail> {
    match fl {
        Fl::Own => s::parse_schema::<String>(t).map(Doc::SOwn),
        Fl::Str => s::parse_schema::<&str>(t).map(Doc::SStr),
        Fl::Cow => s::parse_schema::<Cow<str>>(t).map(Doc::SCow),
        Fl::Sim => s::parse_schema::<SimText>(t).map(Doc::SSim),
    }
    .map_err(Fail::S)
}
/// Consumes one definition; it is handed on as a document of one definition.
#[inline(never)]
pub fn consume(fl: Fl, t: &str) -> Result<(Doc<'_>, &str), Fail> {
    fn one<'a, T: q::Text<'a>>(d: q::Definition<'a, T>) -> q::Document<'a, T> {
        q::Document { definitions: vec![d] }
    }
    match fl {
        Fl::Own => q::consume_definition::<String>(t).map(|(d, r)| (Doc::QOwn(one(d)), r)),
        Fl::Str => q::consume_definition::<&str>(t).map(|(d, r)| (Doc::QStr(one(d)), r)),
        Fl::Cow => q::consume_definition::<Cow<str>>(t).map(|(d, r)| (Doc::QCow(one(d)), r)),
        Fl::Sim => q::consume_definition::<SimText>(t).map(|(d, r)| (Doc::QSim(one(d)), r)),
    }
    .map_err(Fail::Q)
}
#[inline(never)]
pub fn minify(t: String) -> Result<String, Box<dyn std::error::Error>> {
    graphql_parser::minify_query(t).map_err(|e| Box::new(e) as Box<dyn std::error::Error>)
}

impl Fail {
    #[inline(never)]
    pub fn display(&self) -> String {
        match self {
            Fail::Q(e) => e.to_string(),
            Fail::S(e) => e.to_string(),
        }
    }
    #[inline(never)]
    pub fn debug(&self) -> String {
        match self {
            Fail::Q(e) => format!("{e:?}"),
            Fail::S(e) => format!("{e:?}"),
        }
    }
    pub fn node(&self) -> &dyn Display {
        match self {
            Fail::Q(e) => e,
            Fail::S(e) => e,
        }
    }
}

impl<'a> Doc<'a> {
    #[inline(never)]
    pub fn debug(&self) -> String {
        each!(self, d => format!("{d:?}"))
    }
    #[inline(never)]
    pub fn display(&self) -> String {
        each!(self, d => d.to_string())
    }
    #[inline(never)]
    pub fn format(&self, style: &Style) -> String {
        each!(self, d => d.format(style))
    }
    #[inline(never)]
    pub fn write(&self, w: &mut dyn Write) -> fmt::Result {
        each!(self, d => write!(w, "{d}"))
    }
    #[inline(never)]
    pub fn duplicate(&self) -> Doc<'a> {
        match self {
            Doc::QOwn(d) => Doc::QOwn(d.clone()),
            Doc::QStr(d) => Doc::QStr(d.clone()),
            Doc::QCow(d) => Doc::QCow(d.clone()),
            Doc::QSim(d) => Doc::QSim(d.clone()),
            Doc::SOwn(d) => Doc::SOwn(d.clone()),
            Doc::SStr(d) => Doc::SStr(d.clone()),
            Doc::SCow(d) => Doc::SCow(d.clone()),
            Doc::SSim(d) => Doc::SSim(d.clone()),
        }
    }
    #[inline(never)]
    pub fn same(&self, o: &Doc<'a>) -> bool {
        self == o
    }
    #[inline(never)]
    pub fn discard(self) {
        each!(self, d => drop(d))
    }
    /// Every node of the document that can be displayed on its own, in document order.
    pub fn nodes<'d>(&'d self) -> Vec<(&'static str, &'d dyn Display)> {
        let mut out = Vec::new();
        match self {
            Doc::QOwn(d) => q_nodes(d, &mut out),
            Doc::QStr(d) => q_nodes(d, &mut out),
            Doc::QCow(d) => q_nodes(d, &mut out),
            Doc::QSim(d) => q_nodes(d, &mut out),
            Doc::SOwn(d) => s_nodes(d, &mut out),
            Doc::SStr(d) => s_nodes(d, &mut out),
            Doc::SCow(d) => s_nodes(d, &mut out),
            Doc::SSim(d) => s_nodes(d, &mut out),
        }
        out
    }
    /// Converts every argument value of the document to its static form.
    #[inline(never)]
    pub fn static_values(&self) -> Vec<q::Value<'static, String>> {
        let mut out = Vec::new();
        match self {
            Doc::QOwn(d) => q_values(d, &mut out),
            Doc::QStr(d) => q_values(d, &mut out),
            Doc::QCow(d) => q_values(d, &mut out),
            Doc::QSim(d) => q_values(d, &mut out),
            Doc::SOwn(d) => s_values(d, &mut out),
            Doc::SStr(d) => s_values(d, &mut out),
            Doc::SCow(d) => s_values(d, &mut out),
            Doc::SSim(d) => s_values(d, &mut out),
        }
        out
    }
    /// The static form of a document with owned text.
    #[inline(never)]
    pub fn into_static(self) -> Option<Doc<'static>> {
        match self {
            Doc::QOwn(d) => Some(Doc::QOwn(d.into_static())),
            Doc::SOwn(d) => Some(Doc::SOwn(d.into_static())),
            _ => None,
        }
    }
}

/// `Display::fmt` of a node into a writer, one way a caller can do it.
/// Formatting parameters a caller may use.
pub const LOOKS: u64 = 5;
macro_rules! put {
    ($w:expr, $n:expr, $look:expr) => {
        match $look {
            0 => write!($w, "{}", $n),
            1 => write!($w, "{:#}", $n),
            2 => write!($w, "{:>40}", $n),
            3 => write!($w, "{:.3}", $n),
            _ => write!($w, "{:*^+9.7}", $n),
        }
    };
}
#[inline(never)]
pub fn write_node(n: &dyn Display, w: &mut dyn Write, look: u64) -> fmt::Result {
    put!(w, n, look)
}
#[inline(never)]
pub fn io_write_node(n: &dyn Display, w: &mut dyn std::io::Write, look: u64) -> std::io::Result<()> {
    put!(w, n, look)
}
#[inline(never)]
pub fn node_string(n: &dyn Display, look: u64) -> String {
    if look == 0 {
        return n.to_string();
    }
    let mut s = String::new();
    put!(s, n, look).expect("a String accepts everything");
    s
}

type Out<'d> = Vec<(&'static str, &'d dyn Display)>;

fn pos<'d>(p: &'d Pos, o: &mut Out<'d>) {
    o.push(("Pos", p));
}
fn dirs<'d, 'a: 'd, T: q::Text<'a>>(ds: &'d [q::Directive<'a, T>], o: &mut Out<'d>) {
    for d in ds {
        o.push(("Directive", d));
        pos(&d.position, o);
        for (_, v) in &d.arguments {
            value(v, o);
        }
    }
}
fn value<'d, 'a: 'd, T: q::Text<'a>>(v: &'d q::Value<'a, T>, o: &mut Out<'d>) {
    o.push(("Value", v));
    match v {
        q::Value::List(xs) => xs.iter().for_each(|x| value(x, o)),
        q::Value::Object(m) => m.values().for_each(|x| value(x, o)),
        _ => {}
    }
}
fn ty<'d, 'a: 'd, T: q::Text<'a>>(t: &'d q::Type<'a, T>, o: &mut Out<'d>) {
    o.push(("Type", t));
    match t {
        q::Type::ListType(t) | q::Type::NonNullType(t) => ty(t, o),
        _ => {}
    }
}
fn sels<'d, 'a: 'd, T: q::Text<'a>>(x: &'d q::SelectionSet<'a, T>, o: &mut Out<'d>) {
    if !x.items.is_empty() {
        o.push(("SelectionSet", x));
    }
    pos(&x.span.1, o);
    for i in &x.items {
        match i {
            q::Selection::Field(f) => {
                o.push(("Field", f));
                f.arguments.iter().for_each(|(_, v)| value(v, o));
                dirs(&f.directives, o);
                sels(&f.selection_set, o);
            }
            q::Selection::FragmentSpread(f) => {
                o.push(("FragmentSpread", f));
                dirs(&f.directives, o);
            }
            q::Selection::InlineFragment(f) => {
                o.push(("InlineFragment", f));
                if let Some(c) = &f.type_condition {
                    o.push(("TypeCondition", c));
                }
                dirs(&f.directives, o);
                sels(&f.selection_set, o);
            }
        }
    }
}
fn vars<'d, 'a: 'd, T: q::Text<'a>>(xs: &'d [q::VariableDefinition<'a, T>], o: &mut Out<'d>) {
    for x in xs {
        o.push(("VariableDefinition", x));
        ty(&x.var_type, o);
        if let Some(v) = &x.default_value {
            value(v, o);
        }
    }
}
fn q_nodes<'d, 'a: 'd, T: q::Text<'a>>(d: &'d q::Document<'a, T>, o: &mut Out<'d>) {
    o.push(("Document", d));
    for x in &d.definitions {
        o.push(("Definition", x));
        match x {
            q::Definition::Operation(op) => {
                o.push(("OperationDefinition", op));
                match op {
                    q::OperationDefinition::SelectionSet(x) => sels(x, o),
                    q::OperationDefinition::Query(x) => {
                        o.push(("Query", x));
                        vars(&x.variable_definitions, o);
                        dirs(&x.directives, o);
                        sels(&x.selection_set, o);
                    }
                    q::OperationDefinition::Mutation(x) => {
                        o.push(("Mutation", x));
                        vars(&x.variable_definitions, o);
                        dirs(&x.directives, o);
                        sels(&x.selection_set, o);
                    }
                    q::OperationDefinition::Subscription(x) => {
                        o.push(("Subscription", x));
                        vars(&x.variable_definitions, o);
                        dirs(&x.directives, o);
                        sels(&x.selection_set, o);
                    }
                }
            }
            q::Definition::Fragment(f) => {
                o.push(("FragmentDefinition", f));
                o.push(("TypeCondition", &f.type_condition));
                dirs(&f.directives, o);
                sels(&f.selection_set, o);
            }
        }
    }
}
fn inputs<'d, 'a: 'd, T: q::Text<'a>>(xs: &'d [s::InputValue<'a, T>], o: &mut Out<'d>) {
    for x in xs {
        o.push(("InputValue", x));
        ty(&x.value_type, o);
        if let Some(v) = &x.default_value {
            value(v, o);
        }
        dirs(&x.directives, o);
    }
}
fn fields<'d, 'a: 'd, T: q::Text<'a>>(xs: &'d [s::Field<'a, T>], o: &mut Out<'d>) {
    for x in xs {
        o.push(("Field", x));
        inputs(&x.arguments, o);
        ty(&x.field_type, o);
        dirs(&x.directives, o);
    }
}
fn s_nodes<'d, 'a: 'd, T: q::Text<'a>>(d: &'d s::Document<'a, T>, o: &mut Out<'d>) {
    use s::TypeDefinition as D;
    use s::TypeExtension as X;
    o.push(("Document", d));
    for x in &d.definitions {
        o.push(("Definition", x));
        match x {
            s::Definition::SchemaDefinition(x) => {
                o.push(("SchemaDefinition", x));
                dirs(&x.directives, o);
            }
            s::Definition::TypeDefinition(t) => {
                o.push(("TypeDefinition", t));
                match t {
                    D::Scalar(x) => {
                        o.push(("ScalarType", x));
                        dirs(&x.directives, o);
                    }
                    D::Object(x) => {
                        o.push(("ObjectType", x));
                        dirs(&x.directives, o);
                        fields(&x.fields, o);
                    }
                    D::Interface(x) => {
                        o.push(("InterfaceType", x));
                        dirs(&x.directives, o);
                        fields(&x.fields, o);
                    }
                    D::Union(x) => {
                        o.push(("UnionType", x));
                        dirs(&x.directives, o);
                    }
                    D::Enum(x) => {
                        o.push(("EnumType", x));
                        dirs(&x.directives, o);
                        x.values.iter().for_each(|v| dirs(&v.directives, o));
                    }
                    D::InputObject(x) => {
                        o.push(("InputObjectType", x));
                        dirs(&x.directives, o);
                        inputs(&x.fields, o);
                    }
                }
            }
            s::Definition::TypeExtension(t) => {
                o.push(("TypeExtension", t));
                match t {
                    X::Scalar(x) => {
                        o.push(("ScalarTypeExtension", x));
                        dirs(&x.directives, o);
                    }
                    X::Object(x) => {
                        o.push(("ObjectTypeExtension", x));
                        dirs(&x.directives, o);
                        fields(&x.fields, o);
                    }
                    X::Interface(x) => {
                        o.push(("InterfaceTypeExtension", x));
                        dirs(&x.directives, o);
                        fields(&x.fields, o);
                    }
                    X::Union(x) => {
                        o.push(("UnionTypeExtension", x));
                        dirs(&x.directives, o);
                    }
                    X::Enum(x) => {
                        o.push(("EnumTypeExtension", x));
                        dirs(&x.directives, o);
                        x.values.iter().for_each(|v| dirs(&v.directives, o));
                    }
                    X::InputObject(x) => {
                        o.push(("InputObjectTypeExtension", x));
                        dirs(&x.directives, o);
                        inputs(&x.fields, o);
                    }
                }
            }
            s::Definition::DirectiveDefinition(x) => {
                o.push(("DirectiveDefinition", x));
                inputs(&x.arguments, o);
            }
        }
    }
}

type Vals = Vec<q::Value<'static, String>>;
fn args_static<'a, T: q::Text<'a>>(xs: &[(T::Value, q::Value<'a, T>)], o: &mut Vals) {
    o.extend(xs.iter().map(|(_, v)| v.into_static()));
}
fn dirs_static<'a, T: q::Text<'a>>(ds: &[q::Directive<'a, T>], o: &mut Vals) {
    ds.iter().for_each(|d| args_static::<T>(&d.arguments, o));
}
fn sels_static<'a, T: q::Text<'a>>(x: &q::SelectionSet<'a, T>, o: &mut Vals) {
    for i in &x.items {
        match i {
            q::Selection::Field(f) => {
                args_static::<T>(&f.arguments, o);
                dirs_static(&f.directives, o);
                sels_static(&f.selection_set, o);
            }
            q::Selection::FragmentSpread(f) => dirs_static(&f.directives, o),
            q::Selection::InlineFragment(f) => {
                dirs_static(&f.directives, o);
                sels_static(&f.selection_set, o);
            }
        }
    }
}
fn q_values<'a, T: q::Text<'a>>(d: &q::Document<'a, T>, o: &mut Vals) {
    for x in &d.definitions {
        let vd: &[q::VariableDefinition<'a, T>] = match x {
            q::Definition::Operation(q::OperationDefinition::SelectionSet(x)) => {
                sels_static(x, o);
                &[]
            }
            q::Definition::Operation(q::OperationDefinition::Query(x)) => {
                dirs_static(&x.directives, o);
                sels_static(&x.selection_set, o);
                &x.variable_definitions
            }
            q::Definition::Operation(q::OperationDefinition::Mutation(x)) => {
                dirs_static(&x.directives, o);
                sels_static(&x.selection_set, o);
                &x.variable_definitions
            }
            q::Definition::Operation(q::OperationDefinition::Subscription(x)) => {
                dirs_static(&x.directives, o);
                sels_static(&x.selection_set, o);
                &x.variable_definitions
            }
            q::Definition::Fragment(x) => {
                dirs_static(&x.directives, o);
                sels_static(&x.selection_set, o);
                &[]
            }
        };
        o.extend(vd.iter().filter_map(|v| v.default_value.as_ref()).map(|v| v.into_static()));
    }
}
fn s_values<'a, T: q::Text<'a>>(d: &s::Document<'a, T>, o: &mut Vals) {
    use s::TypeDefinition as D;
    for x in &d.definitions {
        match x {
            s::Definition::SchemaDefinition(x) => dirs_static(&x.directives, o),
            s::Definition::TypeDefinition(D::Object(x)) => {
                dirs_static(&x.directives, o);
                for f in &x.fields {
                    o.extend(f.arguments.iter().filter_map(|a| a.default_value.as_ref()).map(|v| v.into_static()));
                    dirs_static(&f.directives, o);
                }
            }
            s::Definition::TypeDefinition(D::InputObject(x)) => {
                dirs_static(&x.directives, o);
                o.extend(x.fields.iter().filter_map(|a| a.default_value.as_ref()).map(|v| v.into_static()));
            }
            _ => {}
        }
    }
}

#[inline(never)]
pub fn value_debug(v: &q::Value<'static, String>) -> String {
    format!("{v:?} {v}")
}
#[inline(never)]
pub fn location(t: &str) -> String {
    match t.parse::<s::DirectiveLocation>() {
        Ok(l) => format!("{:?} {} {}", l, l.as_str(), l.is_query()),
        Err(e) => format!("{e:?} {e}"),
    }
}
pub fn location_error(t: &str) -> Option<s::InvalidDirectiveLocation> {
    t.parse::<s::DirectiveLocation>().err()
}
