//! Between the library's documents and the model.
use crate::model::*;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use shim::Doc;

fn st<'a, T: q::Text<'a>>(x: &T::Value) -> String {
    x.as_ref().to_string()
}
pub fn val<'a, T: q::Text<'a>>(v: &q::Value<'a, T>) -> Val {
    match v {
        q::Value::Variable(n) => Val::Var(st::<T>(n)),
        q::Value::Int(n) => Val::Int(n.as_i64().unwrap_or(i64::MIN)),
        q::Value::Float(f) => Val::Float(f.to_bits()),
        q::Value::String(s) => Val::Str(s.clone()),
        q::Value::Boolean(b) => Val::Bool(*b),
        q::Value::Null => Val::Null,
        q::Value::Enum(n) => Val::Enum(st::<T>(n)),
        q::Value::List(xs) => Val::List(xs.iter().map(val).collect()),
        q::Value::Object(m) => Val::Obj(m.iter().map(|(k, v)| (st::<T>(k), val(v))).collect()),
    }
}
fn ty<'a, T: q::Text<'a>>(t: &q::Type<'a, T>) -> Ty {
    match t {
        q::Type::NamedType(n) => Ty::Name(st::<T>(n)),
        q::Type::ListType(t) => Ty::List(Box::new(ty(t))),
        q::Type::NonNullType(t) => Ty::NonNull(Box::new(ty(t))),
    }
}
fn args<'a, T: q::Text<'a>>(xs: &[(T::Value, q::Value<'a, T>)]) -> Vec<(String, Val)> {
    xs.iter().map(|(n, v)| (st::<T>(n), val(v))).collect()
}
fn dirs<'a, T: q::Text<'a>>(xs: &[q::Directive<'a, T>]) -> Vec<Dir> {
    xs.iter().map(|d| Dir { name: st::<T>(&d.name), args: args::<T>(&d.arguments) }).collect()
}
fn cond<'a, T: q::Text<'a>>(c: &q::TypeCondition<'a, T>) -> String {
    let q::TypeCondition::On(n) = c;
    st::<T>(n)
}
fn sels<'a, T: q::Text<'a>>(x: &q::SelectionSet<'a, T>) -> Vec<Sel> {
    x.items
        .iter()
        .map(|i| match i {
            q::Selection::Field(f) => Sel::Field {
                alias: f.alias.as_ref().map(st::<T>),
                name: st::<T>(&f.name),
                args: args::<T>(&f.arguments),
                dirs: dirs(&f.directives),
                sels: sels(&f.selection_set),
            },
            q::Selection::FragmentSpread(f) => Sel::Spread { name: st::<T>(&f.fragment_name), dirs: dirs(&f.directives) },
            q::Selection::InlineFragment(f) => Sel::Inline {
                cond: f.type_condition.as_ref().map(cond),
                dirs: dirs(&f.directives),
                sels: sels(&f.selection_set),
            },
        })
        .collect()
}
fn vars<'a, T: q::Text<'a>>(xs: &[q::VariableDefinition<'a, T>]) -> Vec<VarDef> {
    xs.iter()
        .map(|v| VarDef { name: st::<T>(&v.name), ty: ty(&v.var_type), default: v.default_value.as_ref().map(val) })
        .collect()
}
pub fn qdoc<'a, T: q::Text<'a>>(d: &q::Document<'a, T>) -> Vec<QDef> {
    d.definitions
        .iter()
        .map(|d| match d {
            q::Definition::Operation(q::OperationDefinition::SelectionSet(x)) => QDef::Anon(sels(x)),
            q::Definition::Operation(q::OperationDefinition::Query(x)) => QDef::Op {
                kind: OpKind::Query,
                name: x.name.as_ref().map(st::<T>),
                vars: vars(&x.variable_definitions),
                dirs: dirs(&x.directives),
                sels: sels(&x.selection_set),
            },
            q::Definition::Operation(q::OperationDefinition::Mutation(x)) => QDef::Op {
                kind: OpKind::Mutation,
                name: x.name.as_ref().map(st::<T>),
                vars: vars(&x.variable_definitions),
                dirs: dirs(&x.directives),
                sels: sels(&x.selection_set),
            },
            q::Definition::Operation(q::OperationDefinition::Subscription(x)) => QDef::Op {
                kind: OpKind::Subscription,
                name: x.name.as_ref().map(st::<T>),
                vars: vars(&x.variable_definitions),
                dirs: dirs(&x.directives),
                sels: sels(&x.selection_set),
            },
            q::Definition::Fragment(x) => QDef::Frag {
                name: st::<T>(&x.name),
                cond: cond(&x.type_condition),
                dirs: dirs(&x.directives),
                sels: sels(&x.selection_set),
            },
        })
        .collect()
}
fn inputs<'a, T: q::Text<'a>>(xs: &[s::InputValue<'a, T>]) -> Vec<InputVal> {
    xs.iter()
        .map(|x| InputVal {
            desc: x.description.clone(),
            name: st::<T>(&x.name),
            ty: ty(&x.value_type),
            default: x.default_value.as_ref().map(val),
            dirs: dirs(&x.directives),
        })
        .collect()
}
fn fields<'a, T: q::Text<'a>>(xs: &[s::Field<'a, T>]) -> Vec<FieldDef> {
    xs.iter()
        .map(|x| FieldDef {
            desc: x.description.clone(),
            name: st::<T>(&x.name),
            args: inputs(&x.arguments),
            ty: ty(&x.field_type),
            dirs: dirs(&x.directives),
        })
        .collect()
}
fn names<'a, T: q::Text<'a>>(xs: &[T::Value]) -> Vec<String> {
    xs.iter().map(st::<T>).collect()
}
fn enums<'a, T: q::Text<'a>>(xs: &[s::EnumValue<'a, T>]) -> Vec<EnumVal> {
    xs.iter().map(|x| EnumVal { desc: x.description.clone(), name: st::<T>(&x.name), dirs: dirs(&x.directives) }).collect()
}
pub fn sdoc<'a, T: q::Text<'a>>(d: &s::Document<'a, T>) -> Vec<SDef> {
    use s::TypeDefinition as D;
    use s::TypeExtension as X;
    macro_rules! def {
        ($x:expr, $b:expr) => {
            SDef::Type { ext: false, desc: $x.description.clone(), name: st::<T>(&$x.name), dirs: dirs(&$x.directives), body: $b }
        };
    }
    macro_rules! ext {
        ($x:expr, $b:expr) => {
            SDef::Type { ext: true, desc: None, name: st::<T>(&$x.name), dirs: dirs(&$x.directives), body: $b }
        };
    }
    d.definitions
        .iter()
        .map(|d| match d {
            s::Definition::SchemaDefinition(x) => SDef::Schema {
                dirs: dirs(&x.directives),
                query: x.query.as_ref().map(st::<T>),
                mutation: x.mutation.as_ref().map(st::<T>),
                subscription: x.subscription.as_ref().map(st::<T>),
            },
            s::Definition::TypeDefinition(t) => match t {
                D::Scalar(x) => def!(x, TypeBody::Scalar),
                D::Object(x) => {
                    def!(x, TypeBody::Object { implements: names::<T>(&x.implements_interfaces), fields: fields(&x.fields) })
                }
                D::Interface(x) => {
                    def!(x, TypeBody::Interface { implements: names::<T>(&x.implements_interfaces), fields: fields(&x.fields) })
                }
                D::Union(x) => def!(x, TypeBody::Union { types: names::<T>(&x.types) }),
                D::Enum(x) => def!(x, TypeBody::Enum { values: enums(&x.values) }),
                D::InputObject(x) => def!(x, TypeBody::Input { fields: inputs(&x.fields) }),
            },
            s::Definition::TypeExtension(t) => match t {
                X::Scalar(x) => ext!(x, TypeBody::Scalar),
                X::Object(x) => {
                    ext!(x, TypeBody::Object { implements: names::<T>(&x.implements_interfaces), fields: fields(&x.fields) })
                }
                X::Interface(x) => {
                    ext!(x, TypeBody::Interface { implements: names::<T>(&x.implements_interfaces), fields: fields(&x.fields) })
                }
                X::Union(x) => ext!(x, TypeBody::Union { types: names::<T>(&x.types) }),
                X::Enum(x) => ext!(x, TypeBody::Enum { values: enums(&x.values) }),
                X::InputObject(x) => ext!(x, TypeBody::Input { fields: inputs(&x.fields) }),
            },
            s::Definition::DirectiveDefinition(x) => SDef::Directive {
                desc: x.description.clone(),
                name: st::<T>(&x.name),
                args: inputs(&x.arguments),
                repeatable: x.repeatable,
                locations: x.locations.iter().map(|l| loc_name(l).to_string()).collect(),
            },
        })
        .collect()
}
fn loc_name(l: &s::DirectiveLocation) -> &'static str {
    use s::DirectiveLocation::*;
    match l {
        Query => "QUERY",
        Mutation => "MUTATION",
        Subscription => "SUBSCRIPTION",
        Field => "FIELD",
        FragmentDefinition => "FRAGMENT_DEFINITION",
        FragmentSpread => "FRAGMENT_SPREAD",
        InlineFragment => "INLINE_FRAGMENT",
        Schema => "SCHEMA",
        Scalar => "SCALAR",
        Object => "OBJECT",
        FieldDefinition => "FIELD_DEFINITION",
        ArgumentDefinition => "ARGUMENT_DEFINITION",
        Interface => "INTERFACE",
        Union => "UNION",
        Enum => "ENUM",
        EnumValue => "ENUM_VALUE",
        InputObject => "INPUT_OBJECT",
        InputFieldDefinition => "INPUT_FIELD_DEFINITION",
        VariableDefinition => "VARIABLE_DEFINITION",
    }
}
fn loc_of(n: &str) -> s::DirectiveLocation {
    use s::DirectiveLocation::*;
    [
        Query, Mutation, Subscription, Field, FragmentDefinition, FragmentSpread, InlineFragment, Schema, Scalar, Object,
        FieldDefinition, ArgumentDefinition, Interface, Union, Enum, EnumValue, InputObject, InputFieldDefinition,
        VariableDefinition,
    ]
    .into_iter()
    .find(|l| loc_name(l) == n)
    .unwrap()
}

pub fn model(d: &Doc) -> Model {
    match d {
        Doc::QOwn(d) => Model::Query(qdoc(d)),
        Doc::QStr(d) => Model::Query(qdoc(d)),
        Doc::QCow(d) => Model::Query(qdoc(d)),
        Doc::QSim(d) => Model::Query(qdoc(d)),
        Doc::SOwn(d) => Model::Schema(sdoc(d)),
        Doc::SStr(d) => Model::Schema(sdoc(d)),
        Doc::SCow(d) => Model::Schema(sdoc(d)),
        Doc::SSim(d) => Model::Schema(sdoc(d)),
    }
}

// ------------------------------------------------------------- building the library's documents

fn mk_int(i: i64) -> q::Value<'static, String> {
    if let Ok(x) = i32::try_from(i) {
        return q::Value::Int(q::Number::from(x));
    }
    // wider numbers can only come out of a parse
    let t = format!("{{a(b:{i})}}");
    let d = q::parse_query::<String>(&t).expect("an integer parses").into_static();
    if let q::Definition::Operation(q::OperationDefinition::SelectionSet(s)) = &d.definitions[0] {
        if let q::Selection::Field(f) = &s.items[0] {
            return f.arguments[0].1.clone();
        }
    }
    unreachable!()
}
pub fn mk_val(v: &Val) -> q::Value<'static, String> {
    match v {
        Val::Null => q::Value::Null,
        Val::Bool(b) => q::Value::Boolean(*b),
        Val::Int(i) => mk_int(*i),
        Val::Float(b) => q::Value::Float(f64::from_bits(*b)),
        Val::Str(s) => q::Value::String(s.clone()),
        Val::Enum(s) => q::Value::Enum(s.clone()),
        Val::Var(s) => q::Value::Variable(s.clone()),
        Val::List(xs) => q::Value::List(xs.iter().map(mk_val).collect()),
        Val::Obj(xs) => q::Value::Object(xs.iter().map(|(k, v)| (k.clone(), mk_val(v))).collect()),
    }
}
fn mk_ty(t: &Ty) -> q::Type<'static, String> {
    match t {
        Ty::Name(n) => q::Type::NamedType(n.clone()),
        Ty::List(t) => q::Type::ListType(Box::new(mk_ty(t))),
        Ty::NonNull(t) => q::Type::NonNullType(Box::new(mk_ty(t))),
    }
}
fn mk_args(xs: &[(String, Val)]) -> Vec<(String, q::Value<'static, String>)> {
    xs.iter().map(|(n, v)| (n.clone(), mk_val(v))).collect()
}
fn p() -> Pos {
    Pos::default()
}
fn mk_dirs(xs: &[Dir]) -> Vec<q::Directive<'static, String>> {
    xs.iter().map(|d| q::Directive { position: p(), name: d.name.clone(), arguments: mk_args(&d.args) }).collect()
}
fn mk_sels(xs: &[Sel]) -> q::SelectionSet<'static, String> {
    q::SelectionSet {
        span: (p(), p()),
        items: xs
            .iter()
            .map(|x| match x {
                Sel::Field { alias, name, args, dirs, sels } => q::Selection::Field(q::Field {
                    position: p(),
                    alias: alias.clone(),
                    name: name.clone(),
                    arguments: mk_args(args),
                    directives: mk_dirs(dirs),
                    selection_set: mk_sels(sels),
                }),
                Sel::Spread { name, dirs } => q::Selection::FragmentSpread(q::FragmentSpread {
                    position: p(),
                    fragment_name: name.clone(),
                    directives: mk_dirs(dirs),
                }),
                Sel::Inline { cond, dirs, sels } => q::Selection::InlineFragment(q::InlineFragment {
                    position: p(),
                    type_condition: cond.clone().map(q::TypeCondition::On),
                    directives: mk_dirs(dirs),
                    selection_set: mk_sels(sels),
                }),
            })
            .collect(),
    }
}
pub fn mk_qdef(d: &QDef) -> q::Definition<'static, String> {
    match d {
        QDef::Anon(s) => q::Definition::Operation(q::OperationDefinition::SelectionSet(mk_sels(s))),
        QDef::Op { kind, name, vars, dirs, sels } => {
            let name = name.clone();
            let variable_definitions = vars
                .iter()
                .map(|v| q::VariableDefinition {
                    position: p(),
                    name: v.name.clone(),
                    var_type: mk_ty(&v.ty),
                    default_value: v.default.as_ref().map(mk_val),
                })
                .collect();
            let (directives, selection_set, position) = (mk_dirs(dirs), mk_sels(sels), p());
            q::Definition::Operation(match kind {
                OpKind::Query => q::OperationDefinition::Query(q::Query { position, name, variable_definitions, directives, selection_set }),
                OpKind::Mutation => {
                    q::OperationDefinition::Mutation(q::Mutation { position, name, variable_definitions, directives, selection_set })
                }
                OpKind::Subscription => q::OperationDefinition::Subscription(q::Subscription {
                    position,
                    name,
                    variable_definitions,
                    directives,
                    selection_set,
                }),
            })
        }
        QDef::Frag { name, cond, dirs, sels } => q::Definition::Fragment(q::FragmentDefinition {
            position: p(),
            name: name.clone(),
            type_condition: q::TypeCondition::On(cond.clone()),
            directives: mk_dirs(dirs),
            selection_set: mk_sels(sels),
        }),
    }
}
fn mk_inputs(xs: &[InputVal]) -> Vec<s::InputValue<'static, String>> {
    xs.iter()
        .map(|x| s::InputValue {
            position: p(),
            description: x.desc.clone(),
            name: x.name.clone(),
            value_type: mk_ty(&x.ty),
            default_value: x.default.as_ref().map(mk_val),
            directives: mk_dirs(&x.dirs),
        })
        .collect()
}
fn mk_fields(xs: &[FieldDef]) -> Vec<s::Field<'static, String>> {
    xs.iter()
        .map(|x| s::Field {
            position: p(),
            description: x.desc.clone(),
            name: x.name.clone(),
            arguments: mk_inputs(&x.args),
            field_type: mk_ty(&x.ty),
            directives: mk_dirs(&x.dirs),
        })
        .collect()
}
fn mk_enums(xs: &[EnumVal]) -> Vec<s::EnumValue<'static, String>> {
    xs.iter()
        .map(|x| s::EnumValue { position: p(), description: x.desc.clone(), name: x.name.clone(), directives: mk_dirs(&x.dirs) })
        .collect()
}
pub fn mk_sdef(d: &SDef) -> s::Definition<'static, String> {
    use s::TypeDefinition as D;
    use s::TypeExtension as X;
    match d {
        SDef::Schema { dirs, query, mutation, subscription } => s::Definition::SchemaDefinition(s::SchemaDefinition {
            position: p(),
            directives: mk_dirs(dirs),
            query: query.clone(),
            mutation: mutation.clone(),
            subscription: subscription.clone(),
        }),
        SDef::Directive { desc, name, args, repeatable, locations } => {
            let mut x = s::DirectiveDefinition::new(name.clone());
            x.description = desc.clone();
            x.arguments = mk_inputs(args);
            x.repeatable = *repeatable;
            x.locations = locations.iter().map(|l| loc_of(l)).collect();
            s::Definition::DirectiveDefinition(x)
        }
        SDef::Type { ext, desc, name, dirs, body } => {
            macro_rules! mk {
                ($t:ident, $v:ident, $x:ident, $e:ident $(, $f:ident = $val:expr)*) => {
                    if *ext {
                        let mut y = s::$e::new(name.clone());
                        y.directives = mk_dirs(dirs);
                        $( y.$f = $val; )*
                        s::Definition::TypeExtension(X::$v(y))
                    } else {
                        let mut y = s::$t::new(name.clone());
                        y.description = desc.clone();
                        y.directives = mk_dirs(dirs);
                        $( y.$f = $val; )*
                        s::Definition::TypeDefinition(D::$v(y))
                    }
                };
            }
            match body {
                TypeBody::Scalar => mk!(ScalarType, Scalar, x, ScalarTypeExtension),
                TypeBody::Object { implements, fields } => mk!(
                    ObjectType, Object, x, ObjectTypeExtension,
                    implements_interfaces = implements.clone(), fields = mk_fields(fields)
                ),
                TypeBody::Interface { implements, fields } => mk!(
                    InterfaceType, Interface, x, InterfaceTypeExtension,
                    implements_interfaces = implements.clone(), fields = mk_fields(fields)
                ),
                TypeBody::Union { types } => mk!(UnionType, Union, x, UnionTypeExtension, types = types.clone()),
                TypeBody::Enum { values } => mk!(EnumType, Enum, x, EnumTypeExtension, values = mk_enums(values)),
                TypeBody::Input { fields } => {
                    mk!(InputObjectType, InputObject, x, InputObjectTypeExtension, fields = mk_inputs(fields))
                }
            }
        }
    }
}
pub fn build(m: &Model) -> Doc<'static> {
    match m {
        Model::Query(ds) => Doc::QOwn(q::Document { definitions: ds.iter().map(mk_qdef).collect() }),
        Model::Schema(ds) => Doc::SOwn(s::Document { definitions: ds.iter().map(mk_sdef).collect() }),
    }
}
