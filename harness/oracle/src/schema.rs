//! Schemas as the user writes them (the abstract syntax of the .json5 files), several protocols to a world.

use crate::json::{n, obj, s, J};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Endian {
    Little,
    Big,
}

#[derive(Clone, Debug, PartialEq)]
pub struct World {
    /// In dependency order: a protocol imports from earlier ones only.
    pub protos: Vec<Proto>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Proto {
    pub name: String,
    pub endian: Option<Endian>,
    pub imports: Vec<(String, String)>,
    pub enums: Vec<EnumD>,
    pub structs: Vec<StructD>,
    pub unions: Vec<UnionD>,
    pub msgs: Vec<MsgD>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumD {
    pub name: String,
    pub variants: Vec<(String, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct StructD {
    pub name: String,
    pub fields: Vec<SField>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SField {
    pub name: String,
    pub kind: SKind,
    pub view: Option<View>,
    pub array_len: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SKind {
    Signed(u64),
    Unsigned(u64),
    Float(u64),
    Bool(u64),
    Struct(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum View {
    Enum(String),
    Range(f64, f64),
    Mult(f64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct UnionD {
    pub name: String,
    pub disc: String,
    pub cases: Vec<UCase>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct UCase {
    pub name: String,
    pub case: String,
    pub item: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MsgD {
    pub name: String,
    pub fields: Vec<MField>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MField {
    pub name: String,
    pub kind: MKind,
    pub optional: Option<bool>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MKind {
    Item(String),
    List(u64, String),
    Str(Option<u64>),
    Payload,
    Union { on: String, item: String },
}

impl Proto {
    pub fn new(name: &str) -> Proto {
        Proto {
            name: name.into(),
            endian: None,
            imports: vec![],
            enums: vec![],
            structs: vec![],
            unions: vec![],
            msgs: vec![],
        }
    }

    pub fn to_json(&self) -> J {
        let mut o = vec![("name", s(&*self.name))];
        if let Some(e) = self.endian {
            o.push(("endianness", s(if e == Endian::Little { "little" } else { "big" })));
        }
        if !self.imports.is_empty() {
            o.push(("imports", J::Arr(self.imports.iter().map(|(p, t)| obj(vec![("protocol", s(&**p)), ("type", s(&**t))])).collect())));
        }
        if !self.enums.is_empty() {
            o.push(("enums", J::Arr(self.enums.iter().map(|e| obj(vec![
                ("name", s(&*e.name)),
                ("variants", J::Obj(e.variants.iter().map(|(k, v)| (k.clone(), n(v))).collect())),
            ])).collect())));
        }
        if !self.structs.is_empty() {
            o.push(("structs", J::Arr(self.structs.iter().map(|e| obj(vec![
                ("name", s(&*e.name)),
                ("fields", J::Arr(e.fields.iter().map(|f| f.to_json()).collect())),
            ])).collect())));
        }
        if !self.unions.is_empty() {
            o.push(("unions", J::Arr(self.unions.iter().map(|u| obj(vec![
                ("name", s(&*u.name)),
                ("discriminant", s(&*u.disc)),
                ("cases", J::Arr(u.cases.iter().map(|c| {
                    let mut o = vec![("name", s(&*c.name)), ("case", s(&*c.case))];
                    if let Some(i) = &c.item {
                        o.push(("item_type", s(&**i)));
                    }
                    obj(o)
                }).collect())),
            ])).collect())));
        }
        if !self.msgs.is_empty() {
            o.push(("messages", J::Arr(self.msgs.iter().map(|m| obj(vec![
                ("name", s(&*m.name)),
                ("fields", J::Arr(m.fields.iter().map(|f| f.to_json()).collect())),
            ])).collect())));
        }
        obj(o)
    }

    pub fn from_json(j: &J) -> Option<Proto> {
        let st = |j: &J, k: &str| j.get(k).and_then(|v| v.str()).map(String::from);
        let list = |k: &str| j.get(k).map(|v| v.arr().to_vec()).unwrap_or_default();
        Some(Proto {
            name: st(j, "name")?,
            endian: match st(j, "endianness").as_deref() {
                Some("little") => Some(Endian::Little),
                Some("big") => Some(Endian::Big),
                _ => None,
            },
            imports: list("imports").iter().map(|v| Some((st(v, "protocol")?, st(v, "type")?))).collect::<Option<_>>()?,
            enums: list("enums").iter().map(|e| Some(EnumD {
                name: st(e, "name")?,
                variants: match e.get("variants")? {
                    J::Obj(o) => o.iter().map(|(k, v)| Some((k.clone(), v.u64()?))).collect::<Option<_>>()?,
                    _ => return None,
                },
            })).collect::<Option<_>>()?,
            structs: list("structs").iter().map(|e| Some(StructD {
                name: st(e, "name")?,
                fields: e.get("fields")?.arr().iter().map(SField::from_json).collect::<Option<_>>()?,
            })).collect::<Option<_>>()?,
            unions: list("unions").iter().map(|e| Some(UnionD {
                name: st(e, "name")?,
                disc: st(e, "discriminant")?,
                cases: e.get("cases")?.arr().iter().map(|c| Some(UCase {
                    name: st(c, "name")?,
                    case: st(c, "case")?,
                    item: st(c, "item_type"),
                })).collect::<Option<_>>()?,
            })).collect::<Option<_>>()?,
            msgs: list("messages").iter().map(|e| Some(MsgD {
                name: st(e, "name")?,
                fields: e.get("fields")?.arr().iter().map(MField::from_json).collect::<Option<_>>()?,
            })).collect::<Option<_>>()?,
        })
    }
}

impl SField {
    pub fn to_json(&self) -> J {
        let info = match &self.kind {
            SKind::Signed(b) => obj(vec![("type", s("signed")), ("bits", n(b))]),
            SKind::Unsigned(b) => obj(vec![("type", s("unsigned")), ("bits", n(b))]),
            SKind::Float(b) => obj(vec![("type", s("float")), ("bits", n(b))]),
            SKind::Bool(b) => obj(vec![("type", s("boolean")), ("bits", n(b))]),
            SKind::Struct(t) => obj(vec![("type", s("struct")), ("item_type", s(&**t))]),
        };
        let mut o = vec![("name", s(&*self.name)), ("info", info)];
        if let Some(v) = &self.view {
            o.push(("view", match v {
                View::Enum(e) => obj(vec![("type", s("enum")), ("name", s(&**e))]),
                View::Range(a, b) => obj(vec![("type", s("float-range")), ("min", real(*a)), ("max", real(*b))]),
                View::Mult(a) => obj(vec![("type", s("float-multiplier")), ("multiplier", real(*a))]),
            }));
        }
        if let Some(v) = self.array_len {
            o.push(("array_len", n(v)));
        }
        obj(o)
    }

    fn from_json(j: &J) -> Option<SField> {
        let info = j.get("info")?;
        let bits = info.get("bits").and_then(|v| v.u64());
        Some(SField {
            name: j.get("name")?.str()?.into(),
            kind: match info.get("type")?.str()? {
                "signed" => SKind::Signed(bits?),
                "unsigned" => SKind::Unsigned(bits?),
                "float" => SKind::Float(bits?),
                "boolean" => SKind::Bool(bits?),
                "struct" => SKind::Struct(info.get("item_type")?.str()?.into()),
                _ => return None,
            },
            view: match j.get("view") {
                None => None,
                Some(v) => Some(match v.get("type")?.str()? {
                    "enum" => View::Enum(v.get("name")?.str()?.into()),
                    "float-range" => View::Range(v.get("min")?.f64()?, v.get("max")?.f64()?),
                    "float-multiplier" => View::Mult(v.get("multiplier")?.f64()?),
                    _ => return None,
                }),
            },
            array_len: j.get("array_len").and_then(|v| v.u64()),
        })
    }
}

impl MField {
    pub fn to_json(&self) -> J {
        let info = match &self.kind {
            MKind::Item(t) => obj(vec![("type", s("item")), ("item_type", s(&**t))]),
            MKind::List(m, t) => obj(vec![("type", s("list")), ("max_len", n(m)), ("item_type", s(&**t))]),
            MKind::Str(None) => obj(vec![("type", s("string"))]),
            MKind::Str(Some(m)) => obj(vec![("type", s("string")), ("max_len", n(m))]),
            MKind::Payload => obj(vec![("type", s("payload"))]),
            MKind::Union { on, item } => obj(vec![("type", s("union")), ("on", s(&**on)), ("item_type", s(&**item))]),
        };
        let mut o = vec![("name", s(&*self.name)), ("info", info)];
        if let Some(v) = self.optional {
            o.push(("optional", J::Bool(v)));
        }
        obj(o)
    }

    fn from_json(j: &J) -> Option<MField> {
        let info = j.get("info")?;
        let it = info.get("item_type").and_then(|v| v.str()).map(String::from);
        Some(MField {
            name: j.get("name")?.str()?.into(),
            kind: match info.get("type")?.str()? {
                "item" => MKind::Item(it?),
                "list" => MKind::List(info.get("max_len")?.u64()?, it?),
                "string" => MKind::Str(info.get("max_len").and_then(|v| v.u64())),
                "payload" => MKind::Payload,
                "union" => MKind::Union { on: info.get("on")?.str()?.into(), item: it? },
                _ => return None,
            },
            optional: match j.get("optional") {
                Some(J::Bool(b)) => Some(*b),
                _ => None,
            },
        })
    }
}

impl World {
    pub fn to_json(&self) -> J {
        J::Arr(self.protos.iter().map(|p| p.to_json()).collect())
    }
    pub fn from_json(j: &J) -> Option<World> {
        Some(World { protos: j.arr().iter().map(Proto::from_json).collect::<Option<_>>()? })
    }
    pub fn parse(t: &str) -> World {
        World::from_json(&J::parse(t).expect("world json")).expect("world")
    }
}

/// A real number, or one of the JSON5 literals for what is not.
fn real(v: f64) -> J {
    J::Num(format!("{:?}", v).replace("inf", "Infinity"))
}
