# behaviour preserving edits, applied in a box's /repo
import sys
R='/repo/'
def ed(f,*subs):
    s=open(R+f).read()
    for a,b in subs:
        assert s.count(a)>=1,(f,a[:60])
        s=s.replace(a,b)
    open(R+f,'w').write(s)
ed('compiler/src/interface.rs',
('''        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
        let model: model::Protocol = parse_model(&content)?;
        self.models.push(model);
        Ok(())''','''        self.models.push(read_model(path.as_ref())?);
        Ok(())'''),
('''        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
        let model: model::Protocol = parse_model(&content)?;
        self.imported_models.push((import_path.into(), model));''','''        let base = import_path.into();
        let model = read_model(path.as_ref())?;
        self.imported_models.push((base, model));'''),
('''impl Loader {
    pub fn new''','''fn read_model(path: &Path) -> Result<model::Protocol, Error> {
    let bytes = std::fs::read_to_string(path).map_err(Error::Io)?;
    parse_model(&bytes)
}

impl Loader {
    pub fn new'''),
('''        let models = self.models.into_iter()
            .map(|model| compiler::Protocol::from_model(model, &solver))
            .collect::<Result<Vec<compiler::Protocol>, compiler::Error>>().map_err(Error::Compiler)?;
        Ok(Protoc::new(models))''','''        let mut protocols = Vec::with_capacity(self.models.len());
        for model in self.models {
            match compiler::Protocol::from_model(model, &solver) {
                Ok(v) => protocols.push(v),
                Err(e) => return Err(Error::Compiler(e))
            }
        }
        Ok(Protoc::new(protocols))'''),
('''            let files_iter = files.into_iter().filter(|v| {
                match v.ty() {
                    FileType::MessageWriting => self.write_messages,
                    FileType::MessageReading => self.read_messages,
                    FileType::Message => self.use_messages,
                    FileType::Structure => self.use_structs,
                    FileType::Enum => self.use_enums,
                    FileType::Union => self.use_unions
                }
            });
            let iter = files_iter.into_iter().map(|v| v.write(&out_path))
                .filter_map(|v| match v {
                    Ok(o) => match o {
                        //A relative path would be looked up from the directory of the umbrella file.
                        Some(o) => Some(std::path::absolute(o)),
                        None => None
                    },
                    Err(e) => Some(Err(e))
                })
                .collect::<std::io::Result<Vec<PathBuf>>>().map_err(Error::Io)?;
            let umbrella = T::generate_umbrella(&name, iter.iter().map(|v| &**v)).map_err(|e| Error::Generator(e.to_string()))?;
            let proto_path;
            if umbrella.len() > 1 {
                let umbrella_path = out_path.join("umbrella.rs");
                std::fs::write(&umbrella_path, umbrella).map_err(Error::Io)?;
                proto_path = umbrella_path;
            } else {
                proto_path = out_path;
            }
''','''            let mut written: Vec<PathBuf> = Vec::new();
            for file in files {
                let enabled = match file.ty() {
                    FileType::Enum => self.use_enums,
                    FileType::Structure => self.use_structs,
                    FileType::Union => self.use_unions,
                    FileType::Message => self.use_messages,
                    FileType::MessageReading => self.read_messages,
                    FileType::MessageWriting => self.write_messages
                };
                if !enabled {
                    continue;
                }
                if let Some(path) = file.write(&out_path).map_err(Error::Io)? {
                    written.push(std::path::absolute(path).map_err(Error::Io)?);
                }
            }
            let umbrella = T::generate_umbrella(&name, written.iter().map(|v| v.as_path())).map_err(|e| Error::Generator(e.to_string()))?;
            let proto_path = match umbrella.len() {
                0 | 1 => out_path,
                _ => {
                    let umbrella_path = out_path.join("umbrella.rs");
                    std::fs::write(&umbrella_path, &umbrella).map_err(Error::Io)?;
                    umbrella_path
                }
            };
'''),
)
ed('compiler/src/gen/rust/mod.rs',
('''            File::new(FileType::Message, "messages.rs", decl_messages_code),
            File::new(FileType::MessageReading, "messages_from_slice.rs", impl_from_slice_messages_code),
''',''),
('''        Ok(vec![
''','''        Ok(vec![
            File::new(FileType::MessageReading, "messages_from_slice.rs", impl_from_slice_messages_code),
            File::new(FileType::Message, "messages.rs", decl_messages_code),
'''),
('''            File::new(FileType::Structure, "structures.rs", decl_structures),
            File::new(FileType::Enum, "enums.rs", decl_enums),
''','''            File::new(FileType::Enum, "enums.rs", decl_enums),
            File::new(FileType::Structure, "structures.rs", decl_structures),
'''),
('code += &format!("include!({:?});\\n", file);','code.push_str("    include!(");\n            code.push_str(&format!("{:?}", file));\n            code.push_str(");\\n");'),
)
ed('compiler/src/gen/rust/util.rs',
('''        let raw_field_type = field.loc.get_unsigned_integer_type();
        let raw_field_byte_size = raw_field_type.get_byte_size();
        match raw_field_byte_size != field.loc.byte_size {
            true => "read_unaligned",
            false => "read_aligned"
        }''','''        if is_whole(field) { "read_aligned" } else { "read_unaligned" }'''),
('''        let raw_field_type = field.loc.get_unsigned_integer_type();
        let raw_field_byte_size = raw_field_type.get_byte_size();
        match raw_field_byte_size != field.loc.byte_size {
            true => "write_unaligned",
            false => "write_aligned"
        }''','''        if is_whole(field) { "write_aligned" } else { "write_unaligned" }'''),
('pub struct RustUtils;','''fn is_whole(field: &FixedField) -> bool {
    field.loc.byte_size == field.loc.get_unsigned_integer_type().get_byte_size()
}

pub struct RustUtils;'''),
)
ed('compiler/src/gen/base/structure.rs',
('''    code += &gen_structure_getters::<U>(s, &field_template, type_path_by_name);
    code += &gen_structure_setters::<U>(s, &field_template, type_path_by_name);
    code''','''    let getters = gen_structure_getters::<U>(s, &field_template, type_path_by_name);
    let setters = gen_structure_setters::<U>(s, &field_template, type_path_by_name);
    code.push_str(&setters);
    code.push_str(&getters);
    code'''),
('&["decl", "new", "fixed_size", "write_to", "from_slice"]','&["new", "decl", "from_slice", "fixed_size", "write_to"]'),
)
ed('compiler/src/gen/rust/structure.field.template',
('''        let raw_value = self.get_raw_{name}();
        if raw_value > {max_positive} {{
            -((((!raw_value) & {max_positive}) + 1) as {view_type})
        }} else {{
            (raw_value & {max_positive}) as {view_type}
        }}''','''        let raw = self.get_raw_{name}();
        if raw <= {max_positive} {{
            raw as {view_type}
        }} else {{
            -1 - ((!raw & {max_positive}) as {view_type})
        }}'''),
('''        if self.get_raw_{name}() != 0 {{
            true
        }} else {{
            false
        }}''','''        self.get_raw_{name}() != 0'''),
('''        if value {{
            self.set_raw_{name}(1);
        }} else {{
            self.set_raw_{name}(0);
        }}''','''        self.set_raw_{name}(value as {raw_type});'''),
('''        let raw_value = self.get_raw_{name}() as {view_type};
        raw_value * {a} + {b}''','''        {b} + {a} * (self.get_raw_{name}() as {view_type})'''),
('''    pub fn get_{name}(&self) ->''','''    #[inline]
    pub fn get_{name}(&self) ->'''),
)
ed('compiler/src/gen/rust/union.template',
('''        match self {{
            Self::{name}(v) => Some(v),
            _ => None
        }}''','''        if let Self::{name}(value) = self {{ Some(value) }} else {{ None }}'''),
('''        match self {{
            Self::{name} => true,
            _ => false
        }}''','''        matches!(self, Self::{name})'''),
)
ed('compiler/src/compiler/union.rs',
('''        for (i, case) in cases.iter().enumerate() {
            if cases[..i].iter().any(|v| v.case == case.case) {
                return Err(Error::InvalidUnionCase(case.name.clone()));
            }
        }''','''        let mut seen = std::collections::HashSet::new();
        if let Some(case) = cases.iter().find(|v| !seen.insert(v.case)) {
            return Err(Error::InvalidUnionCase(case.name.clone()));
        }'''),
('''        let is_element_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
            Referenced::Struct(_) => false,
            Referenced::Message(v) => v.size.is_element_dyn_sized
        }).unwrap_or_default());
        let is_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
            Referenced::Struct(_) => false,
            Referenced::Message(v) => v.size.is_dyn_sized
        }).unwrap_or_default());
''','''        let mut is_element_dyn_sized = false;
        let mut is_dyn_sized = false;
        for case in &cases {
            if let Some(Referenced::Message(v)) = &case.item_type {
                is_element_dyn_sized |= v.size.is_element_dyn_sized;
                is_dyn_sized |= v.size.is_dyn_sized;
            }
        }
'''),
('''            let (index, field) = leaf.fields.iter().enumerate()
                .find(|(_, v)| v.name() == sub)
                .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
''','''            let index = leaf.fields.iter().position(|v| v.name() == sub)
                .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
            let field = &leaf.fields[index];
'''),
)
ed('compiler/src/compiler/structure.rs',
('''            byte_size: if end_bit_offset % 8 != 0 {
                (end_bit_offset / 8) + 1
            } else {
                end_bit_offset / 8
            }''','''            byte_size: end_bit_offset.div_ceil(8)'''),
('''            byte_size: if last_bit_offset % 8 != 0 {
                (last_bit_offset / 8) + 1
            } else {
                last_bit_offset / 8
            }''','''            byte_size: last_bit_offset.div_ceil(8)'''),
('''        let bit_size = if max_value > u32::MAX as usize {
            64
        } else if max_value > u16::MAX as usize {
            32
        } else if max_value > u8::MAX as usize {
            16
        } else {
            8
        };
        Self::from_model(StructFieldType::Unsigned { bits: bit_size })''','''        Ok(match max_value {
            0..=0xFF => Self::UInt8,
            0x100..=0xFFFF => Self::UInt16,
            0x10000..=0xFFFFFFFF => Self::UInt32,
            _ => Self::UInt64
        })'''),
)
ed('compiler/src/compiler/message.rs',
('''                        if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                            && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                            let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
''','''                        let single = match &*r.fields {
                            [v] => v.as_fixed().filter(|v| v.view.is_transmute() && v.loc.bit_size == v.ty.get_byte_size() * 8),
                            _ => None
                        };
                        if let Some(fixed) = single {
'''),
('''                let (on_index, on_field) = unsorted.iter().enumerate().find_map(|(k, v)| if v.name == on {
                        Some((k, v))
                    } else {
                        None
                    }).ok_or_else(|| Error::UndefinedReference(on))?;
''','''                let on_index = unsorted.iter().position(|v| v.name == on).ok_or_else(|| Error::UndefinedReference(on))?;
                let on_field = &unsorted[on_index];
'''),
)
ed('runtime/src/codec/bits.rs',
('''        let mask: usize = bit_mask(BIT_SIZE);
        let reset_mask = !(mask << BIT_OFFSET);
        let original = T::read_bytes_le(buffer);
        let clean = original & T::from_usize(reset_mask);
        let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);
        (clean | value).write_bytes_le(buffer);''','''        let mask: usize = bit_mask(BIT_SIZE);
        let inserted = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);
        let kept = T::read_bytes_le(buffer) & T::from_usize(!(mask << BIT_OFFSET));
        (inserted | kept).write_bytes_le(buffer);'''),
('''        let value = T::read_bytes_be(buffer);
        (value >> T::from_usize(shift)) & T::from_usize(mask)''','''        let shifted = T::read_bytes_be(buffer) >> T::from_usize(shift);
        shifted & T::from_usize(mask)'''),
)
ed('runtime/src/message/util/list.rs',
('''        for _ in 0..len {
            let msg = Item::from_slice(&data[total_size..])?;
            if msg.size() == 0 {
                //All following items are read from the same bytes, and are empty as well.
                break;
            }
            total_size += msg.size();
        }
''','''        let mut remaining = len;
        while remaining > 0 {
            let size = Item::from_slice(&data[total_size..])?.size();
            if size == 0 {
                break;
            }
            total_size += size;
            remaining -= 1;
        }
'''),
('''        if self.len == 0 {
            return None;
        }
        let msg = match Item::from_slice(self.data) {
            Err(e) => {
                //The position of the next item is unknown.
                self.len = 0;
                return Some(Err(e));
            },
            Ok(v) => v
        };
        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))''','''        let left = self.len.checked_sub(1)?;
        match Item::from_slice(self.data) {
            Ok(msg) => {
                self.len = left;
                self.data = &self.data[msg.size()..];
                Some(Ok(msg.into_inner()))
            },
            Err(e) => {
                self.len = 0;
                Some(Err(e))
            }
        }'''),
)
ed('runtime/src/message/util/array.rs',
('''        let start = index * Item::SIZE;
        let end = start + Item::SIZE;
        Item::from(&self.data.as_ref()[start..end])''','''        let start = index * Item::SIZE;
        Item::from(&self.data.as_ref()[start..][..Item::SIZE])'''),
('''            let data = &slice[control_size..total_size];
            Ok(Message::new(total_size, Array {
                data,
                len,
                useless: PhantomData::default(),
                useless1: PhantomData::default()
            }))''','''            Ok(Message::new(total_size, unsafe { Array::from_raw_parts(&slice[control_size..total_size], len) }))'''),
)
ed('runtime/src/message/util/string.rs',
('''        let string = slice.iter().enumerate().find_map(|(id, v)| match *v == 0x0 {
            true => Some(id),
            false => None
        }).map(|pos| std::str::from_utf8(&slice[0..pos]))
            .ok_or(Error::Truncated)?.map_err(|_| Error::InvalidUtf8)?;
        Ok(Message::new(string.len() + 1, string))''','''        let pos = slice.iter().position(|v| *v == 0).ok_or(Error::Truncated)?;
        match std::str::from_utf8(&slice[..pos]) {
            Ok(v) => Ok(Message::new(pos + 1, v)),
            Err(_) => Err(Error::InvalidUtf8)
        }'''),
('''        out.write_all(input.as_bytes())?;
        out.write_all(&[0x0])?;
        Ok(())''','''        out.write_all(input.as_bytes())?;
        out.write_all(b"\\0").map_err(Error::from)'''),
)
ed('runtime/src/message/util/common.rs',
('''            let b = slice[0] > 0;
            if b {
                let msg = T::from_slice(&slice[1..])?;
                Ok(Message::new(msg.size() + 1, Some(msg.into_inner())))
            } else {
                Ok(Message::new(1, None))
            }''','''            match slice[0] {
                0 => Ok(Message::new(1, None)),
                _ => {
                    let msg = T::from_slice(&slice[1..])?;
                    let size = 1 + msg.size();
                    Ok(Message::new(size, Some(msg.into_inner())))
                }
            }'''),
)
ed('compiler/src/gen/template.rs',
('''            rendered.push(sub_rendered);
        }
        Ok(rendered.join(""))''','''            rendered += &sub_rendered;
        }
        Ok(rendered)'''),
('let mut rendered = Vec::new();','let mut rendered = String::new();'),
('''    if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {''','''    if value.as_bytes()[0].is_ascii_uppercase() {'''),
)
