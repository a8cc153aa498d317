fn main() {
    bp3d_protoc::generate_rust(|loader| {
        loader.load("base.json5")?;
        loader.import("base.json5", "crate::base")?;
        loader.load("user.json5")
    }, |protoc| protoc.set_reads_messages(true).set_writes_messages(true));
}
