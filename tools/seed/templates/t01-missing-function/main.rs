use bp3d_protoc::gen::template::Template;
fn main() {
    let t = Template::compile(b"#fragment push a\n{x:upper}\n#fragment pop\n").unwrap();
    assert_eq!(t.scope().var("x", "ab").render("", &["a"]).unwrap(), "AB\n");
    assert!(Template::compile(b"#fragment push a\n{x:uper}\n#fragment pop\n").is_err());
}
