include!(env!("BP3D_PROTOC_BASE"));
include!(env!("BP3D_PROTOC_USER"));
fn main() {
    let mut list = user::MsgPairs::new(Vec::new());
    list.write_item(&base::Pair::new(&[5u8, 6][..])).unwrap();
    assert_eq!(list.len(), 1);
}
