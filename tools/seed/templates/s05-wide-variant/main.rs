include!(env!("BP3D_PROTOC_WIDE"));
fn main() {
    let mut s = wide::Header::new([0u8; 4]);
    for v in [wide::Kind::A, wide::Kind::B] {
        s.set_kind(v);
        assert_eq!(s.get_kind(), Some(v));
    }
}
