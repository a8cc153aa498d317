include!(env!("BP3D_PROTOC_FLAGS"));
fn main() {
    for raw in 0..16u8 {
        assert_eq!(flags::Flags::new([raw << 2]).get_flag(), raw != 0);
    }
}
