include!(env!("BP3D_PROTOC_WRONG"));
fn main() {
    let header = wrong::Header::new(&[2u8][..]);
    let mut out = Vec::new();
    let value = wrong::Choice::One(wrong::Pair::new(&[5u8, 6][..]));
    assert!(wrong::Choice::write_to(&value, &header, &mut out).is_err());
    assert!(out.is_empty());
}
