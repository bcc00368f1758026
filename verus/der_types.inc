//@item utils/der.rs enum DerType nodisc derive=PartialEq,Eq,Structural
//@item utils/der.rs type TagNumber
//@item utils/der.rs enum EncodedForm derive=PartialEq,Eq,Structural
//@item utils/x509.rs enum ParseError
pub open spec fn form_ok(tag: u8, f: EncodedForm) -> bool {
    &&& f == EncodedForm::Constructed(DerType::Sequence) <==> tag == 0x30
    &&& f == EncodedForm::Constructed(DerType::Set) <==> tag == 0x31
    &&& f == EncodedForm::Primitive(DerType::Integer) <==> tag == 2
    &&& f == EncodedForm::Primitive(DerType::BitString) <==> tag == 3
    &&& f == EncodedForm::Primitive(DerType::ObjectIdentifier) <==> tag == 6
    &&& f == EncodedForm::Primitive(DerType::UTCTime) <==> tag == 0x17
}
pub open spec fn plain_tag(t: u8) -> bool { t == 0x30 || t == 0x31 || t == 2 || t == 3 || t == 6 || t == 0x17 }
