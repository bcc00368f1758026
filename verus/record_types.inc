//@item net/record.rs enum RecordType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/record.rs enum Value
//@item net/record.rs struct Record
pub open spec fn vbytes(v: Value<'_>) -> Seq<u8> { match v { Value::Ref(a) => a@, Value::Owned(a) => a@ } }
