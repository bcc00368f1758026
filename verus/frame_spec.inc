// ---- RFC 8446, 5.1 and 4: framing ----
pub open spec fn be16(n: int) -> Seq<u8> { seq![(n / 256) as u8, (n % 256) as u8] }
pub open spec fn hs_msg(ty: int, body: Seq<u8>) -> Seq<u8>
{ seq![ty as u8, (body.len() / 65536) as u8, ((body.len() / 256) % 256) as u8, (body.len() % 256) as u8] + body }
pub open spec fn record_bytes(ty: u8, body: Seq<u8>) -> Seq<u8> { seq![ty, 3u8, 3u8] + be16(body.len() as int) + body }
pub open spec fn known_type(b: u8) -> bool { b == 0 || 20 <= b <= 23 }
