//@include head.inc
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
//@include hmac_spec.inc
//@item hash/hkdf.rs struct Hkdf
//@include hkdf_spec.inc
//@include tshash.inc
//@include ks_spec0.inc
//@include aead_contract.inc
//@include frame_spec.inc
//@include record_types.inc
//@include nonce_spec.inc
//@item net/record.rs const MAX_FRAQMENT_LEN
//@item net/key_schedule.rs struct Key
//@item net/key_schedule.rs struct WriteKeys
//@item net/key_schedule.rs struct KeySchedule
//@include protect_spec.inc
//@include frame_contract.inc
//@include protect_contract.inc
//@include slice_len.inc
//@include stream_spec.inc
pub assume_specification<T> [std::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
/// `v.drain(..n)`, collected: the first n elements, which leave v
#[verifier::external_body]
fn vx_drain(v: &mut Vec<u8>, n: usize) -> (r: Vec<u8>)
    requires n <= old(v)@.len(), ensures r@ == old(v)@.subrange(0, n as int), final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int),
{ unimplemented!() }
/// the pieces of `s.chunks(n)`
pub open spec fn chunk_s(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
#[verifier::external_body]
fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0,
    ensures r@.len() * n >= s@.len(), s@.len() > (r@.len() - 1) * n, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk_s(s@, n as int, i),
{ unimplemented!() }
/// `a.append(&mut b)` for a vector that is not used again
#[verifier::external_body]
fn vx_append(a: &mut Vec<u8>, b: Vec<u8>)
    ensures final(a)@ == old(a)@ + b@, { unimplemented!() }

// ---- what the receiver of a byte stream is to be given ----
/// one whole record stands at the beginning
pub open spec fn whole(x: Seq<u8>) -> bool { x.len() >= 5 && x.len() >= 5 + rec_len(x) }
/// the type and content of a protected record, if the key, the counter and the tag fit
pub open spec fn open_rec(cs: CipherSuite, k: Key, seq: int, r: Seq<u8>) -> Option<(u8, Seq<u8>)> {
    let f = r.subrange(5, r.len() as int); let h = r.subrange(0, 5); let n = nonce_s(k.iv@, seq as u64);
    if f.len() >= 17 && 0 <= seq < u64::MAX && tag_of(f) == aead_tag(cs, k.key@, n, ciphertext_of(f), h) { inner_s(open_pt(cs, k.key@, n, ciphertext_of(f), h)) } else { None }
}
/// the application data of a sequence of whole records: every protected one opens with the next counter; what is not
/// application data adds nothing
pub open spec fn deliver(cs: CipherSuite, k: Key, seq: int, x: Seq<u8>) -> Option<Seq<u8>> decreases x.len()
{
    if x.len() == 0 { Some(Seq::empty()) } else if !whole(x) { None } else {
        let n = 5 + rec_len(x); let r = x.subrange(0, n); let y = x.subrange(n, x.len() as int);
        if x[0] != 23 { deliver(cs, k, seq, y) } else {
            match open_rec(cs, k, seq, r) {
                None => None,
                Some(p) => match deliver(cs, k, seq + 1, y) { None => None, Some(e) => Some(if p.0 == 23 { p.1 + e } else { e }) },
            }
        }
    }
}
/// the number of protected records
pub open spec fn count(x: Seq<u8>) -> int decreases x.len()
{ if !whole(x) { 0 } else { (if x[0] == 23 { 1int } else { 0 }) + count(x.subrange(5 + rec_len(x), x.len() as int)) } }
proof fn lemma_append(cs: CipherSuite, k: Key, seq: int, x: Seq<u8>, y: Seq<u8>)
    requires deliver(cs, k, seq, x) is Some,
    ensures
        count(x + y) == count(x) + count(y),
        deliver(cs, k, seq + count(x), y) is Some <==> deliver(cs, k, seq, x + y) is Some,
        deliver(cs, k, seq + count(x), y) is Some ==> deliver(cs, k, seq, x + y) == Some(deliver(cs, k, seq, x)->0 + deliver(cs, k, seq + count(x), y)->0),
    decreases x.len()
{
    if x.len() == 0 { assert(x + y =~= y); if deliver(cs, k, seq, y) is Some { assert(Seq::<u8>::empty() + deliver(cs, k, seq, y)->0 =~= deliver(cs, k, seq, y)->0); } }
    else {
        let n = 5 + rec_len(x); let r = x.subrange(0, n); let t = x.subrange(n, x.len() as int); let z = x + y;
        assert(rec_len(z) == rec_len(x)); assert(z.subrange(0, n) =~= r); assert(z.subrange(n, z.len() as int) =~= t + y);
        let s1 = if x[0] == 23 { seq + 1 } else { seq };
        lemma_append(cs, k, s1, t, y);
        assert(s1 + count(t) == seq + count(x));
        if x[0] == 23 && deliver(cs, k, seq + count(x), y) is Some {
            let d = deliver(cs, k, s1, t)->0; let e = deliver(cs, k, seq + count(x), y)->0; let p = open_rec(cs, k, seq, r)->0;
            assert(p.1 + (d + e) =~= (p.1 + d) + e);
        }
    }
}
proof fn lemma_one(cs: CipherSuite, k: Key, seq: int, r: Seq<u8>)
    requires whole(r), r.len() == 5 + rec_len(r),
    ensures
        r[0] != 23 ==> deliver(cs, k, seq, r) == Some(Seq::<u8>::empty()) && count(r) == 0,
        r[0] == 23 ==> count(r) == 1 && (deliver(cs, k, seq, r) is Some <==> open_rec(cs, k, seq, r) is Some),
        r[0] == 23 && open_rec(cs, k, seq, r) is Some ==> deliver(cs, k, seq, r) == Some(if (open_rec(cs, k, seq, r)->0).0 == 23 { (open_rec(cs, k, seq, r)->0).1 } else { Seq::<u8>::empty() }),
{
    let y = r.subrange(r.len() as int, r.len() as int); assert(y =~= Seq::empty()); assert(r.subrange(0, r.len() as int) =~= r);
    assert(count(y) == 0); assert(deliver(cs, k, seq, y) == Some(Seq::<u8>::empty())); assert(deliver(cs, k, seq + 1, y) == Some(Seq::<u8>::empty()));
    if r[0] == 23 && open_rec(cs, k, seq, r) is Some { let p = open_rec(cs, k, seq, r)->0; assert(p.1 + Seq::<u8>::empty() =~= p.1); }
}
// ---- what is put on the wire for the written bytes ----
pub open spec fn pieces(n: int) -> int { (n + 16383) / 16384 }
pub open spec fn wire_s(cs: CipherSuite, k: Key, seq: int, src: Seq<u8>) -> Seq<u8> decreases src.len()
{
    if src.len() == 0 { Seq::empty() } else {
        let n = if src.len() <= 16384 { src.len() as int } else { 16384int };
        sealed_s(cs, k, seq as u64, 23, src.subrange(0, n)) + wire_s(cs, k, seq + 1, src.subrange(n, src.len() as int))
    }
}
proof fn lemma_sealed_opens(cs: CipherSuite, k: Key, j: Key, seq: u64, ty: u8, content: Seq<u8>)
    requires ty != 0, content.len() <= 16384, seq < u64::MAX, same_key(k, j),
    ensures ({ let s = sealed_s(cs, k, seq, ty, content);
        s.len() == 22 + content.len() && s[0] == 23 && whole(s) && 5 + rec_len(s) == s.len() && open_rec(cs, j, seq as int, s) == Some((ty, content)) }),
{
    lemma_open_sealed(cs, k, seq, ty, content);
    let s = sealed_s(cs, k, seq, ty, content); let l = content.len() as int + 17;
    assert(s[3] == (l / 256) as u8 && s[4] == (l % 256) as u8) by { assert(s.subrange(0, 5)[3] == s[3] && s.subrange(0, 5)[4] == s[4]); }
}
/// what one side writes is what the other side is given, whatever is written
proof fn lemma_transfer(cs: CipherSuite, k: Key, j: Key, seq: int, src: Seq<u8>)
    requires same_key(k, j), 0 <= seq, seq + pieces(src.len() as int) <= u64::MAX,
    ensures deliver(cs, j, seq, wire_s(cs, k, seq, src)) == Some(src), count(wire_s(cs, k, seq, src)) == pieces(src.len() as int),
    decreases src.len()
{
    if src.len() > 0 {
        let n = if src.len() <= 16384 { src.len() as int } else { 16384int };
        let a = src.subrange(0, n); let b = src.subrange(n, src.len() as int);
        let r = sealed_s(cs, k, seq as u64, 23, a); let w = wire_s(cs, k, seq + 1, b);
        lemma_transfer(cs, k, j, seq + 1, b);
        lemma_sealed_opens(cs, k, j, seq as u64, 23, a);
        lemma_one(cs, j, seq, r); lemma_append(cs, j, seq, r, w);
        assert(a + b =~= src);
    }
}
/// writes follow one another
proof fn lemma_two_writes(cs: CipherSuite, k: Key, j: Key, seq: int, a: Seq<u8>, b: Seq<u8>)
    requires same_key(k, j), 0 <= seq, seq + pieces(a.len() as int) + pieces(b.len() as int) <= u64::MAX,
    ensures deliver(cs, j, seq, wire_s(cs, k, seq, a) + wire_s(cs, k, seq + pieces(a.len() as int), b)) == Some(a + b),
{
    lemma_transfer(cs, k, j, seq, a); lemma_transfer(cs, k, j, seq + pieces(a.len() as int), b);
    lemma_append(cs, j, seq, wire_s(cs, k, seq, a), wire_s(cs, k, seq + pieces(a.len() as int), b));
}
/// whatever prefix of the wire has been consumed: what was given out is a prefix of what was written
proof fn lemma_prefix(cs: CipherSuite, j: Key, seq: int, w: Seq<u8>, src: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires deliver(cs, j, seq, w) == Some(src), w == x + y, deliver(cs, j, seq, x) is Some,
    ensures deliver(cs, j, seq + count(x), y) is Some, src == deliver(cs, j, seq, x)->0 + deliver(cs, j, seq + count(x), y)->0,
{ lemma_append(cs, j, seq, x, y); }

impl TlsStream {
//@fn net/stream.rs impl TlsStream :: fn new
//@ret r
//@spec
    requires stream.rcvd().len() == 0,
    ensures swf(r), r.protection is None, r.plaintext@.len() == 0, pending(r) == stream.sent(), consumed(r).len() == 0,
//@start
    proof { assert(stream.sent() + Seq::<u8>::empty() =~= stream.sent()); assert(stream.rcvd() =~= Seq::empty()); assert(forall|s: Seq<u8>| s.len() == 0 ==> s =~= Seq::<u8>::empty()); assert(forall|s: Seq<u8>, i: int| s.len() == 0 && i == 0 ==> s.subrange(i, i) =~= s); }
//@endfn
//@fn net/stream.rs impl TlsStream :: fn set_protection
//@spec
    requires swf(*old(self)), protection is Some ==> wf(protection->0),
    ensures swf(*final(self)), final(self).protection == protection, same_tx(*final(self), *old(self)), same_rx(*final(self), *old(self)),
//@endfn
//@fn net/stream.rs impl TlsStream :: fn flush
//@ret r
//@spec
    requires swf(*old(self)),
    ensures swf(*final(self)), same_rx(*final(self), *old(self)), final(self).protection == old(self).protection,
        r is Ok ==> final(self).buffer@.len() == 0 && pending(*final(self)) == pending(*old(self)),
//@end
    proof { assert(self.stream.sent() + Seq::<u8>::empty() =~= self.stream.sent()); }
//@endfn
//@fn net/stream.rs impl TlsStream :: fn write_record
//@ret r
//@resub `self\.buffer\.append\(&mut (protect\.encrypt\(record\)\?)\);` => `vx_append(&mut self.buffer, \1);` opt
//@resub `self\.buffer\.append\(&mut (record\.as_bytes\(\))\);` => `vx_append(&mut self.buffer, \1);` opt
//@spec
    requires swf(*old(self)),
    ensures swf(*final(self)), same_rx(*final(self), *old(self)), (final(self).protection is Some) == (old(self).protection is Some),
        r is Ok && old(self).protection is None && data@.len() < 65536 ==> pending(*final(self)) == pending(*old(self)) + record_bytes(typ as u8, data@),
        old(self).protection is Some ==> same_but_counters(final(self).protection->0, old(self).protection->0) && recv_key(final(self).protection->0) == recv_key(old(self).protection->0),
        r is Ok && old(self).protection is Some ==> ({ let p = old(self).protection->0; let q = final(self).protection->0;
            pending(*final(self)) == pending(*old(self)) + sealed_s(p.cipher.suite(), send_key(p), send_key(p).sequence_number, typ as u8, data@)
            && send_key(q).sequence_number == send_key(p).sequence_number + 1 }),
//@before `if self.buffer.len() >= 2048` opt
        proof { 
            let add = self.buffer@.subrange(old(self).buffer@.len() as int, self.buffer@.len() as int);
            assert(pending(*self) =~= pending(*old(self)) + add);
        }
//@endfn
//@fn net/stream.rs impl TlsStream :: fn tcp_write
//@ret r
//@spec
    ensures same_rx(*final(self), *old(self)), final(self).protection == old(self).protection, final(self).buffer@ == old(self).buffer@,
        r is Ok ==> r->Ok_0 <= buf@.len() && final(self).stream.sent() == old(self).stream.sent() + buf@.subrange(0, r->Ok_0 as int),
//@endfn
//@fn net/stream.rs impl TlsStream :: fn tcp_read
//@ret r
//@spec
    ensures same_tx(*final(self), *old(self)), final(self).protection == old(self).protection, final(self).rx_buffer@ == old(self).rx_buffer@, final(self).plaintext@ == old(self).plaintext@,
        final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> 0 < r->Ok_0 <= old(buf)@.len() && final(self).stream.rcvd() == old(self).stream.rcvd() + final(buf)@.subrange(0, r->Ok_0 as int),
        r is Err ==> final(self).stream.rcvd() == old(self).stream.rcvd(),
//@before `_ => Err(TlsError::BrokenPipe)` opt
//@endfn
//@fn net/stream.rs impl TlsStream :: fn read_record
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
    requires swf(*old(self)),
    ensures swf(*final(self)), same_tx(*final(self), *old(self)), final(self).protection == old(self).protection, final(self).plaintext@ == old(self).plaintext@,
        r is Ok ==> whole(r->Ok_0@) && r->Ok_0@.len() == 5 + rec_len(r->Ok_0@) && consumed(*final(self)) == consumed(*old(self)) + r->Ok_0@,
        r is Err ==> consumed(*final(self)) == consumed(*old(self)),
//@loop 0
            invariant
                swf(*self), same_tx(*self, *old(self)), self.protection == old(self).protection, self.plaintext@ == old(self).plaintext@, consumed(*self) == consumed(*old(self)), rx_buf@.len() == 4096,
//@in 0 start
            proof {
                if self.rx_buffer@.len() >= 5 {
                    let a = self.rx_buffer@[3]; let b = self.rx_buffer@[4];
                    assert(((a as usize) << 8) | b as usize == (a as usize) * 256 + (b as usize)) by(bit_vector);
                    let n = 5 + rec_len(self.rx_buffer@); let rx = self.rx_buffer@; let rc = self.stream.rcvd();
                    if rx.len() >= n {
                        assert(rx.subrange(n, rx.len() as int) =~= rc.subrange(rc.len() - (rx.len() - n), rc.len() as int));
                        assert(consumed(*self) + rx.subrange(0, n) =~= rc.subrange(0, rc.len() - (rx.len() - n)));
                    }
                }
            }
            let ghost vx_rx = self.rx_buffer@; let ghost vx_rc = self.stream.rcvd(); let ghost vx_c = consumed(*self);
//@in 0 end
            proof {
                let rx = self.rx_buffer@; let rc = self.stream.rcvd();
                assert(rx =~= rc.subrange(rc.len() - rx.len(), rc.len() as int));
                assert(consumed(*self) =~= vx_c);
            }
//@endfn
//@fn net/stream.rs impl TlsStream :: fn tls_read
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@resub `match self\.protection\.as_mut\(\) \{\s*Some\(protection\) if ([^{}]*?) => \{` => `match (if \1 { self.protection.as_mut() } else { None }) { Some(protection) => {` opt
//@resub `for \(i, b\) in self\.plaintext\.drain\(\.\.n\)\.enumerate\(\) \{` => `let vx_d = vx_drain(&mut self.plaintext, n); for i in 0..vx_d.len() { let b = vx_d[i];` opt
//@spec
    requires swf(*old(self)),
    ensures swf(*final(self)), same_tx(*final(self), *old(self)), same_send(final(self).protection, old(self).protection), final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> r->Ok_0 <= old(buf)@.len() && (old(buf)@.len() > 0 ==> r->Ok_0 > 0),
        r is Ok ==> read_ok(*old(self), *final(self), final(buf)@.subrange(0, r->Ok_0 as int)),
        r is Err ==> final(self).plaintext@.len() == 0 && (final(self).protection is None || read_ok(*old(self), *final(self), Seq::empty())),
//@start
        let ghost mut vx_x: Seq<u8> = Seq::empty();
        proof {
            if self.protection is Some { assert(dl(self.protection->0, vx_x) == Some(Seq::<u8>::empty())); assert(count(vx_x) == 0); }
            assert(self.plaintext@ + Seq::<u8>::empty() =~= self.plaintext@); assert(Seq::<u8>::empty() + self.plaintext@ =~= self.plaintext@);
            assert(consumed(*self) + vx_x =~= consumed(*self)); assert(buf@.subrange(0, 0) =~= Seq::<u8>::empty());
            assert(read_ok(*self, *self, Seq::empty()));
        }
//@loop 0
            invariant
                swf(*self), same_tx(*self, *old(self)), old(self).protection is None ==> *self == *old(self), buf@ == old(buf)@, old(buf)@.len() > 0,
                old(self).protection is Some ==> ({ let p = old(self).protection->0;
                    self.protection is Some && dl(p, vx_x) is Some && consumed(*self) == consumed(*old(self)) + vx_x && old(self).plaintext@ + dl(p, vx_x)->0 == self.plaintext@ && after(p, self.protection->0, vx_x) }),
//@after `let raw =` opt
            let ghost vx_q = self.protection;
            proof {
                if let Some(p) = old(self).protection {
                    lemma_step(p, vx_q->0, vx_x, raw@);
                    assert((consumed(*old(self)) + vx_x) + raw@ =~= consumed(*old(self)) + (vx_x + raw@));
                    assert(Seq::<u8>::empty() + self.plaintext@ =~= self.plaintext@);
                    assert(dl(p, vx_x + raw@) is Some || raw@[0] == 23);
                }
            }
//@in 0 end
            proof {
                let p = old(self).protection->0;
                vx_x = vx_x + raw@;
                assert(old(self).plaintext@ + dl(p, vx_x)->0 =~= self.plaintext@);
            }
//@after 0 opt
        proof {
            assert(self.plaintext@ =~= self.plaintext@.subrange(0, vx_n(buf@.len() as int, self.plaintext@.len() as int)) + self.plaintext@.subrange(vx_n(buf@.len() as int, self.plaintext@.len() as int), self.plaintext@.len() as int));
        }
        let ghost vx_p = self.plaintext@; let ghost vx_s = *self;
//@loop 1
            invariant
                vx_d@.len() <= buf@.len(), buf@.len() == old(buf)@.len(), forall|j: int| 0 <= j < i ==> buf@[j] == vx_d@[j],
//@after 1
        proof { assert(buf@.subrange(0, n as int) =~= vx_d@); assert(vx_d@ + self.plaintext@ =~= vx_p); assert(consumed(*self) == consumed(vx_s)); }
//@endfn
//@fn net/stream.rs impl TlsStream :: fn tls_write
//@ret r
//@resub `for fraqment in src\.chunks\(MAX_FRAQMENT_LEN\) \{` => `let vx_c = vx_chunks(src, MAX_FRAQMENT_LEN); for vx_i in 0..vx_c.len() { let fraqment = vx_c[vx_i];` opt
//@spec
    requires swf(*old(self)),
    ensures swf(*final(self)), same_rx(*final(self), *old(self)), final(self).buffer@ == old(self).buffer@,
        old(self).protection is None ==> r is Err && same_tx(*final(self), *old(self)),
        (final(self).protection is Some) == (old(self).protection is Some),
        r is Ok ==> ({ let p = old(self).protection->0; let q = final(self).protection->0; let k = send_key(p);
            final(self).stream.sent() == old(self).stream.sent() + wire_s(p.cipher.suite(), k, k.sequence_number as int, src@)
            && same_but_counters(q, p) && recv_key(q) == recv_key(p) && send_key(q).sequence_number == k.sequence_number + pieces(src@.len() as int) }),
//@start
        proof { assert(1usize << 14 == 16384) by(bit_vector); assert(src@.subrange(0, src@.len() as int) =~= src@); }
        let ghost vx_p = self.protection->0;
        let ghost vx_k = send_key(vx_p); let ghost vx_q = vx_k.sequence_number as int; let ghost vx_cs = vx_p.cipher.suite();
//@loop 0
            invariant
                swf(*self), same_rx(*self, *old(self)), self.buffer@ == old(self).buffer@, self.protection is Some, old(self).protection is Some, MAX_FRAQMENT_LEN == 16384,
                src@.len() > (vx_c@.len() - 1) * 16384, forall|i: int| 0 <= i < vx_c@.len() ==> (#[trigger] vx_c@[i])@ == chunk_s(src@, 16384, i),
                ({ let p = old(self).protection->0; let q = self.protection->0; let rest = if vx_i * 16384 <= src@.len() { src@.subrange(vx_i * 16384, src@.len() as int) } else { Seq::empty() };
                    &&& old(self).stream.sent() + wire_s(p.cipher.suite(), send_key(p), send_key(p).sequence_number as int, src@) == self.stream.sent() + wire_s(p.cipher.suite(), send_key(p), send_key(p).sequence_number + vx_i, rest)
                    &&& same_but_counters(q, p) && recv_key(q) == recv_key(p) && send_key(q).sequence_number == send_key(p).sequence_number + vx_i }),
//@in 0 start
            let ghost vx_s = self.stream.sent(); let ghost vx_sk = send_key(self.protection->0);
//@in 0 end
            proof {
                let p = old(self).protection->0; let k = send_key(p); let cs = p.cipher.suite(); let n = k.sequence_number as int;
                let r0 = src@.subrange(vx_i * 16384, src@.len() as int);
                let c = chunk_s(src@, 16384, vx_i as int);
                let m = c.len() as int;
                assert(r0.subrange(0, m) =~= c);
                let r1 = r0.subrange(m, r0.len() as int);
                assert(r1 =~= if (vx_i + 1) * 16384 <= src@.len() { src@.subrange((vx_i + 1) * 16384, src@.len() as int) } else { Seq::empty() });
                let a = sealed_s(cs, k, (n + vx_i) as u64, 23, c); let b = wire_s(cs, k, n + vx_i + 1, r1);
                assert(r0.len() > 0) by { let l = vx_c@.len() as int; assert((l - 1) * 16384 >= vx_i * 16384) by(nonlinear_arith) requires l - 1 >= vx_i; }
                assert(m == if r0.len() <= 16384 { r0.len() as int } else { 16384int });
                assert(wire_s(cs, k, n + vx_i, r0) == a + b);
                assert(vx_sk.sequence_number == (n + vx_i) as u64);
                assert(sealed_s(cs, vx_sk, vx_sk.sequence_number, 23, c) == a);
                assert(self.stream.sent() == vx_s + a);
                assert(vx_s + (a + b) =~= (vx_s + a) + b);
            }
//@after 0
        proof { assert(self.stream.sent() + Seq::<u8>::empty() =~= self.stream.sent()); }
//@endfn
}
pub open spec fn vx_n(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the data of the records x, received by p
pub open spec fn dl(p: RecordPayloadProtection, x: Seq<u8>) -> Option<Seq<u8>> { deliver(p.cipher.suite(), recv_key(p), recv_key(p).sequence_number as int, x) }
pub open spec fn after(p: RecordPayloadProtection, q: RecordPayloadProtection, x: Seq<u8>) -> bool {
    wf(q) && same_but_counters(q, p) && send_key(q) == send_key(p) && recv_key(q).sequence_number == recv_key(p).sequence_number + count(x)
}
/// between two calls of tls_read: the data kept so far and the data of the records consumed since are what was given out and what is kept now
pub open spec fn read_ok(a: TlsStream, b: TlsStream, out: Seq<u8>) -> bool {
    match a.protection {
        None => consumed(b) == consumed(a) && a.plaintext@ == out + b.plaintext@,
        Some(p) => b.protection is Some && exists|x: Seq<u8>| (#[trigger] dl(p, x)) is Some && consumed(b) == consumed(a) + x && a.plaintext@ + dl(p, x)->0 == out + b.plaintext@ && after(p, b.protection->0, x),
    }
}
/// one more record
proof fn lemma_step(p: RecordPayloadProtection, q: RecordPayloadProtection, x: Seq<u8>, r: Seq<u8>)
    requires whole(r), r.len() == 5 + rec_len(r), dl(p, x) is Some, after(p, q, x),
    ensures
        r[0] != 23 ==> dl(p, x + r) == dl(p, x) && count(x + r) == count(x),
        r[0] == 23 ==> count(x + r) == count(x) + 1,
        ({ let o = open_rec(q.cipher.suite(), recv_key(q), recv_key(q).sequence_number as int, r);
           r[0] == 23 && o is Some ==> dl(p, x + r) == Some(dl(p, x)->0 + if (o->0).0 == 23 { (o->0).1 } else { Seq::<u8>::empty() }) }),
{
    let cs = p.cipher.suite(); let k = recv_key(p); let n = k.sequence_number as int;
    lemma_append(cs, k, n, x, r); lemma_one(cs, k, n + count(x), r);
    assert(dl(p, x)->0 + Seq::<u8>::empty() =~= dl(p, x)->0);
}
}
fn main() {}
