
    proof fn lemma_inv_push(a: &Self, b: &Self, m: Seq<u8>, x: u8)
        requires
            a.inv_core(m), a.input_len < {{BL}} - 1, b.input@ == a.input@.update(a.input_len as int, x), b.input_len == a.input_len + 1, b.state@ == a.state@,
        ensures b.inv_core(m.push(x)),
    {
        let n = m.len() as int / {{BL}};
        assert(m.push(x).subrange(0, n * {{BL}}) =~= m.subrange(0, n * {{BL}}));
        lemma_absorb_prefix(h0(), m, m.push(x), n);
    }
    proof fn lemma_inv_block(a: &Self, b: &Self, blk: Seq<u8>, m: Seq<u8>, x: u8)
        requires
            a.inv_core(m), a.input_len == {{BL}} - 1, blk == a.input@.update(a.input_len as int, x), b.input_len == 0, b.state@ == compress(a.state@, blk),
        ensures b.inv_core(m.push(x)),
    {
        let n = m.len() as int / {{BL}};
        let m2 = m.push(x);
        assert(m2.len() as int / {{BL}} == n + 1);
        assert(m2.subrange(0, n * {{BL}}) =~= m.subrange(0, n * {{BL}}));
        lemma_absorb_prefix(h0(), m, m2, n);
        assert(m2.subrange(n * {{BL}}, (n + 1) * {{BL}}) =~= blk);
        assert(absorb_n(h0(), m2, n + 1) == compress(absorb_n(h0(), m2, n), m2.subrange(n * {{BL}}, (n + 1) * {{BL}})));
    }
//@fn {{FILE}} impl TranscriptHash for {{TYPE}} :: fn new
//@ret r
//@spec
    ensures r.inv(Seq::<u8>::empty()),
//@start
    proof { assert forall|q: Self| q.length == 0 && q.input_len == 0 && q.state@ =~= h0() implies #[trigger] q.inv(Seq::<u8>::empty()) by { }; }
//@endfn
//@fn {{FILE}} impl TranscriptHash for {{TYPE}} :: fn update
//@spec
    requires old(self).input_len < {{BL}}, old(self).length + buf@.len() <= u128::MAX,
    ensures
        final(self).input_len < {{BL}},
        final(self).length == old(self).length + buf@.len(),
        final(self).input_len == (old(self).input_len + buf@.len()) % {{BL}},
        forall|m: Seq<u8>| #[trigger] old(self).inv(m) ==> final(self).inv(m + buf@),
//@nloops 1
//@loop 0 it
            invariant
                it.seq() == buf@.as_ref(),
                self.input_len < {{BL}},
                self.length == old(self).length + buf@.len(),
                self.input_len == (old(self).input_len + it.index()) % {{BL}},
                forall|m: Seq<u8>| #[trigger] old(self).inv(m) ==> self.inv_core(m + buf@.subrange(0, it.index() as int)),
//@in 0 start
            let ghost pre = *self;
            let ghost blk = self.input@.update(self.input_len as int, *b);
//@in 0 end
            proof {
                assert(*b == buf@[it.index() as int]);
                assert forall|m: Seq<u8>| #[trigger] old(self).inv(m) implies self.inv_core(m + buf@.subrange(0, it.index() as int + 1)) by {
                    let m1 = m + buf@.subrange(0, it.index() as int);
                    assert(m + buf@.subrange(0, it.index() as int + 1) =~= m1.push(*b));
                    if pre.input_len == {{BL}} - 1 { Self::lemma_inv_block(&pre, &*self, blk, m1, *b); }
                    else { Self::lemma_inv_push(&pre, &*self, m1, *b); }
                }
            }
//@before 0
        proof { assert forall|m: Seq<u8>| #[trigger] old(self).inv(m) implies self.inv_core(m + buf@.subrange(0, 0)) by { assert(m + buf@.subrange(0, 0) =~= m); } }
//@after 0
        proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); }
//@endfn
