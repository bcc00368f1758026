    pub open spec fn sent_s(len: nat) -> Seq<u8> {
        if len as int % {{BL}} > {{BL}} - 1 - {{LB}} { seq![0x80u8] + zeros(({{BL}} - len as int % {{BL}} - 1) as nat) } else { Seq::<u8>::empty() }
    }
    pub open spec fn last_s(len: nat) -> Seq<u8> {
        if len as int % {{BL}} > {{BL}} - 1 - {{LB}} { zeros(({{BL}} - {{LB}}) as nat) + len_field(len) }
        else { seq![0x80u8] + zeros(({{BL}} - {{LB}} - 1 - len as int % {{BL}}) as nat) + len_field(len) }
    }
    proof fn lemma_pad_split(m: Seq<u8>)
        ensures m + Self::sent_s(m.len()) + Self::last_s(m.len()) == pad(m), pad(m).len() % {{BL}} == 0,
    {
        let l = m.len();
        if l as int % {{BL}} > {{BL}} - 1 - {{LB}} {
            let a = ({{BL}} - l as int % {{BL}} - 1) as nat;
            assert(padz(l as int) == a + {{BL}} - {{LB}});
            assert(zeros(a) + zeros(({{BL}} - {{LB}}) as nat) =~= zeros(padz(l as int) as nat));
        } else {
            assert(padz(l as int) == {{BL}} - {{LB}} - 1 - l as int % {{BL}});
        }
        assert(m + Self::sent_s(m.len()) + Self::last_s(m.len()) =~= pad(m));
    }
    /// the top length byte is zero for every message shorter than 2^53 bytes
    proof fn lemma_top(l: u128)
        requires l < {{MAXLEN}},
        ensures ((8 * l) as u128 >> (8 * ({{LB}} - 1)) as u128) as u8 == 0,
    { assert(((8 * l) as u128 >> {{TOPSH}}) as u8 == 0) by(bit_vector) requires l < {{MAXLEN}}; }
//@fn {{FILE}} impl {{TYPE}} :: fn padd_input
//@spec
    requires old(self).input_len == old(self).length % {{BL}}, old(self).length < {{MAXLEN}},
    ensures forall|m: Seq<u8>| #[trigger] old(self).inv(m) ==> final(self).state@ == absorb(h0(), pad(m)),
//@nloops 1
//@after `self.update(&padding[..padding_length]);` 0
                proof {
                    assert(padding@.subrange(0, padding_length as int) =~= Self::sent_s(len0));
                }
//@start
        let ghost len0: nat = self.length as nat;
//@before 0
            let ghost two = len0 as int % {{BL}} > {{BL}} - 1 - {{LB}};
            proof {
                assert forall|m: Seq<u8>| #[trigger] old(self).inv(m) implies self.inv(m + Self::sent_s(len0)) by {
                    if !two { assert(m + Self::sent_s(len0) =~= m); }
                }
                Self::lemma_top(len0 as u128);
            }
//@loop 0
                invariant
                    len0 == input_len, input_len < {{MAXLEN}}, len0 == old(self).length,
                    two == (len0 as int % {{BL}} > {{BL}} - 1 - {{LB}}),
                    padding_length == (if two { {{BL}}int } else { {{BL}} - len0 as int % {{BL}} }),
                    padding_length >= {{LB}} + 1,
                    padding@.len() == {{BL}},
                    padding[0] == (if two { 0u8 } else { 0x80u8 }),
                    forall|j: int| 0 < j <= padding_length - i ==> padding[j] == 0,
                    forall|j: int| 1 <= j < i ==> #[trigger] padding[padding_length - j] == ((8 * len0) as u128 >> (8 * (j - 1)) as u128) as u8,
                    self.input_len < {{BL}}, self.length + {{BL}} <= u128::MAX,
                    forall|m: Seq<u8>| #[trigger] old(self).inv(m) ==> self.inv(m + Self::sent_s(len0)),
//@after 0
            proof {
                let pl = padding_length as int;
                let p = padding@.subrange(0, pl);
                assert forall|x: int| 0 <= x < pl implies p[x] == Self::last_s(len0)[x] by {
                    if x >= pl - {{LB}} { let j = pl - x; if j < {{LB}} { assert(padding[padding_length - j] == ((8 * len0) as u128 >> (8 * (j - 1)) as u128) as u8); } }
                }
                assert(p =~= Self::last_s(len0));
            }
//@end
        proof {
            assert forall|m: Seq<u8>| #[trigger] old(self).inv(m) implies self.state@ == absorb(h0(), pad(m)) by {
                assert(m.len() == len0);
                Self::lemma_pad_split(m);
                assert(old(self).length + padding_length <= u128::MAX);
            }
        }
//@endfn
//@fn {{FILE}} impl TranscriptHash for {{TYPE}} :: fn finalize
//@ret r
//@spec
    requires self.input_len == self.length % {{BL}}, self.length < {{MAXLEN}},
    ensures forall|m: Seq<u8>| #[trigger] self.inv(m) ==> r@ == {{HASH}}(m),
//@nloops 1
//@after `copy.padd_input();`
        proof { assert forall|m: Seq<u8>| #[trigger] self.inv(m) implies copy.state@ == absorb(h0(), pad(m)) by { assert(copy0.inv(m)); } }
//@before `copy.padd_input();`
        let ghost copy0 = copy;
//@loop 0
            invariant
                copy.state@.len() == 8, out@.len() == {{OUT}},
                forall|j: int| 0 <= j < i ==> out[j] == #[trigger] words_be(copy.state@, {{OUT}})[j],
//@in 0 start
            proof { lemma_idx(i); }
//@end
        proof { assert(out@ =~= words_be(copy.state@, {{OUT}})); }
//@endfn
//@fn {{FILE}} impl TranscriptHash for {{TYPE}} :: fn clone
//@ret r
//@subst `Box<dyn TranscriptHash>` => `Box<Self>`
//@spec
    ensures r.input_len == self.input_len, r.length == self.length, r.state@ == self.state@,
        forall|m: Seq<u8>| #[trigger] self.inv(m) ==> r.inv(m),
//@endfn
