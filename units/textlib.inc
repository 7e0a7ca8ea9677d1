// ---- text: characters, their bytes in UTF-8, percent encoding ----------------------------------------
pub uninterp spec fn utf8_char(c: char) -> Seq<u8>;
/// UTF-8: an ASCII character is one byte, all bytes of other characters are 128 or larger
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_char(c: char)
    ensures
        (c as u32) < 128 ==> #[trigger] utf8_char(c) == seq![c as u8],
        (c as u32) >= 128 ==> utf8_char(c).len() > 0 && forall|i: int| 0 <= i < utf8_char(c).len() ==> #[trigger] utf8_char(c)[i] >= 128,
{ unimplemented!() }
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { utf8_char(s[0]) + utf8(s.drop_first()) } }
/// different texts have different bytes
#[verifier::external_body]
pub proof fn axiom_utf8_injective(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b), ensures a == b { unimplemented!() }

pub proof fn lemma_utf8_concat(a: Seq<char>, b: Seq<char>) ensures utf8(a + b) == utf8(a) + utf8(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(utf8(a) + utf8(b) =~= utf8(b)); }
    else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_utf8_concat(a.drop_first(), b);
        assert(utf8(a + b) =~= utf8(a) + utf8(b));
    }
}
pub proof fn lemma_utf8_one(c: char) ensures utf8(seq![c]) == utf8_char(c)
{ assert(seq![c].drop_first() =~= Seq::<char>::empty()); assert(utf8(seq![c].drop_first()) =~= Seq::<u8>::empty()); assert(utf8(seq![c]) =~= utf8_char(c)); }

/// the digit for a number below 16
pub open spec fn hex(v: int) -> char { if v < 10 { (('0' as u32) + v) as u8 as char } else { (('A' as u32) + v - 10) as u8 as char } }
pub open spec fn hexval(b: u8) -> Option<int> {
    if 48 <= b <= 57 { Some(b - 48) } else if 65 <= b <= 70 { Some(b - 55) } else if 97 <= b <= 102 { Some(b - 87) } else { None }
}
pub open spec fn escaped(b: int) -> Seq<char> { seq!['%', hex(b / 16), hex(b % 16)] }
/// percent decoding
pub open spec fn dec(b: Seq<u8>) -> Seq<u8> decreases b.len()
{
    if b.len() == 0 { Seq::empty() }
    else if b.len() >= 3 && b[0] == 37 && hexval(b[1]) is Some && hexval(b[2]) is Some {
        seq![(hexval(b[1])->0 * 16 + hexval(b[2])->0) as u8] + dec(b.subrange(3, b.len() as int))
    } else { seq![b[0]] + dec(b.drop_first()) }
}
/// `e` is decoded to the text `s`
pub open spec fn decodes(e: Seq<char>, s: Seq<char>) -> bool { dec(utf8(e)) == utf8(s) }

pub proof fn lemma_escaped(b: int)
    requires 0 <= b < 256,
    ensures utf8(escaped(b)).len() == 3, utf8(escaped(b))[0] == 37, hexval(utf8(escaped(b))[1]) == Some(b / 16), hexval(utf8(escaped(b))[2]) == Some(b % 16),
        forall|i: int| 0 <= i < 3 ==> (#[trigger] escaped(b)[i] as u32) < 128 && escaped(b)[i] != '/' && escaped(b)[i] != '.' && escaped(b)[i] != ':' && escaped(b)[i] != ' ' && escaped(b)[i] != '\0' && escaped(b)[i] != 'n' && (i > 0 ==> escaped(b)[i] != '%'),
{
    broadcast use axiom_utf8_char;
    let e = escaped(b);
    assert(e.drop_first() =~= seq![e[1], e[2]]);
    assert(e.drop_first().drop_first() =~= seq![e[2]]);
    assert(e.drop_first().drop_first().drop_first() =~= Seq::<char>::empty());
    assert(utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(utf8(seq![e[2]]) =~= seq![e[2] as u8]);
    assert(utf8(seq![e[1], e[2]]) =~= seq![e[1] as u8, e[2] as u8]);
    assert(utf8(e) =~= seq![37u8, e[1] as u8, e[2] as u8]);
}
pub proof fn lemma_dec_escaped(b: int, rest: Seq<u8>)
    requires 0 <= b < 256,
    ensures dec(utf8(escaped(b)) + rest) == seq![b as u8] + dec(rest),
{
    lemma_escaped(b);
    let x = utf8(escaped(b)) + rest;
    assert(x.subrange(3, x.len() as int) =~= rest);
    assert((b / 16) * 16 + b % 16 == b);
}
/// bytes which are not a percent sign are taken over
pub proof fn lemma_dec_literal(a: Seq<u8>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 37,
    ensures dec(a + rest) == a + dec(rest),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + rest =~= rest); assert(a + dec(rest) =~= dec(rest)); }
    else {
        assert((a + rest).drop_first() =~= a.drop_first() + rest);
        assert forall|i: int| 0 <= i < a.drop_first().len() implies #[trigger] a.drop_first()[i] != 37 by { assert(a.drop_first()[i] == a[i + 1]); }
        lemma_dec_literal(a.drop_first(), rest);
        assert(dec(a + rest) =~= a + dec(rest));
    }
}

// ---- percent_encoding::AsciiSet and utf8_percent_encode: every byte which is in the set or not ASCII is escaped ----
pub struct AsciiSet { pub bytes: Ghost<Set<u8>> }
pub open spec fn enc_byte(b: u8, set: Set<u8>) -> Seq<char> { if b >= 128 || set.contains(b) { escaped(b as int) } else { seq![b as char] } }
pub open spec fn enc_bytes(b: Seq<u8>, set: Set<u8>) -> Seq<char> decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { enc_byte(b[0], set) + enc_bytes(b.drop_first(), set) } }
pub open spec fn enc(s: Seq<char>, set: Set<u8>) -> Seq<char> { enc_bytes(utf8(s), set) }
impl AsciiSet {
    pub open spec fn view(self) -> Set<u8> { self.bytes@ }
    #[verifier::external_body]
    pub fn add(self, b: u8) -> (r: AsciiSet) requires b < 128, ensures r@ == self@.insert(b) { unimplemented!() }
}
#[verifier::external_body]
pub fn controls() -> (r: AsciiSet) ensures forall|b: u8| #[trigger] r@.contains(b) <==> b < 32 || b == 127 { unimplemented!() }
#[verifier::external_body]
pub fn percent_encode(s: &str, set: &AsciiSet) -> (r: String) ensures r@ == enc(s@, set@) { unimplemented!() }
/// percent_decode_str(s).decode_utf8_lossy()
#[verifier::external_body]
pub fn percent_decode(s: &str) -> (r: String) ensures forall|t: Seq<char>| decodes(s@, t) ==> r@ == t { unimplemented!() }

pub proof fn lemma_enc_bytes(b: Seq<u8>, set: Set<u8>)
    requires set.contains(37),
    ensures
        dec(utf8(enc_bytes(b, set))) == b,
        enc_bytes(b, set).len() == 0 <==> b.len() == 0,
        forall|i: int| 0 <= i < enc_bytes(b, set).len() ==> (#[trigger] enc_bytes(b, set)[i] as u32) < 128,
        set.contains(58) ==> !enc_bytes(b, set).contains(':'),
        set.contains(47) ==> !enc_bytes(b, set).contains('/'),
        set.contains(0) ==> !enc_bytes(b, set).contains('\0'),
        (forall|x: u8| 9 <= x <= 13 || x == 32 ==> #[trigger] set.contains(x)) ==> forall|i: int| 0 <= i < enc_bytes(b, set).len() ==> !space(#[trigger] enc_bytes(b, set)[i]),
    decreases b.len(),
{
    broadcast use axiom_utf8_char;
    let e = enc_bytes(b, set);
    if b.len() == 0 { assert(utf8(e) =~= Seq::<u8>::empty()); assert(dec(utf8(e)) =~= b); }
    else {
        let f = enc_byte(b[0], set); let r = enc_bytes(b.drop_first(), set);
        lemma_enc_bytes(b.drop_first(), set);
        lemma_utf8_concat(f, r);
        assert(e == f + r);
        if b[0] >= 128 || set.contains(b[0]) {
            lemma_dec_escaped(b[0] as int, utf8(r));
            lemma_escaped(b[0] as int);
        } else {
            lemma_utf8_one(b[0] as char);
            assert(utf8(f) =~= seq![b[0]]);
            lemma_dec_literal(utf8(f), utf8(r));
        }
        assert(seq![b[0]] + b.drop_first() =~= b);
        assert(f.len() >= 1);
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i] as u32) < 128 by {
            if i < f.len() { assert(e[i] == f[i]); } else { assert(e[i] == r[i - f.len()]); }
        }
        if set.contains(58) && e.contains(':') { let i = choose|i: int| 0 <= i < e.len() && e[i] == ':'; if i < f.len() { assert(f[i] == ':'); } else { assert(r[i - f.len()] == ':'); assert(r.contains(':')); } }
        if set.contains(47) && e.contains('/') { let i = choose|i: int| 0 <= i < e.len() && e[i] == '/'; if i < f.len() { assert(f[i] == '/'); } else { assert(r[i - f.len()] == '/'); assert(r.contains('/')); } }
        if set.contains(0) && e.contains('\0') { let i = choose|i: int| 0 <= i < e.len() && e[i] == '\0'; if i < f.len() { assert(f[i] == '\0'); } else { assert(r[i - f.len()] == '\0'); assert(r.contains('\0')); } }
        if forall|x: u8| 9 <= x <= 13 || x == 32 ==> #[trigger] set.contains(x) {
            assert forall|i: int| 0 <= i < e.len() implies !space(#[trigger] e[i]) by {
                if i < f.len() { assert(e[i] == f[i]); } else { assert(e[i] == r[i - f.len()]); }
            }
        }
    }
}
/// ASCII white space (as in str::split_ascii_whitespace)
pub open spec fn space(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || (c as u32) == 12 }
/// encoding is reversible: different texts have different encoded forms
pub proof fn lemma_enc_injective(a: Seq<char>, b: Seq<char>, set: Set<u8>)
    requires set.contains(37), enc(a, set) == enc(b, set),
    ensures a == b,
{ lemma_enc_bytes(utf8(a), set); lemma_enc_bytes(utf8(b), set); axiom_utf8_injective(a, b); }

/// the first position of "::"
pub open spec fn sep_at(s: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == ':' && s[i + 1] == ':' }
pub open spec fn first_sep(s: Seq<char>, i: int) -> bool { sep_at(s, i) && forall|j: int| 0 <= j < i ==> !#[trigger] sep_at(s, j) }
pub open spec fn no_sep(s: Seq<char>) -> bool { forall|j: int| !#[trigger] sep_at(s, j) }
