// Verus unit: byte keys (core/src/serializer.rs, Edge in core/src/types.rs)
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
#[derive(Debug)]
pub struct KeyError { pub code: u64 }

// ---- specification ----------------------------------------------------------------------------
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
/// `x` as `n` bytes, most significant byte first
pub open spec fn be(n: nat, x: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { be((n - 1) as nat, x / 256).push((x % 256) as u8) } }
/// two's complement
pub open spec fn enc(n: nat, x: int) -> nat { if x < 0 { (x + pow256(n)) as nat } else { x as nat } }
/// lexicographic order of byte strings
pub open spec fn blt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else { a[0] < b[0] || (a[0] == b[0] && blt(a.skip(1), b.skip(1))) }
}
/// comparing two strings of the same length: first the beginning, then the rest
pub proof fn lemma_blt_concat(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a.len() == b.len(),
    ensures blt(a + x, b + y) <==> blt(a, b) || (a == b && blt(x, y)),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + x =~= x); assert(b + y =~= y); assert(a =~= b);
    } else {
        assert((a + x).skip(1) =~= a.skip(1) + x);
        assert((b + y).skip(1) =~= b.skip(1) + y);
        lemma_blt_concat(a.skip(1), b.skip(1), x, y);
        assert(a == b <==> a[0] == b[0] && a.skip(1) == b.skip(1)) by {
            if a[0] == b[0] && a.skip(1) == b.skip(1) {
                assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } }
                assert(a =~= b);
            }
        }
    }
}
pub proof fn lemma_blt_irreflexive(a: Seq<u8>) ensures !blt(a, a) decreases a.len() { if a.len() > 0 { lemma_blt_irreflexive(a.skip(1)); } }
pub proof fn lemma_blt_trichotomy(a: Seq<u8>, b: Seq<u8>)
    ensures blt(a, b) || blt(b, a) || a == b, !(blt(a, b) && blt(b, a)),
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } } else if b.len() > 0 {
        lemma_blt_trichotomy(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } }
            assert(a =~= b);
        }
    }
}
pub proof fn lemma_pow256()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000, pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 17);
}
pub proof fn lemma_be_len(n: nat, x: nat) ensures be(n, x).len() == n decreases n { if n > 0 { lemma_be_len((n - 1) as nat, x / 256); } }
/// the order of the bytes is the order of the numbers; different numbers have different bytes
pub proof fn lemma_be(n: nat, x: nat, y: nat)
    requires x < pow256(n), y < pow256(n),
    ensures blt(be(n, x), be(n, y)) <==> x < y, be(n, x) == be(n, y) ==> x == y, be(n, x).len() == n, be(n, y).len() == n,
    decreases n,
{
    lemma_be_len(n, x); lemma_be_len(n, y);
    if n > 0 {
        let m = (n - 1) as nat;
        assert(x / 256 < pow256(m) && y / 256 < pow256(m)) by (nonlinear_arith) requires x < pow256(n), y < pow256(n), pow256(n) == 256 * pow256(m);
        lemma_be(m, x / 256, y / 256);
        let cx = (x % 256) as u8; let cy = (y % 256) as u8;
        let a = be(m, x / 256); let b = be(m, y / 256);
        assert(be(n, x) =~= a + seq![cx]);
        assert(be(n, y) =~= b + seq![cy]);
        lemma_blt_concat(a, b, seq![cx], seq![cy]);
        assert(blt(seq![cx], seq![cy]) <==> cx < cy) by { reveal_with_fuel(blt, 2); assert(seq![cx].skip(1) =~= Seq::<u8>::empty()); assert(seq![cy].skip(1) =~= Seq::<u8>::empty()); }
        if be(n, x) == be(n, y) {
            assert(a =~= be(n, x).subrange(0, m as int)); assert(b =~= be(n, y).subrange(0, m as int));
            assert(be(n, x)[m as int] == cx && be(n, y)[m as int] == cy);
        }
        if a == b { assert(x / 256 == y / 256); }
        assert(x == 256 * (x / 256) + x % 256 && y == 256 * (y / 256) + y % 256);
        lemma_blt_irreflexive(a);
        if x / 256 == y / 256 { assert(a == b); }
    }
}

// ---- contracts assumed for dependencies ---------------------------------------------------------
/// smallvec::SmallVec<[u8; 32]>
#[verifier::external_body]
pub struct KeyVec { x: Vec<u8> }
impl View for KeyVec { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl KeyVec {
    #[verifier::external_body]
    pub fn new() -> (r: KeyVec) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: KeyVec) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &[u8]) -> (r: KeyVec) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: KeyVec) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<const N: usize>(&mut self, a: [u8; N]) ensures final(self)@ == old(self)@ + a@ { unimplemented!() }
}
/// serde_bytes::ByteBuf
#[verifier::external_body]
pub struct ByteBuf { x: Vec<u8> }
impl View for ByteBuf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl ByteBuf {
    #[verifier::external_body]
    pub fn from(s: &[u8]) -> (r: ByteBuf) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// byte values are determined by their bytes
pub axiom fn bytebuf_ext(a: ByteBuf, b: ByteBuf) ensures a@ == b@ ==> a == b;
pub axiom fn keyvec_ext(a: KeyVec, b: KeyVec) ensures a@ == b@ ==> a == b;
pub axiom fn vec_ext(a: Vec<u8>, b: Vec<u8>) ensures a@ == b@ ==> a == b;
#[verifier::external_body]
pub fn vec_from(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
/// UTF-8
pub uninterp spec fn utf8(s: String) -> Seq<u8>;
pub axiom fn utf8_injective(a: String, b: String) ensures utf8(a) == utf8(b) ==> a == b;
#[verifier::external_body]
pub fn as_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(*s) { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8_lossy(k: &[u8]) -> (r: String) ensures forall|v: String| #![trigger utf8(v)] k@ == utf8(v) ==> r == v { unimplemented!() }
/// the slices `[..n]`, `[n..]` (panic outside of the slice) and `try_into` an array of a fixed length
#[verifier::external_body]
pub fn upto(k: &[u8], n: usize) -> (r: &[u8]) requires n <= k@.len(), ensures r@ == k@.subrange(0, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn since(k: &[u8], n: usize) -> (r: &[u8]) requires n <= k@.len(), ensures r@ == k@.subrange(n as int, k@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn to_array<const N: usize>(k: &[u8]) -> (r: Result<[u8; N], KeyError>) ensures k@.len() == N ==> r is Ok, r matches Ok(a) ==> a@ == k@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_u8(x: u8) -> (r: [u8; 1]) ensures r@ == be(1, enc(1, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u8(a: [u8; 1]) -> (r: u8) ensures be(1, enc(1, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_u16(x: u16) -> (r: [u8; 2]) ensures r@ == be(2, enc(2, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u16(a: [u8; 2]) -> (r: u16) ensures be(2, enc(2, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_u32(x: u32) -> (r: [u8; 4]) ensures r@ == be(4, enc(4, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u32(a: [u8; 4]) -> (r: u32) ensures be(4, enc(4, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_u64(x: u64) -> (r: [u8; 8]) ensures r@ == be(8, enc(8, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u64(a: [u8; 8]) -> (r: u64) ensures be(8, enc(8, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_u128(x: u128) -> (r: [u8; 16]) ensures r@ == be(16, enc(16, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u128(a: [u8; 16]) -> (r: u128) ensures be(16, enc(16, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_usize(x: usize) -> (r: [u8; 8]) ensures r@ == be(8, enc(8, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_usize(a: [u8; 8]) -> (r: usize) ensures be(8, enc(8, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_i8(x: i8) -> (r: [u8; 1]) ensures r@ == be(1, enc(1, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_i8(a: [u8; 1]) -> (r: i8) ensures be(1, enc(1, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_i16(x: i16) -> (r: [u8; 2]) ensures r@ == be(2, enc(2, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_i16(a: [u8; 2]) -> (r: i16) ensures be(2, enc(2, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_i32(x: i32) -> (r: [u8; 4]) ensures r@ == be(4, enc(4, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_i32(a: [u8; 4]) -> (r: i32) ensures be(4, enc(4, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_i64(x: i64) -> (r: [u8; 8]) ensures r@ == be(8, enc(8, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_i64(a: [u8; 8]) -> (r: i64) ensures be(8, enc(8, r as int)) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_be_i128(x: i128) -> (r: [u8; 16]) ensures r@ == be(16, enc(16, x as int)) { unimplemented!() }
#[verifier::external_body]
pub fn from_be_i128(a: [u8; 16]) -> (r: i128) ensures be(16, enc(16, r as int)) == a@ { unimplemented!() }

// ---- the contract of the traits -----------------------------------------------------------------
pub trait KeySerializer: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn create_key(&self) -> (ret: KeyVec)
        ensures ret@ == self.bytes();
    /// a value is decoded from its key
    fn parse_key(key: &[u8]) -> (ret: Result<Self, KeyError>)
        requires exists|v: Self| #[trigger] v.bytes() == key@,
        ensures forall|v: Self| #[trigger] v.bytes() == key@ ==> ret == Ok::<Self, KeyError>(v);
    /// different values have different keys
    proof fn injective(a: Self, b: Self)
        ensures a.bytes() == b.bytes() ==> a == b;
}
pub trait FixedSizeKeySerializer: KeySerializer {
    fn key_size() -> (ret: usize)
        ensures forall|v: Self| #[trigger] v.bytes().len() == ret;
}

impl KeySerializer for Vec<u8> {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    proof fn injective(a: Self, b: Self) { vec_ext(a, b) }
//@fn src=core/src/serializer.rs item="KeySerializer for Vec::create_key"
//@rewrite from_slice\(self\) => from_slice(self.as_slice())
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for Vec::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite Vec::from => vec_from
//@at fn_start
    proof { assert forall|v: Self, w: Self| #![trigger v.bytes(), w@] v.bytes() == w@ implies v == w by { vec_ext(v, w); } }
//@end
}

impl KeySerializer for ByteBuf {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    proof fn injective(a: Self, b: Self) { bytebuf_ext(a, b) }
//@fn src=core/src/serializer.rs item="KeySerializer for ByteBuf::create_key"
//@rewrite from_slice\(self\) => from_slice(self.as_slice())
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for ByteBuf::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@at fn_start
    proof { assert forall|v: Self, w: Self| #![trigger v.bytes(), w@] v.bytes() == w@ implies v == w by { bytebuf_ext(v, w); } }
//@end
}

impl KeySerializer for KeyVec {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    proof fn injective(a: Self, b: Self) { keyvec_ext(a, b) }
//@fn src=core/src/serializer.rs item="KeySerializer for KeyVec::create_key"
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for KeyVec::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@at fn_start
    proof { assert forall|v: Self, w: Self| #![trigger v.bytes(), w@] v.bytes() == w@ implies v == w by { keyvec_ext(v, w); } }
//@end
}

impl KeySerializer for String {
    open spec fn bytes(&self) -> Seq<u8> { utf8(*self) }
    proof fn injective(a: Self, b: Self) { utf8_injective(a, b) }
//@fn src=core/src/serializer.rs item="KeySerializer for String::create_key"
//@rewrite self\.as_bytes\(\) => as_bytes(self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for String::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite String::from_utf8_lossy => from_utf8_lossy
//@rewrite v\.to_string\(\) => v
//@end
}

impl KeySerializer for u8 {
    open spec fn bytes(&self) -> Seq<u8> { be(1, enc(1, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(1, enc(1, a as int), enc(1, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for u8::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_u8(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for u8::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<1>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_u8
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(1, enc(1, v as int));
        assert(key@.subrange(0, 1) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for u8 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for u8::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 1 by { lemma_be_len(1, enc(1, v as int)); } }
//@end
}
/// the order of the keys is the order of the numbers
pub proof fn lemma_order_u8(a: u8, b: u8) ensures blt(a.bytes(), b.bytes()) <==> a < b { lemma_pow256(); lemma_be(1, a as nat, b as nat); }

impl KeySerializer for u16 {
    open spec fn bytes(&self) -> Seq<u8> { be(2, enc(2, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(2, enc(2, a as int), enc(2, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for u16::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_u16(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for u16::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<2>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_u16
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(2, enc(2, v as int));
        assert(key@.subrange(0, 2) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for u16 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for u16::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 2 by { lemma_be_len(2, enc(2, v as int)); } }
//@end
}
/// the order of the keys is the order of the numbers
pub proof fn lemma_order_u16(a: u16, b: u16) ensures blt(a.bytes(), b.bytes()) <==> a < b { lemma_pow256(); lemma_be(2, a as nat, b as nat); }

impl KeySerializer for u32 {
    open spec fn bytes(&self) -> Seq<u8> { be(4, enc(4, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(4, enc(4, a as int), enc(4, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for u32::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_u32(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for u32::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<4>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_u32
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(4, enc(4, v as int));
        assert(key@.subrange(0, 4) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for u32 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for u32::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 4 by { lemma_be_len(4, enc(4, v as int)); } }
//@end
}
/// the order of the keys is the order of the numbers
pub proof fn lemma_order_u32(a: u32, b: u32) ensures blt(a.bytes(), b.bytes()) <==> a < b { lemma_pow256(); lemma_be(4, a as nat, b as nat); }

impl KeySerializer for u64 {
    open spec fn bytes(&self) -> Seq<u8> { be(8, enc(8, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(8, enc(8, a as int), enc(8, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for u64::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_u64(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for u64::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<8>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_u64
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(8, enc(8, v as int));
        assert(key@.subrange(0, 8) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for u64 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for u64::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 8 by { lemma_be_len(8, enc(8, v as int)); } }
//@end
}
/// the order of the keys is the order of the numbers
pub proof fn lemma_order_u64(a: u64, b: u64) ensures blt(a.bytes(), b.bytes()) <==> a < b { lemma_pow256(); lemma_be(8, a as nat, b as nat); }

impl KeySerializer for u128 {
    open spec fn bytes(&self) -> Seq<u8> { be(16, enc(16, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(16, enc(16, a as int), enc(16, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for u128::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_u128(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for u128::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<16>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_u128
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(16, enc(16, v as int));
        assert(key@.subrange(0, 16) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for u128 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for u128::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 16 by { lemma_be_len(16, enc(16, v as int)); } }
//@end
}
/// the order of the keys is the order of the numbers
pub proof fn lemma_order_u128(a: u128, b: u128) ensures blt(a.bytes(), b.bytes()) <==> a < b { lemma_pow256(); lemma_be(16, a as nat, b as nat); }

impl KeySerializer for usize {
    open spec fn bytes(&self) -> Seq<u8> { be(8, enc(8, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(8, enc(8, a as int), enc(8, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for usize::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_usize(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for usize::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<8>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_usize
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(8, enc(8, v as int));
        assert(key@.subrange(0, 8) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
/// the order of the keys is the order of the numbers
pub proof fn lemma_order_usize(a: usize, b: usize) ensures blt(a.bytes(), b.bytes()) <==> a < b { lemma_pow256(); lemma_be(8, a as nat, b as nat); }

impl KeySerializer for i8 {
    open spec fn bytes(&self) -> Seq<u8> { be(1, enc(1, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(1, enc(1, a as int), enc(1, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for i8::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_i8(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for i8::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<1>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_i8
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(1, enc(1, v as int));
        assert(key@.subrange(0, 1) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for i8 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for i8::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 1 by { lemma_be_len(1, enc(1, v as int)); } }
//@end
}

impl KeySerializer for i16 {
    open spec fn bytes(&self) -> Seq<u8> { be(2, enc(2, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(2, enc(2, a as int), enc(2, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for i16::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_i16(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for i16::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<2>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_i16
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(2, enc(2, v as int));
        assert(key@.subrange(0, 2) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for i16 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for i16::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 2 by { lemma_be_len(2, enc(2, v as int)); } }
//@end
}

impl KeySerializer for i32 {
    open spec fn bytes(&self) -> Seq<u8> { be(4, enc(4, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(4, enc(4, a as int), enc(4, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for i32::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_i32(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for i32::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<4>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_i32
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(4, enc(4, v as int));
        assert(key@.subrange(0, 4) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for i32 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for i32::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 4 by { lemma_be_len(4, enc(4, v as int)); } }
//@end
}

impl KeySerializer for i64 {
    open spec fn bytes(&self) -> Seq<u8> { be(8, enc(8, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(8, enc(8, a as int), enc(8, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for i64::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_i64(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for i64::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<8>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_i64
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(8, enc(8, v as int));
        assert(key@.subrange(0, 8) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for i64 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for i64::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 8 by { lemma_be_len(8, enc(8, v as int)); } }
//@end
}

impl KeySerializer for i128 {
    open spec fn bytes(&self) -> Seq<u8> { be(16, enc(16, *self as int)) }
    proof fn injective(a: Self, b: Self) { lemma_pow256(); lemma_be(16, enc(16, a as int), enc(16, b as int)); }
//@fn src=core/src/serializer.rs item="KeySerializer for i128::create_key"
//@rewrite self\.to_be_bytes\(\) => to_be_i128(*self)
//@end
//@fn src=core/src/serializer.rs item="KeySerializer for i128::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(.*)\]\.try_into\(\)\? => to_array::<16>(upto(key, $1))?
//@rewrite Self::from_be_bytes => from_be_i128
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(16, enc(16, v as int));
        assert(key@.subrange(0, 16) =~= key@);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert(result.bytes() == key@); }
//@end
}
impl FixedSizeKeySerializer for i128 {
//@fn src=core/src/serializer.rs item="FixedSizeKeySerializer for i128::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 16 by { lemma_be_len(16, enc(16, v as int)); } }
//@end
}

//@item src=core/src/types.rs item="struct Edge"
impl KeySerializer for Edge {
    open spec fn bytes(&self) -> Seq<u8> { self.source.bytes() + self.target.bytes() }
    proof fn injective(a: Self, b: Self) {
        lemma_be_len(8, a.source as nat); lemma_be_len(8, b.source as nat); lemma_be_len(8, a.target as nat); lemma_be_len(8, b.target as nat);
        assert(a.bytes().subrange(0, 8) =~= a.source.bytes()); assert(b.bytes().subrange(0, 8) =~= b.source.bytes());
        assert(a.bytes().subrange(8, 16) =~= a.target.bytes()); assert(b.bytes().subrange(8, 16) =~= b.target.bytes());
        u64::injective(a.source, b.source); u64::injective(a.target, b.target);
    }
//@fn src=core/src/types.rs item="KeySerializer for Edge::create_key"
//@rewrite (self\.\w+)\.to_be_bytes\(\) => to_be_u64($1)
//@at fn_end
    proof { assert(result@ =~= self.source.bytes() + self.target.bytes()); }
//@end
//@fn src=core/src/types.rs item="KeySerializer for Edge::parse_key"
//@rewrite Box<dyn Error \+ Send \+ Sync> => KeyError
//@rewrite key\[\.\.(\w+)\]\.try_into\(\)\? => to_array::<8>(upto(key, $1))?
//@rewrite key\[(\w+)\.\.\]\.try_into\(\)\? => to_array::<8>(since(key, $1))?
//@rewrite NodeID::from_be_bytes => from_be_u64
//@at fn_start
    proof {
        let v = choose|v: Self| #[trigger] v.bytes() == key@;
        lemma_be_len(8, v.source as nat); lemma_be_len(8, v.target as nat);
        assert(key@.subrange(0, 8) =~= v.source.bytes());
        assert(key@.subrange(8, 16) =~= v.target.bytes());
        assert(key@.len() == 16);
        assert forall|v: Self, w: Self| #![trigger v.bytes(), w.bytes()] v.bytes() == w.bytes() implies v == w by { Self::injective(v, w); }
    }
//@at fn_end
    proof { assert((Edge { source, target }).bytes() =~= key@.subrange(0, 8) + key@.subrange(8, 16)); assert(key@.subrange(0, 8) + key@.subrange(8, 16) =~= key@); }
//@end
}
impl FixedSizeKeySerializer for Edge {
//@fn src=core/src/types.rs item="FixedSizeKeySerializer for Edge::key_size"
//@at fn_start
    proof { assert forall|v: Self| #[trigger] v.bytes().len() == 16 by { lemma_be_len(8, v.source as nat); lemma_be_len(8, v.target as nat); } }
//@end
}
/// the order of the keys is the order of edges: first the source, then the target
pub proof fn lemma_order_edge(a: Edge, b: Edge)
    ensures blt(a.bytes(), b.bytes()) <==> a.source < b.source || (a.source == b.source && a.target < b.target),
{
    lemma_be_len(8, a.source as nat); lemma_be_len(8, b.source as nat);
    lemma_order_u64(a.source, b.source); lemma_order_u64(a.target, b.target); u64::injective(a.source, b.source);
    lemma_blt_concat(a.source.bytes(), b.source.bytes(), a.target.bytes(), b.target.bytes());
}
}
