pub trait VToString { spec fn tsb(&self) -> Seq<u8>; fn vstring(&self) -> (r: String) ensures r@ == self.tsb(); }
impl VToString for String { open spec fn tsb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vstring(&self) -> (r: String) { unimplemented!() } }
impl VToString for str { open spec fn tsb(&self) -> Seq<u8> { lit(self@) } #[verifier::external_body] fn vstring(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn digits(n: int) -> Seq<u8>;
impl VToString for usize { open spec fn tsb(&self) -> Seq<u8> { digits(*self as int) } #[verifier::external_body] fn vstring(&self) -> (r: String) { unimplemented!() } }
