//! Safe wrappers over the symbolic interface.
pub fn bits(n: u64) -> u64 {
    symrt::sym_bits(n)
}
pub fn uint(n: u64) -> u64 {
    symrt::sym_uint(n)
}
pub fn choice(n: usize) -> usize {
    symrt::sym_choice(n as u64) as usize
}
pub fn b32() -> [u8; 32] {
    let mut b = [0u8; 32];
    symrt::sym_b32(b.as_mut_ptr());
    b
}
pub fn fill(b: &mut [u8]) {
    symrt::sym_fill(b.as_mut_ptr(), b.len() as u64)
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        fill(&mut v);
    }
    v
}
pub fn assume(c: bool) {
    symrt::sym_assume(c as u64)
}
pub fn check(c: bool, tag: u64) {
    symrt::sym_assert(c as u64, tag)
}
pub fn reach(k: u64) {
    symrt::sym_reach(k)
}
pub fn obs(tag: u64, v: u64) {
    symrt::sym_observe(tag, v)
}
pub fn obs32(tag: u64, b: &[u8; 32]) {
    for i in 0..4 {
        obs(tag, u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap()))
    }
}
pub fn conc(v: u64) -> u64 {
    symrt::sym_concretize(v)
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && symrt::sym_eq(a.as_ptr(), b.as_ptr(), a.len() as u64) & 1 == 1
}
pub fn note(t: u64, v: u64) {
    symrt::sym_note(t, v)
}
pub fn expect_panic() {
    symrt::sym_expect_panic(1)
}
pub fn stop() -> ! {
    symrt::sym_stop();
    loop {}
}

/// The hash function of the checked trees: an ideal (injective, otherwise unconstrained) hash under
/// symx, SHA-256 natively.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SymHasher(Vec<u8>);
impl jmt::SimpleHasher for SymHasher {
    fn new() -> Self {
        SymHasher(Vec::with_capacity(96))
    }
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
    fn finalize(self) -> [u8; 32] {
        hash(&self.0)
    }
}
pub const KEY_LENS: [usize; 4] = [33, 70, 333, 4133];
/// Inputs of the form 'K' + 32 bytes, perhaps padded, stand for application keys and hash to those 32
/// bytes, so that a harness can place keys whose preimages it knows.
pub fn hash(d: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    if KEY_LENS.contains(&d.len()) && conc(d[0] as u64) == b'K' as u64 {
        o.copy_from_slice(&d[1..33]);
        return o;
    }
    symrt::sym_hash(d.as_ptr(), d.len() as u64, o.as_mut_ptr());
    o
}
