//! STUB of rust-crypto (not available offline): MD5 (RFC 1321) behind the same API.
pub mod digest {
  pub trait Digest {
    fn input(&mut self, input: &[u8]);
    fn reset(&mut self);
    fn result_str(&mut self) -> String;
    fn input_str(&mut self, s: &str) { self.input(s.as_bytes()); }
  }
}
pub mod md5 {
  use crate::digest::Digest;
  #[derive(Default, Clone)]
  pub struct Md5 { buf: Vec<u8> }
  impl Md5 { pub fn new() -> Md5 { Md5::default() } }
  impl Digest for Md5 {
    fn input(&mut self, input: &[u8]) { self.buf.extend_from_slice(input); }
    fn reset(&mut self) { self.buf.clear(); }
    fn result_str(&mut self) -> String { md5_hex(&self.buf) }
  }
  pub fn md5_hex(data: &[u8]) -> String {
    let s: [u32; 64] = [7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,
      4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21];
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    let mut m = data.to_vec();
    let bits = (data.len() as u64).wrapping_mul(8);
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&bits.to_le_bytes());
    for ch in m.chunks(64) {
      let w: Vec<u32> = ch.chunks(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
      let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
      for i in 0..64 {
        let (mut f, g) = match i / 16 {
          0 => ((b & c) | (!b & d), i),
          1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
          2 => (b ^ c ^ d, (3 * i + 5) % 16),
          _ => (c ^ (b | !d), (7 * i) % 16),
        };
        f = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(w[g]);
        a = d; d = c; c = b;
        b = b.wrapping_add(f.rotate_left(s[i]));
      }
      a0 = a0.wrapping_add(a); b0 = b0.wrapping_add(b); c0 = c0.wrapping_add(c); d0 = d0.wrapping_add(d);
    }
    [a0, b0, c0, d0].iter().flat_map(|x| x.to_le_bytes()).map(|b| format!("{b:02x}")).collect()
  }
  #[cfg(test)]
  mod tests {
    #[test]
    fn rfc1321() {
      assert_eq!(super::md5_hex(b""), "d41d8cd98f00b204e9800998ecf8427e");
      assert_eq!(super::md5_hex(b"message digest"), "f96b697d7cb7938d525a2f31aaf161d0");
    }
  }
}
