//! Offline stand-in for `rust-crypto`: the `Digest` trait and a real MD5, with the same
//! panics-on-reuse discipline (`result` finalizes; input after a result without `reset` panics).
pub mod digest {
  pub trait Digest {
    fn input(&mut self, input: &[u8]);
    fn result(&mut self, out: &mut [u8]);
    fn reset(&mut self);
    fn output_bits(&self) -> usize;
    fn block_size(&self) -> usize;
    fn output_bytes(&self) -> usize { self.output_bits().div_ceil(8) }
    fn input_str(&mut self, input: &str) { self.input(input.as_bytes()); }
    fn result_str(&mut self) -> String {
      let mut buf = vec![0u8; self.output_bytes()];
      self.result(&mut buf);
      buf.iter().map(|b| format!("{:02x}", b)).collect()
    }
  }
}

pub mod md5 {
  use super::digest::Digest;

  #[derive(Clone, Copy)]
  pub struct Md5 {
    state: [u32; 4],
    length: u64,
    buffer: [u8; 64],
    fill: usize,
    finished: bool,
  }
  impl Default for Md5 {
    fn default() -> Self { Md5::new() }
  }

  const S: [u32; 64] = [
    7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9,
    14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15,
    21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21,
  ];

  impl Md5 {
    pub fn new() -> Md5 {
      Md5 {
        state: [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476],
        length: 0,
        buffer: [0; 64],
        fill: 0,
        finished: false,
      }
    }
    fn block(&mut self) {
      let mut m = [0u32; 16];
      for (i, w) in m.iter_mut().enumerate() {
        *w = u32::from_le_bytes([
          self.buffer[4 * i],
          self.buffer[4 * i + 1],
          self.buffer[4 * i + 2],
          self.buffer[4 * i + 3],
        ]);
      }
      let [mut a, mut b, mut c, mut d] = self.state;
      for i in 0..64usize {
        let (f, g) = match i / 16 {
          0 => ((b & c) | (!b & d), i),
          1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
          2 => (b ^ c ^ d, (3 * i + 5) % 16),
          _ => (c ^ (b | !d), (7 * i) % 16),
        };
        let k = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
        let t = a.wrapping_add(f).wrapping_add(k).wrapping_add(m[g]);
        a = d;
        d = c;
        c = b;
        b = b.wrapping_add(t.rotate_left(S[i]));
      }
      self.state[0] = self.state[0].wrapping_add(a);
      self.state[1] = self.state[1].wrapping_add(b);
      self.state[2] = self.state[2].wrapping_add(c);
      self.state[3] = self.state[3].wrapping_add(d);
    }
    fn raw(&mut self, input: &[u8]) {
      for &byte in input {
        self.buffer[self.fill] = byte;
        self.fill += 1;
        if self.fill == 64 {
          self.block();
          self.fill = 0;
        }
      }
    }
  }

  impl Digest for Md5 {
    fn input(&mut self, input: &[u8]) {
      assert!(!self.finished);
      self.length = self.length.wrapping_add(input.len() as u64);
      self.raw(input);
    }
    fn result(&mut self, out: &mut [u8]) {
      if !self.finished {
        let bits = self.length.wrapping_mul(8);
        self.raw(&[0x80]);
        while self.fill != 56 {
          self.raw(&[0]);
        }
        self.raw(&bits.to_le_bytes());
        self.finished = true;
      }
      for (i, w) in self.state.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
      }
    }
    fn reset(&mut self) { *self = Md5::new(); }
    fn output_bits(&self) -> usize { 128 }
    fn block_size(&self) -> usize { 64 }
  }
}

pub mod sha2 {
  use super::digest::Digest;

  /// FIPS 180-4, with the constants taken from the primes' roots
  #[derive(Clone)]
  pub struct Sha256 {
    data: Vec<u8>,
    finished: bool,
  }
  impl Default for Sha256 {
    fn default() -> Self { Sha256::new() }
  }
  /// the first 32 bits of the fraction of the n-th root (2 or 3) of p
  fn fraction(p: u128, n: u32) -> u32 {
    // floor(root(p) * 2^32) by bisection
    let target = p << (32 * n);
    let (mut lo, mut hi) = (0u128, 1u128 << 38);
    while hi - lo > 1 {
      let mid = (lo + hi) / 2;
      if mid.pow(n) <= target { lo = mid } else { hi = mid }
    }
    lo as u32
  }
  fn primes() -> impl Iterator<Item = u128> { (2u128..).filter(|n| (2..*n).all(|d| n % d != 0)) }

  impl Sha256 {
    pub fn new() -> Sha256 { Sha256 { data: Vec::new(), finished: false } }
    fn sum(&self) -> [u32; 8] {
      let mut h: Vec<u32> = primes().take(8).map(|p| fraction(p, 2)).collect();
      let k: Vec<u32> = primes().take(64).map(|p| fraction(p, 3)).collect();
      let mut m = self.data.clone();
      m.push(0x80);
      while m.len() % 64 != 56 {
        m.push(0);
      }
      m.extend((self.data.len() as u64 * 8).to_be_bytes());
      for block in m.chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).collect();
        for t in 16..64 {
          let (x, y) = (w[t - 15], w[t - 2]);
          let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
          let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
          w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for t in 0..64 {
          let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
          let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
          let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
          let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
          let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
          v.rotate_right(1);
          v[4] = v[4].wrapping_add(t1);
          v[0] = t1.wrapping_add(s0.wrapping_add(maj));
        }
        for (a, b) in h.iter_mut().zip(v) {
          *a = a.wrapping_add(b);
        }
      }
      [h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]]
    }
  }
  impl Digest for Sha256 {
    fn input(&mut self, input: &[u8]) {
      assert!(!self.finished);
      self.data.extend_from_slice(input);
    }
    fn result(&mut self, out: &mut [u8]) {
      self.finished = true;
      for (i, w) in self.sum().iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&w.to_be_bytes());
      }
    }
    fn reset(&mut self) { *self = Sha256::new(); }
    fn output_bits(&self) -> usize { 256 }
    fn block_size(&self) -> usize { 64 }
  }
  #[test]
  fn abc() {
    let mut h = Sha256::new();
    h.input_str("abc");
    assert_eq!(h.result_str(), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  }
}
