//! Unsigned 256 bit integers: just what the reference model needs.

use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct U256(pub [u64; 4]);

impl U256 {
    pub const ZERO: U256 = U256([0; 4]);

    pub fn from(v: u128) -> U256 {
        U256([v as u64, (v >> 64) as u64, 0, 0])
    }

    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }

    pub fn is_even(&self) -> bool {
        self.0[0] & 1 == 0
    }

    pub fn add(&self, o: &U256) -> U256 {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        assert!(c == 0, "U256 overflow");
        U256(r)
    }

    /// self - o, where o <= self
    pub fn sub(&self, o: &U256) -> U256 {
        let mut r = [0u64; 4];
        let mut b = 0i128;
        for i in 0..4 {
            b += self.0[i] as i128 - o.0[i] as i128;
            r[i] = b as u64;
            b >>= 64;
        }
        assert!(b == 0, "U256 underflow");
        U256(r)
    }

    pub fn mul(&self, o: &U256) -> U256 {
        let mut r = [0u64; 4];
        for i in 0..4 {
            if self.0[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..4 {
                if i + j >= 4 {
                    assert!(o.0[j] == 0 && c == 0, "U256 overflow");
                    continue;
                }
                c += self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            assert!(c == 0, "U256 overflow");
        }
        U256(r)
    }

    pub fn dbl(&self) -> U256 {
        assert!(self.0[3] >> 63 == 0, "U256 overflow");
        let mut r = [0u64; 4];
        let mut c = 0;
        for i in 0..4 {
            r[i] = self.0[i] << 1 | c;
            c = self.0[i] >> 63;
        }
        U256(r)
    }

    pub fn half(&self) -> U256 {
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = self.0[i] >> 1 | if i < 3 { self.0[i + 1] << 63 } else { 0 };
        }
        U256(r)
    }

    pub fn cmp(&self, o: &U256) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }

    pub fn trailing_zeros(&self) -> u32 {
        for i in 0..4 {
            if self.0[i] != 0 {
                return 64 * i as u32 + self.0[i].trailing_zeros();
            }
        }
        256
    }

    pub fn shr(&self, k: u32) -> U256 {
        let (w, b) = ((k / 64) as usize, k % 64);
        let mut r = [0u64; 4];
        for i in 0..4 {
            if i + w < 4 {
                r[i] = self.0[i + w] >> b;
                if b > 0 && i + w + 1 < 4 {
                    r[i] |= self.0[i + w + 1] << (64 - b);
                }
            }
        }
        U256(r)
    }

    fn wrapping_mul(&self, o: &U256) -> U256 {
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 - i {
                c += self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
        }
        U256(r)
    }

    fn wrapping_sub(&self, o: &U256) -> U256 {
        let mut r = [0u64; 4];
        let mut b = 0i128;
        for i in 0..4 {
            b += self.0[i] as i128 - o.0[i] as i128;
            r[i] = b as u64;
            b >>= 64;
        }
        U256(r)
    }

    pub fn gcd(&self, o: &U256) -> U256 {
        if self.is_zero() {
            return *o;
        }
        if o.is_zero() {
            return *self;
        }
        let k = std::cmp::min(self.trailing_zeros(), o.trailing_zeros());
        let mut a = self.shr(self.trailing_zeros());
        let mut b = o.shr(o.trailing_zeros());
        while a != b {
            if a.cmp(&b) == Ordering::Less {
                std::mem::swap(&mut a, &mut b);
            }
            a = a.sub(&b);
            a = a.shr(a.trailing_zeros());
        }
        for _ in 0..k {
            a = a.dbl();
        }
        a
    }

    /// self / o, where o divides self exactly
    pub fn div_exact(&self, o: &U256) -> U256 {
        let k = o.trailing_zeros();
        let (n, d) = (self.shr(k), o.shr(k));
        // inverse of the odd d modulo 2^256, by Newton's iteration
        let mut inv = U256::from(1);
        for _ in 0..8 {
            let t = U256::from(2).wrapping_sub(&d.wrapping_mul(&inv));
            inv = inv.wrapping_mul(&t);
        }
        n.wrapping_mul(&inv)
    }

    pub fn small(&self) -> Option<u64> {
        if self.0[1] == 0 && self.0[2] == 0 && self.0[3] == 0 && self.0[0] >> 62 == 0 {
            Some(self.0[0])
        } else {
            None
        }
    }
}

/// Signed 256 bit integer (sign and magnitude).
#[derive(Clone, Copy, Debug)]
pub struct I256 {
    pub neg: bool,
    pub mag: U256,
}

impl I256 {
    pub const ZERO: I256 = I256 { neg: false, mag: U256::ZERO };

    pub fn from(v: i128) -> I256 {
        I256 { neg: v < 0, mag: U256::from(v.unsigned_abs()) }
    }

    pub fn mul(&self, o: &I256) -> I256 {
        I256 { neg: self.neg != o.neg, mag: self.mag.mul(&o.mag) }
    }

    pub fn add(&self, o: &I256) -> I256 {
        if self.neg == o.neg {
            return I256 { neg: self.neg, mag: self.mag.add(&o.mag) };
        }
        match self.mag.cmp(&o.mag) {
            Ordering::Less => I256 { neg: o.neg, mag: o.mag.sub(&self.mag) },
            _ => I256 { neg: self.neg, mag: self.mag.sub(&o.mag) },
        }
    }

    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }

    pub fn cmp(&self, o: &I256) -> Ordering {
        let sa = self.sign();
        let sb = o.sign();
        if sa != sb {
            return sa.cmp(&sb);
        }
        let m = self.mag.cmp(&o.mag);
        if sa < 0 {
            m.reverse()
        } else {
            m
        }
    }

    pub fn sign(&self) -> i32 {
        if self.mag.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
}
