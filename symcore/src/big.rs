//! Small arbitrary-precision integers and rationals (no bignum crate is available offline).
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Int {
    S(i64),
    /// sign (true = negative), magnitude little endian base 2^32, always outside the i64 range
    B(bool, Vec<u32>),
}
use Int::*;

fn mag_trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn mag_cmp(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn mag_add(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn mag_sub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u32);
    }
    mag_trim(&mut r);
    r
}
fn mag_mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    mag_trim(&mut r);
    r
}
fn mag_shl(a: &[u32], s: u32) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u32;
    for &x in a {
        if s == 0 {
            r.push(x)
        } else {
            r.push((x << s) | c);
            c = x >> (32 - s);
        }
    }
    r.push(c);
    r
}
fn mag_divrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if mag_cmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0; a.len()];
        let mut rem = 0u64;
        for i in (0..a.len()).rev() {
            let cur = (rem << 32) | a[i] as u64;
            q[i] = (cur / d) as u32;
            rem = cur % d;
        }
        mag_trim(&mut q);
        let mut r = vec![rem as u32];
        mag_trim(&mut r);
        return (q, r);
    }
    // Knuth D
    let s = b[b.len() - 1].leading_zeros();
    let mut v = mag_shl(b, s);
    mag_trim(&mut v);
    let mut u = mag_shl(a, s);
    let n = v.len();
    while u.len() < a.len() + 1 {
        u.push(0);
    }
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    let base = 1u64 << 32;
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= base || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= base {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let s2 = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = s2 as u32;
                c = s2 >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    mag_trim(&mut q);
    // remainder = u >> s
    let mut r = vec![0u32; n];
    for i in 0..n {
        r[i] = if s == 0 {
            u[i]
        } else {
            (u[i] >> s) | (((u[i + 1] as u64) << (32 - s)) as u32)
        };
    }
    mag_trim(&mut r);
    (q, r)
}

impl Int {
    fn parts(&self) -> (bool, Vec<u32>) {
        match self {
            S(x) => {
                let m = x.unsigned_abs();
                let mut v = vec![m as u32, (m >> 32) as u32];
                mag_trim(&mut v);
                (*x < 0, v)
            }
            B(s, v) => (*s, v.clone()),
        }
    }
    fn from_parts(neg: bool, mut v: Vec<u32>) -> Int {
        mag_trim(&mut v);
        if v.len() <= 2 {
            let m = *v.first().unwrap_or(&0) as u64 | ((*v.get(1).unwrap_or(&0) as u64) << 32);
            if m <= i64::MAX as u64 {
                return S(if neg { -(m as i64) } else { m as i64 });
            }
        }
        B(neg, v)
    }
    pub fn from_i128(x: i128) -> Int {
        if let Ok(v) = i64::try_from(x) {
            if v != i64::MIN {
                return S(v);
            }
        }
        let m = x.unsigned_abs();
        Int::from_parts(
            x < 0,
            vec![m as u32, (m >> 32) as u32, (m >> 64) as u32, (m >> 96) as u32],
        )
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }
    pub fn sign(&self) -> i32 {
        match self {
            S(x) => x.signum() as i32,
            B(n, _) => {
                if *n {
                    -1
                } else {
                    1
                }
            }
        }
    }
    pub fn neg(&self) -> Int {
        match self {
            S(x) if *x != i64::MIN => S(-x),
            _ => {
                let (s, v) = self.parts();
                Int::from_parts(!s, v)
            }
        }
    }
    pub fn abs(&self) -> Int {
        if self.sign() < 0 { self.neg() } else { self.clone() }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            return Int::from_i128(*a as i128 + *b as i128);
        }
        let (sa, a) = self.parts();
        let (sb, b) = o.parts();
        if sa == sb {
            Int::from_parts(sa, mag_add(&a, &b))
        } else {
            match mag_cmp(&a, &b) {
                Ordering::Equal => S(0),
                Ordering::Greater => Int::from_parts(sa, mag_sub(&a, &b)),
                Ordering::Less => Int::from_parts(sb, mag_sub(&b, &a)),
            }
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            return Int::from_i128(*a as i128 * *b as i128);
        }
        let (sa, a) = self.parts();
        let (sb, b) = o.parts();
        Int::from_parts(sa != sb, mag_mul(&a, &b))
    }
    /// truncating division
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        if let (S(a), S(b)) = (self, o) {
            if *b != 0 && !(*a == i64::MIN) {
                return (S(a / b), S(a % b));
            }
        }
        let (sa, a) = self.parts();
        let (sb, b) = o.parts();
        let (q, r) = mag_divrem(&a, &b);
        (Int::from_parts(sa != sb, q), Int::from_parts(sa, r))
    }
    pub fn gcd(&self, o: &Int) -> Int {
        let mut a = self.abs();
        let mut b = o.abs();
        loop {
            if let (S(x), S(y)) = (&a, &b) {
                let (mut x, mut y) = (*x as u64, *y as u64);
                while y != 0 {
                    let t = x % y;
                    x = y;
                    y = t;
                }
                return Int::from_i128(x as i128);
            }
            if b.is_zero() {
                return a;
            }
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn pow2(k: u32) -> Int {
        let mut v = vec![0u32; (k / 32 + 1) as usize];
        v[(k / 32) as usize] = 1 << (k % 32);
        Int::from_parts(false, v)
    }
    pub fn bits(&self) -> u32 {
        let (_, v) = self.parts();
        match v.last() {
            None => 0,
            Some(t) => (v.len() as u32 - 1) * 32 + 32 - t.leading_zeros(),
        }
    }
    pub fn parse(s: &str) -> Option<Int> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let mut r = S(0);
        for c in d.chars() {
            r = r.mul(&S(10)).add(&S(c.to_digit(10)? as i64));
        }
        Some(if neg { r.neg() } else { r })
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            S(x) => Some(*x),
            _ => None,
        }
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            S(x) => write!(f, "{x}"),
            B(n, v) => {
                let mut m = v.clone();
                let mut chunks = vec![];
                while !m.is_empty() {
                    let (q, r) = mag_divrem(&m, &[1_000_000_000]);
                    chunks.push(*r.first().unwrap_or(&0));
                    m = q;
                }
                let mut s = String::new();
                if *n {
                    s.push('-');
                }
                s += &format!("{}", chunks.pop().unwrap_or(0));
                for c in chunks.iter().rev() {
                    s += &format!("{c:09}");
                }
                write!(f, "{s}")
            }
        }
    }
}

/// Rational in lowest terms, den > 0
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: Int,
    pub d: Int,
}
impl Rat {
    pub fn int(x: i64) -> Rat {
        Rat { n: Int::from_i128(x as i128), d: S(1) }
    }
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn one() -> Rat {
        Rat::int(1)
    }
    pub fn new(n: Int, d: Int) -> Rat {
        assert!(!d.is_zero());
        let (n, d) = if d.sign() < 0 { (n.neg(), d.neg()) } else { (n, d) };
        if d == S(1) {
            return Rat { n, d };
        }
        let g = n.gcd(&d);
        if g == S(1) {
            Rat { n, d }
        } else {
            Rat { n: n.divrem(&g).0, d: d.divrem(&g).0 }
        }
    }
    pub fn frac(n: i64, d: i64) -> Rat {
        Rat::new(S(n), S(d))
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n == S(1) && self.d == S(1)
    }
    pub fn is_int(&self) -> bool {
        self.d == S(1)
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d.clone() }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.d == S(1) && o.d == S(1) {
            return Rat { n: self.n.add(&o.n), d: S(1) };
        }
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn div(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.d), self.d.mul(&o.n))
    }
    pub fn inv(&self) -> Rat {
        Rat::new(self.d.clone(), self.n.clone())
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn floor(&self) -> Int {
        let (q, r) = self.n.divrem(&self.d);
        if r.sign() < 0 { q.sub(&S(1)) } else { q }
    }
    pub fn trunc(&self) -> Int {
        self.n.divrem(&self.d).0
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::zero());
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let mi = Int::from_i128(if x < 0.0 { -(m as i128) } else { m as i128 });
        Some(if e >= 0 {
            Rat::new(mi.mul(&Int::pow2(e as u32)), S(1))
        } else {
            Rat::new(mi, Int::pow2((-e) as u32))
        })
    }
    /// Nearest f64 (round half to even up to the 64-bit quotient used; exact for dyadics that fit)
    pub fn to_f64(&self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let neg = self.sign() < 0;
        let n = self.n.abs();
        let d = self.d.clone();
        let shift = 66 - (n.bits() as i64 - d.bits() as i64);
        let (n2, d2) = if shift >= 0 {
            (n.mul(&Int::pow2(shift as u32)), d)
        } else {
            (n, d.mul(&Int::pow2((-shift) as u32)))
        };
        let (q, r) = n2.divrem(&d2);
        let (_, v) = q.parts();
        let mut m: u128 = 0;
        for (i, x) in v.iter().enumerate() {
            m |= (*x as u128) << (32 * i);
        }
        if !r.is_zero() {
            m |= 1; // sticky
        }
        // m has 66 or 67 bits; u128 -> f64 rounds to nearest even
        let f = m as f64;
        let mut s = -shift;
        let mut f = if neg { -f } else { f };
        while s > 500 {
            f *= 2f64.powi(500);
            s -= 500;
        }
        while s < -500 {
            f *= 2f64.powi(-500);
            s += 500;
        }
        f * 2f64.powi(s as i32)
    }
    pub fn smt(&self) -> String {
        let a = self.n.abs();
        let s = if self.d == S(1) { format!("{a}.0") } else { format!("(/ {a}.0 {}.0)", self.d) };
        if self.sign() < 0 { format!("(- {s})") } else { s }
    }
}
impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == S(1) { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn bigs() {
        let a = Int::parse("123456789012345678901234567890123456789").unwrap();
        let b = Int::parse("-98765432109876543210987").unwrap();
        let (q, r) = a.divrem(&b);
        assert_eq!(q.mul(&b).add(&r), a);
        assert_eq!(format!("{}", a.mul(&b)), "-12193263113702179522496570642237463801111263526905349794863743");
        assert_eq!(Rat::from_f64(0.1).unwrap().to_f64(), 0.1);
        assert_eq!(Rat::frac(1, 3).to_f64(), 1.0 / 3.0);
        assert_eq!(Rat::frac(-7, 2).floor(), S(-4));
        let mut s = 12345u64;
        for _ in 0..20000 {
            let mut rnd = || {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                s
            };
            let mut x = S(1);
            for _ in 0..(rnd() % 5) { x = x.mul(&Int::from_i128(rnd() as i64 as i128)).add(&S(rnd() as i32 as i64)); }
            let mut y = S(1);
            for _ in 0..(rnd() % 4) { y = y.mul(&Int::from_i128((rnd() as i64 >> (rnd() % 60)) as i128)); }
            if y.is_zero() { continue; }
            let (q, r) = x.divrem(&y);
            assert_eq!(q.mul(&y).add(&r), x);
            assert!(r.abs().cmp(&y.abs()) == Ordering::Less);
        }
    }
}
impl fmt::Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}
