//! Exact rationals on i128 with checked arithmetic (None on overflow).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d);
        let g = if d < 0 { -g } else { g };
        if g == 0 {
            return Some(Rat::ZERO);
        }
        Some(Rat { n: n / g, d: d / g })
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_add(o.n)?, d: 1 });
        }
        let g = gcd(self.d, o.d);
        let l = self.d.checked_mul(o.d / g)?;
        let a = self.n.checked_mul(l / self.d)?;
        let b = o.n.checked_mul(l / o.d)?;
        Rat::new(a.checked_add(b)?, l)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        let n = (self.n / g1).checked_mul(o.n / g2)?;
        let d = (self.d / g2).checked_mul(o.d / g1)?;
        Rat::new(n, d)
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        self.mul(o.inv()?)
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn signum(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn cmp0(self, o: Rat) -> Option<std::cmp::Ordering> {
        Some(self.sub(o)?.n.cmp(&0))
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// Decimal literal, with optional exponent.
    pub fn parse(s: &str) -> Option<Rat> {
        let s: String = s.chars().filter(|c| *c != '_').collect();
        let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
            Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i32>().ok()?),
            None => (s.clone(), 0),
        };
        let (ip, fp) = match m.find('.') {
            Some(i) => (m[..i].to_string(), m[i + 1..].to_string()),
            None => (m, String::new()),
        };
        let digits = format!("{}{}", ip, fp);
        let n: i128 = if digits.is_empty() { 0 } else { digits.parse().ok()? };
        let exp = e - fp.len() as i32;
        if exp >= 0 {
            Rat::new(n.checked_mul(10i128.checked_pow(exp as u32)?)?, 1)
        } else {
            Rat::new(n, 10i128.checked_pow((-exp) as u32)?)
        }
    }
    pub fn smt(self) -> String {
        let a = |n: i128| format!("{}.0", n);
        let body = if self.d == 1 {
            a(self.n.abs())
        } else {
            format!("(/ {} {})", a(self.n.abs()), a(self.d))
        };
        if self.n < 0 {
            format!("(- {})", body)
        } else {
            body
        }
    }
}
