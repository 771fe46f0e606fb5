//! The points an integration must evaluate, with their weights: the reference model of one call.
use crate::plan::*;
use simrt::rng::mix;

/// Points closer than rounding can tell apart form one cluster.
#[derive(Clone, Debug)]
pub struct Table {
    pub lo: Vec<f64>,
    pub hi: Vec<f64>,
    /// total signed weight of the cluster, the scale of the interval included
    pub w: Vec<f64>,
    pub wabs: Vec<f64>,
    pub mult: Vec<u32>,
    pub points: u64,
    tol_abs: f64,
    tol_rel: f64,
}

const EPS: f64 = f64::EPSILON;

impl Table {
    fn build(mut pts: Vec<(f64, f64)>, tol_abs: f64, tol_rel: f64) -> Table {
        pts.sort_by(|x, y| x.0.total_cmp(&y.0));
        let mut t = Table {
            lo: Vec::with_capacity(pts.len()),
            hi: Vec::with_capacity(pts.len()),
            w: Vec::with_capacity(pts.len()),
            wabs: Vec::with_capacity(pts.len()),
            mult: Vec::with_capacity(pts.len()),
            points: pts.len() as u64,
            tol_abs,
            tol_rel,
        };
        for (x, w) in pts {
            match t.hi.last().copied() {
                Some(h) if x - h <= 2.0 * (tol_abs + tol_rel * x.abs()) => {
                    let i = t.hi.len() - 1;
                    t.hi[i] = x;
                    t.w[i] += w;
                    t.wabs[i] += w.abs();
                    t.mult[i] += 1;
                }
                _ => {
                    t.lo.push(x);
                    t.hi.push(x);
                    t.w.push(w);
                    t.wabs.push(w.abs());
                    t.mult.push(1);
                }
            }
        }
        t
    }

    /// A Gauss rule: its stored pairs mapped to [a, b] (Laguerre and Hermite have no interval).
    pub fn gauss(kind: Kind, pairs: &[(f64, f64)], a: f64, b: f64) -> Table {
        if kind.infinite() {
            return Table::build(pairs.to_vec(), 0.0, 4.0 * EPS);
        }
        let s = 0.5 * (b - a);
        let pts = pairs.iter().map(|&(x, w)| (0.5 * ((b - a) * x + (b + a)), s * w)).collect();
        Table::build(pts, 32.0 * EPS * (a.abs() + b.abs()), 0.0)
    }

    /// A composite Newton-Cotes rule of n cells by its documented formula.
    pub fn nc(kind: Kind, n: u64, a: f64, b: f64) -> Table {
        let nf = n as f64;
        let h = (b - a) / nf;
        let at = |t: f64| a + h * t;
        let mut p = Vec::with_capacity(2 * n as usize + 1);
        match kind {
            Kind::Mid => p.extend((0..n).map(|i| (at(i as f64 + 0.5), h))),
            Kind::Trap => {
                p.push((a, h / 2.0));
                p.push((b, h / 2.0));
                p.extend((1..n).map(|i| (at(i as f64), h)));
            }
            Kind::Simp => {
                p.push((a, h / 6.0));
                p.push((b, h / 6.0));
                p.extend((1..n).map(|i| (at(i as f64), h / 3.0)));
                p.extend((0..n).map(|i| (at(i as f64 + 0.5), 2.0 * h / 3.0)));
            }
            _ => unreachable!(),
        }
        Table::build(p, 32.0 * EPS * (a.abs() + b.abs()), 0.0)
    }

    pub fn len(&self) -> usize {
        self.w.len()
    }
    pub fn is_empty(&self) -> bool {
        self.w.is_empty()
    }
    /// The cluster a point belongs to.
    #[inline]
    pub fn find(&self, x: f64) -> Option<usize> {
        if x.is_nan() {
            return None;
        }
        let tol = self.tol_abs + self.tol_rel * x.abs();
        let i = self.lo.partition_point(|&l| l <= x + tol);
        if i == 0 {
            return None;
        }
        (x <= self.hi[i - 1] + tol).then_some(i - 1)
    }

    pub fn values(&self, mode: Values, seed: u64) -> Vec<f64> {
        let u = |c: usize| (mix(seed ^ (c as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)) >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
        (0..self.len())
            .map(|c| match mode {
                Values::Inverse => {
                    let w = self.w[c];
                    let s = if mix(seed.wrapping_add(c as u64)) & 1 == 0 { 1.0 } else { -1.0 };
                    if w.abs() > 1e-200 && w.abs() < 1e200 {
                        s / w
                    } else {
                        u(c)
                    }
                }
                Values::Uniform => u(c),
                Values::One => 1.0,
                Values::Scaled(k) => u(c) * 2f64.powi(k),
                Values::Wild => match mix(seed ^ (c as u64) << 17) % 9 {
                    0 => 0.0,
                    1 => f64::NAN,
                    2 => f64::INFINITY,
                    3 => f64::NEG_INFINITY,
                    4 => 1e308 * u(c),
                    5 => 1e-310 * u(c),
                    6 => u(c) / 1e20,
                    _ => u(c),
                },
                Values::Single(k) => {
                    if (k % self.len() as u64) as usize == c {
                        1.0
                    } else {
                        0.0
                    }
                }
            })
            .collect()
    }

    /// (expected sum, bound on the rounding error any summation order can have)
    pub fn expect(&self, v: &[f64]) -> (f64, f64) {
        let (mut s, mut c, mut m) = (0.0f64, 0.0f64, 0.0f64);
        for i in 0..self.len() {
            let t = self.w[i] * v[i];
            m += self.wabs[i] * v[i].abs();
            let y = s + t;
            c += if s.abs() >= t.abs() { (s - y) + t } else { (t - y) + s };
            s = y;
        }
        (s + c, 2.0 * (self.points as f64 + 24.0) * EPS * m + 1e-290)
    }
}
