//! One type over the nine rules. Every call of the library under test goes through this crate.
use gauss_quad::*;
use model::table::Table;
use model::{Ctor, Kind, RuleSpec};
use std::num::{NonZeroU32, NonZeroUsize};

#[derive(Debug, Clone, PartialEq)]
pub enum AnyRule {
    Leg(GaussLegendre),
    Jac(GaussJacobi),
    Lag(GaussLaguerre),
    Her(GaussHermite),
    Ch1(GaussChebyshevFirstKind),
    Ch2(GaussChebyshevSecondKind),
    Mid(Midpoint),
    Trap(Trapezoid),
    Simp(Simpson),
}

/// Runs an expression with the concrete rule.
#[macro_export]
macro_rules! each {
    ($s:expr, $r:ident => $e:expr) => {
        match $s {
            $crate::rules::AnyRule::Leg($r) => $e,
            $crate::rules::AnyRule::Jac($r) => $e,
            $crate::rules::AnyRule::Lag($r) => $e,
            $crate::rules::AnyRule::Her($r) => $e,
            $crate::rules::AnyRule::Ch1($r) => $e,
            $crate::rules::AnyRule::Ch2($r) => $e,
            $crate::rules::AnyRule::Mid($r) => $e,
            $crate::rules::AnyRule::Trap($r) => $e,
            $crate::rules::AnyRule::Simp($r) => $e,
        }
    };
}
/// Gauss rules in one arm, Newton-Cotes rules in the other.
#[macro_export]
macro_rules! each_gn {
    ($s:expr, $r:ident => $e:expr, $q:ident => $f:expr) => {
        match $s {
            $crate::rules::AnyRule::Leg($r) => $e,
            $crate::rules::AnyRule::Jac($r) => $e,
            $crate::rules::AnyRule::Lag($r) => $e,
            $crate::rules::AnyRule::Her($r) => $e,
            $crate::rules::AnyRule::Ch1($r) => $e,
            $crate::rules::AnyRule::Ch2($r) => $e,
            $crate::rules::AnyRule::Mid($q) => $f,
            $crate::rules::AnyRule::Trap($q) => $f,
            $crate::rules::AnyRule::Simp($q) => $f,
        }
    };
}

pub fn param(x: f64) -> FiniteAboveNegOneF64 {
    FiniteAboveNegOneF64::new(x).expect("valid parameter")
}
fn us(d: u64) -> NonZeroUsize {
    NonZeroUsize::new(d as usize).expect("degree")
}
pub fn u3(d: u64) -> NonZeroU32 {
    NonZeroU32::new(d as u32).expect("degree")
}

impl AnyRule {
    pub fn build(s: &RuleSpec) -> AnyRule {
        let d = s.deg;
        match s.kind {
            Kind::Leg => AnyRule::Leg(if s.ctor == Ctor::ParNew { par_leg(us(d)) } else { GaussLegendre::new(us(d)) }),
            Kind::Ch1 => {
                AnyRule::Ch1(if s.ctor == Ctor::ParNew { par_ch1(us(d)) } else { GaussChebyshevFirstKind::new(us(d)) })
            }
            Kind::Ch2 => {
                AnyRule::Ch2(if s.ctor == Ctor::ParNew { par_ch2(us(d)) } else { GaussChebyshevSecondKind::new(us(d)) })
            }
            Kind::Lag => AnyRule::Lag(GaussLaguerre::new(us(d), param(s.alpha))),
            Kind::Her => AnyRule::Her(GaussHermite::new(us(d))),
            Kind::Jac => AnyRule::Jac(match s.ctor {
                // alpha selects which conversion is meant
                Ctor::From if s.alpha == -0.5 => GaussChebyshevFirstKind::new(us(d)).into(),
                Ctor::From if s.alpha == 0.5 => GaussChebyshevSecondKind::new(us(d)).into(),
                Ctor::From => GaussLegendre::new(us(d)).into(),
                _ => GaussJacobi::new(us(d), param(s.alpha), param(s.beta)),
            }),
            Kind::Mid => AnyRule::Mid(match s.ctor {
                Ctor::From => u3(d).into(),
                Ctor::Changed(f) => {
                    let mut r = Midpoint::new(u3(f as u64));
                    r.change_degree(u3(d));
                    r
                }
                _ => Midpoint::new(u3(d)),
            }),
            Kind::Trap => AnyRule::Trap(match s.ctor {
                Ctor::From => u3(d).into(),
                Ctor::Changed(f) => {
                    let mut r = Trapezoid::new(u3(f as u64));
                    r.change_degree(u3(d));
                    r
                }
                _ => Trapezoid::new(u3(d)),
            }),
            Kind::Simp => AnyRule::Simp(match s.ctor {
                Ctor::From => u3(d).into(),
                Ctor::Changed(f) => {
                    let mut r = Simpson::new(u3(f as u64));
                    r.change_degree(u3(d));
                    r
                }
                _ => Simpson::new(u3(d)),
            }),
        }
    }

    pub fn kind(&self) -> Kind {
        match self {
            AnyRule::Leg(_) => Kind::Leg,
            AnyRule::Jac(_) => Kind::Jac,
            AnyRule::Lag(_) => Kind::Lag,
            AnyRule::Her(_) => Kind::Her,
            AnyRule::Ch1(_) => Kind::Ch1,
            AnyRule::Ch2(_) => Kind::Ch2,
            AnyRule::Mid(_) => Kind::Mid,
            AnyRule::Trap(_) => Kind::Trap,
            AnyRule::Simp(_) => Kind::Simp,
        }
    }

    pub fn degree(&self) -> u64 {
        each_gn!(self, r => r.degree() as u64, q => q.degree().get() as u64)
    }
    pub fn pairs(&self) -> &[(f64, f64)] {
        each_gn!(self, r => r.as_node_weight_pairs(), _q => &[])
    }
    pub fn params(&self) -> (f64, f64) {
        match self {
            AnyRule::Jac(r) => (r.alpha().get(), r.beta().get()),
            AnyRule::Lag(r) => (r.alpha().get(), 0.0),
            _ => (0.0, 0.0),
        }
    }
    /// Everything the rule stores, bit by bit.
    pub fn bits(&self) -> Vec<u64> {
        let (a, b) = self.params();
        let mut v = vec![self.kind() as u64, self.degree(), a.to_bits(), b.to_bits()];
        for p in self.pairs() {
            v.push(p.0.to_bits());
            v.push(p.1.to_bits());
        }
        v
    }
    pub fn change_degree(&mut self, d: u32) {
        match self {
            AnyRule::Mid(r) => r.change_degree(u3(d as u64)),
            AnyRule::Trap(r) => r.change_degree(u3(d as u64)),
            AnyRule::Simp(r) => r.change_degree(u3(d as u64)),
            _ => {}
        }
    }
    pub fn to_jacobi(self) -> AnyRule {
        match self {
            AnyRule::Leg(r) => AnyRule::Jac(r.into()),
            AnyRule::Ch1(r) => AnyRule::Jac(r.into()),
            AnyRule::Ch2(r) => AnyRule::Jac(r.into()),
            r => r,
        }
    }

    /// The points a call over [a, b] must evaluate.
    pub fn table(&self, a: f64, b: f64) -> Table {
        if self.kind().is_nc() {
            Table::nc(self.kind(), self.degree(), a, b)
        } else {
            Table::gauss(self.kind(), self.pairs(), a, b)
        }
    }

    pub fn integrate<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            AnyRule::Leg(r) => r.integrate(a, b, f),
            AnyRule::Jac(r) => r.integrate(a, b, f),
            AnyRule::Lag(r) => r.integrate(f),
            AnyRule::Her(r) => r.integrate(f),
            AnyRule::Ch1(r) => r.integrate(a, b, f),
            AnyRule::Ch2(r) => r.integrate(a, b, f),
            AnyRule::Mid(r) => r.integrate(a, b, f),
            AnyRule::Trap(r) => r.integrate(a, b, f),
            AnyRule::Simp(r) => r.integrate(a, b, f),
        }
    }

    #[cfg(feature = "full")]
    pub fn par_integrate<F: Fn(f64) -> f64 + Sync>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            AnyRule::Leg(r) => r.par_integrate(a, b, f),
            AnyRule::Jac(r) => r.par_integrate(a, b, f),
            AnyRule::Lag(r) => r.par_integrate(f),
            AnyRule::Her(r) => r.par_integrate(f),
            AnyRule::Ch1(r) => r.par_integrate(a, b, f),
            AnyRule::Ch2(r) => r.par_integrate(a, b, f),
            AnyRule::Mid(r) => r.par_integrate(a, b, f),
            AnyRule::Trap(r) => r.par_integrate(a, b, f),
            AnyRule::Simp(r) => r.par_integrate(a, b, f),
        }
    }
    #[cfg(not(feature = "full"))]
    pub fn par_integrate<F: Fn(f64) -> f64 + Sync>(&self, a: f64, b: f64, f: F) -> f64 {
        self.integrate(a, b, f)
    }
}

#[cfg(feature = "full")]
fn par_leg(d: NonZeroUsize) -> GaussLegendre {
    GaussLegendre::par_new(d)
}
#[cfg(feature = "full")]
fn par_ch1(d: NonZeroUsize) -> GaussChebyshevFirstKind {
    GaussChebyshevFirstKind::par_new(d)
}
#[cfg(feature = "full")]
fn par_ch2(d: NonZeroUsize) -> GaussChebyshevSecondKind {
    GaussChebyshevSecondKind::par_new(d)
}
#[cfg(not(feature = "full"))]
fn par_leg(d: NonZeroUsize) -> GaussLegendre {
    GaussLegendre::new(d)
}
#[cfg(not(feature = "full"))]
fn par_ch1(d: NonZeroUsize) -> GaussChebyshevFirstKind {
    GaussChebyshevFirstKind::new(d)
}
#[cfg(not(feature = "full"))]
fn par_ch2(d: NonZeroUsize) -> GaussChebyshevSecondKind {
    GaussChebyshevSecondKind::new(d)
}
