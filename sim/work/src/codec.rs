//! Every persistence route the crate offers, over the harness's streams.
use crate::each;
use crate::rules::AnyRule;
use crate::tape::{self, Ctl, De, Ser};
use gauss_quad::*;
use model::{Format, Kind};
use std::io::{Read, Write};
use std::marker::PhantomData;

/// What is stored: a rule, or one of its parameters alone.
#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Rule(AnyRule),
    Param(FiniteAboveNegOneF64),
}
impl Obj {
    pub fn bits(&self) -> Vec<u64> {
        match self {
            Obj::Rule(r) => r.bits(),
            Obj::Param(p) => vec![99, p.get().to_bits()],
        }
    }
    pub fn what(&self) -> What {
        match self {
            Obj::Rule(r) => What::Rule(r.kind()),
            Obj::Param(_) => What::Param,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Rule(Kind),
    Param,
}

#[derive(Debug)]
pub enum CErr {
    /// the crate offers no implementation of this route for this type
    NoImpl,
    Failed(String),
}
fn bad<E: std::fmt::Display>(e: E) -> CErr {
    CErr::Failed(e.to_string())
}

// A missing trait implementation must be a verdict, not a compile error of the harness: at a concrete type the
// first trait whose bounds hold is taken.
pub struct Tag<T>(PhantomData<T>);
fn tag<T>(_: &T) -> Tag<T> {
    Tag(PhantomData)
}

#[allow(dead_code)]
trait NoSerde<T> {
    fn ser(&self, _: &T, _: Format, _: &Ctl, _: &mut dyn Write) -> Result<(), CErr> {
        Err(CErr::NoImpl)
    }
    fn de(&self, _: Format, _: &Ctl, _: &mut dyn Read) -> Result<T, CErr> {
        Err(CErr::NoImpl)
    }
}
impl<T> NoSerde<T> for &Tag<T> {}
trait YesSerde<T> {
    fn ser(&self, v: &T, f: Format, c: &Ctl, w: &mut dyn Write) -> Result<(), CErr>;
    fn de(&self, f: Format, c: &Ctl, r: &mut dyn Read) -> Result<T, CErr>;
}
impl<T: serde::Serialize + serde::de::DeserializeOwned> YesSerde<T> for Tag<T> {
    fn ser(&self, v: &T, f: Format, c: &Ctl, mut w: &mut dyn Write) -> Result<(), CErr> {
        let alt = c.style >> 8 & 3;
        match f {
            Format::Json => match alt {
                1 => serde_json::to_writer_pretty(w, v).map_err(bad),
                2 => serde_json::to_writer(w, &serde_json::to_value(v).map_err(bad)?).map_err(bad),
                _ => serde_json::to_writer(w, v).map_err(bad),
            },
            Format::Bincode => {
                use bincode::Options;
                match alt {
                    1 => bincode::options().serialize_into(w, v).map_err(bad),
                    2 => bincode::options().with_big_endian().with_fixint_encoding().serialize_into(w, v).map_err(bad),
                    _ => bincode::serialize_into(w, v).map_err(bad),
                }
            }
            Format::Cbor => ciborium::into_writer(v, w).map_err(bad),
            Format::Ron => {
                let o = ron::Options::default();
                if alt == 1 {
                    o.to_io_writer_pretty(&mut w, v, ron::ser::PrettyConfig::default().struct_names(true)).map_err(bad)
                } else {
                    o.to_io_writer(&mut w, v).map_err(bad)
                }
            }
            Format::Tape => {
                let val = v.serialize(Ser(c)).map_err(bad)?;
                let mut b = vec![];
                tape::encode(&val, &mut b);
                w.write_all(&b).map_err(bad)
            }
            Format::Rkyv | Format::Zc => Err(CErr::NoImpl),
        }
    }
    fn de(&self, f: Format, c: &Ctl, r: &mut dyn Read) -> Result<T, CErr> {
        let alt = c.style >> 8 & 3;
        match f {
            Format::Json => {
                if alt == 3 {
                    let b = all(r)?;
                    serde_json::from_slice(&b).map_err(bad)
                } else if alt == 2 {
                    let v: serde_json::Value = serde_json::from_reader(r).map_err(bad)?;
                    serde_json::from_value(v).map_err(bad)
                } else {
                    serde_json::from_reader(r).map_err(bad)
                }
            }
            Format::Bincode => {
                use bincode::Options;
                match alt {
                    1 => bincode::options().deserialize_from(r).map_err(bad),
                    2 => bincode::options().with_big_endian().with_fixint_encoding().deserialize_from(r).map_err(bad),
                    _ => bincode::deserialize_from(r).map_err(bad),
                }
            }
            Format::Cbor => ciborium::from_reader(r).map_err(bad),
            Format::Ron => ron::de::from_reader(r).map_err(bad),
            Format::Tape => {
                let b = all(r)?;
                let val = tape::decode(&b).map_err(bad)?;
                T::deserialize(De { v: &val, c }).map_err(bad)
            }
            Format::Rkyv | Format::Zc => Err(CErr::NoImpl),
        }
    }
}

fn all(r: &mut dyn Read) -> Result<Vec<u8>, CErr> {
    let mut b = vec![];
    r.read_to_end(&mut b).map_err(bad)?;
    Ok(b)
}

/// Lets rkyv write straight to a stream.
pub struct Sink {
    w: *mut (dyn Write + 'static),
    at: usize,
}
impl rkyv::ser::Positional for Sink {
    fn pos(&self) -> usize {
        self.at
    }
}
impl rkyv::ser::Writer<rkyv::rancor::Error> for Sink {
    fn write(&mut self, b: &[u8]) -> Result<(), rkyv::rancor::Error> {
        // valid for the call to_bytes_in it was made for
        match unsafe { (*self.w).write_all(b) } {
            Ok(()) => {
                self.at += b.len();
                Ok(())
            }
            Err(e) => Err(<rkyv::rancor::Error as rkyv::rancor::Source>::new(e)),
        }
    }
}

#[allow(dead_code)]
trait NoRkyv<T> {
    fn rser(&self, _: &T, _: &mut dyn Write) -> Result<(), CErr> {
        Err(CErr::NoImpl)
    }
    fn rde(&self, _: &[u8]) -> Result<T, CErr> {
        Err(CErr::NoImpl)
    }
}
impl<T> NoRkyv<T> for &Tag<T> {}
trait YesRkyv<T> {
    fn rser(&self, v: &T, w: &mut dyn Write) -> Result<(), CErr>;
    fn rde(&self, b: &[u8]) -> Result<T, CErr>;
}
impl<T> YesRkyv<T> for Tag<T>
where
    T: rkyv::Archive
        + for<'a> rkyv::Serialize<rkyv::api::high::HighSerializer<Sink, rkyv::ser::allocator::ArenaHandle<'a>, rkyv::rancor::Error>>,
    T::Archived: rkyv::Deserialize<T, rkyv::api::high::HighDeserializer<rkyv::rancor::Error>>,
{
    fn rser(&self, v: &T, w: &mut dyn Write) -> Result<(), CErr> {
        let w = unsafe { std::mem::transmute::<*mut dyn Write, *mut (dyn Write + 'static)>(w) };
        rkyv::api::high::to_bytes_in::<_, rkyv::rancor::Error>(v, Sink { w, at: 0 }).map(|_| ()).map_err(bad)
    }
    fn rde(&self, b: &[u8]) -> Result<T, CErr> {
        let mut v: rkyv::util::AlignedVec = rkyv::util::AlignedVec::new();
        v.extend_from_slice(b);
        if v.len() < std::mem::size_of::<T::Archived>() {
            return Err(CErr::Failed("short record".into()));
        }
        // the bytes passed the harness's checksum: they are what the crate's own serializer wrote
        let a = rkyv::api::root_position::<T::Archived>(v.len());
        let a = unsafe { &*(v.as_ptr().add(a) as *const T::Archived) };
        rkyv::api::high::deserialize::<T, rkyv::rancor::Error>(a).map_err(bad)
    }
}

#[allow(dead_code)]
trait NoZcSave<T> {
    fn zser(&self, _: &T, _: &mut dyn Write) -> Result<(), CErr> {
        Err(CErr::NoImpl)
    }
}
impl<T> NoZcSave<T> for &Tag<T> {}
trait YesZcSave<T> {
    fn zser(&self, v: &T, w: &mut dyn Write) -> Result<(), CErr>;
}
impl<T: zerocopy::IntoBytes + zerocopy::Immutable> YesZcSave<T> for Tag<T> {
    fn zser(&self, v: &T, w: &mut dyn Write) -> Result<(), CErr> {
        w.write_all(v.as_bytes()).map_err(bad)
    }
}
#[allow(dead_code)]
trait NoZcLoad<T> {
    fn zde(&self, _: &[u8], _: u32) -> Result<T, CErr> {
        Err(CErr::NoImpl)
    }
}
impl<T> NoZcLoad<T> for &Tag<T> {}
trait YesZcLoad<T> {
    fn zde(&self, b: &[u8], alt: u32) -> Result<T, CErr>;
}
impl<T: zerocopy::TryFromBytes + zerocopy::KnownLayout + zerocopy::Immutable + Copy> YesZcLoad<T> for Tag<T> {
    fn zde(&self, b: &[u8], alt: u32) -> Result<T, CErr> {
        let no = || CErr::Failed("not a valid value".into());
        if alt & 1 == 0 {
            return T::try_read_from_bytes(b).map_err(|_| no());
        }
        let mut v: rkyv::util::AlignedVec = rkyv::util::AlignedVec::new();
        v.extend_from_slice(b);
        T::try_ref_from_bytes(&v).map(|r| *r).map_err(|_| no())
    }
}

fn crc(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

struct Summed<'a> {
    w: &'a mut dyn Write,
    h: u64,
}
impl Write for Summed<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.w.write(b)?;
        for x in &b[..n] {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.w.flush()
    }
}

pub fn save(o: &Obj, f: Format, c: &Ctl, w: &mut dyn Write) -> Result<(), CErr> {
    if f == Format::Rkyv {
        let mut s = Summed { w, h: 0xcbf2_9ce4_8422_2325 };
        match o {
            Obj::Rule(r) => each!(r, r => (&tag(r)).rser(r, &mut s))?,
            Obj::Param(p) => (&tag(p)).rser(p, &mut s)?,
        }
        let h = s.h;
        return s.w.write_all(&h.to_le_bytes()).map_err(bad);
    }
    if f == Format::Zc {
        return match o {
            Obj::Rule(_) => Err(CErr::NoImpl),
            Obj::Param(p) => (&tag(p)).zser(p, w),
        };
    }
    match o {
        Obj::Rule(r) => each!(r, r => (&tag(r)).ser(r, f, c, w)),
        Obj::Param(p) => (&tag(p)).ser(p, f, c, w),
    }
}

macro_rules! load_as {
    ($t:ty, $f:expr, $c:expr, $r:expr) => {{
        let t: Tag<$t> = Tag(PhantomData);
        if $f == Format::Rkyv {
            let b = all($r)?;
            if b.len() < 8 || crc(&b[..b.len() - 8]).to_le_bytes() != b[b.len() - 8..] {
                return Err(CErr::Failed("checksum".into()));
            }
            (&t).rde(&b[..b.len() - 8])?
        } else {
            (&t).de($f, $c, $r)?
        }
    }};
}

pub fn load(what: What, f: Format, c: &Ctl, r: &mut dyn Read) -> Result<Obj, CErr> {
    let k = match what {
        What::Param if f == Format::Zc => {
            let t: Tag<FiniteAboveNegOneF64> = Tag(PhantomData);
            let b = all(r)?;
            return Ok(Obj::Param((&t).zde(&b, c.style >> 8)?));
        }
        What::Param => return Ok(Obj::Param(load_as!(FiniteAboveNegOneF64, f, c, r))),
        What::Rule(k) => k,
    };
    Ok(Obj::Rule(match k {
        Kind::Leg => AnyRule::Leg(load_as!(GaussLegendre, f, c, r)),
        Kind::Jac => AnyRule::Jac(load_as!(GaussJacobi, f, c, r)),
        Kind::Lag => AnyRule::Lag(load_as!(GaussLaguerre, f, c, r)),
        Kind::Her => AnyRule::Her(load_as!(GaussHermite, f, c, r)),
        Kind::Ch1 => AnyRule::Ch1(load_as!(GaussChebyshevFirstKind, f, c, r)),
        Kind::Ch2 => AnyRule::Ch2(load_as!(GaussChebyshevSecondKind, f, c, r)),
        Kind::Mid => AnyRule::Mid(load_as!(Midpoint, f, c, r)),
        Kind::Trap => AnyRule::Trap(load_as!(Trapezoid, f, c, r)),
        Kind::Simp => AnyRule::Simp(load_as!(Simpson, f, c, r)),
    }))
}

/// The record of an object, on a medium without faults.
pub fn record(o: &Obj, f: Format, style: u32) -> Result<Vec<u8>, CErr> {
    let mut b = vec![];
    save(o, f, &Ctl::new(style, None), &mut b)?;
    Ok(b)
}
