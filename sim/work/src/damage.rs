//! Torn, mixed, corrupted and edited records.
use crate::codec::{self, CErr, Obj, What};
use crate::rules::AnyRule;
use crate::store::object;
use crate::tape::{self, Ctl, Val};
use crate::util::{attempt, fail, panic_text};
use ciborium::Value as Cb;
use model::*;
use serde_json::Value as Js;
use simrt::shm;

/// A value the adversary puts in the place of a number.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Evil {
    F(f64),
    I(i64),
    U(u64),
    Text(&'static str),
    Null,
    True,
    Empty,
}
const PARAM_EVIL: [Evil; 24] = [
    Evil::F(-1.0),
    Evil::F(f64::NAN),
    Evil::F(f64::INFINITY),
    Evil::F(f64::NEG_INFINITY),
    Evil::F(-1.0000000000000002),
    Evil::F(-1.5),
    Evil::F(-1e300),
    Evil::F(-f64::MAX),
    Evil::I(-1),
    Evil::I(-2),
    Evil::I(i64::MIN),
    Evil::F(-1.25),
    Evil::F(-100.0),
    Evil::F(-3.0),
    Evil::F(-0.9999999999999999),
    Evil::F(f64::MAX),
    Evil::F(1e-310),
    Evil::F(-0.0),
    Evil::U(u64::MAX),
    Evil::U(3),
    Evil::Text("-2.0"),
    Evil::Null,
    Evil::True,
    Evil::Empty,
];
const DEGREE_EVIL: [Evil; 16] = [
    Evil::U(0),
    Evil::I(-1),
    Evil::U(1 << 32),
    Evil::U((1 << 32) + 5),
    Evil::U(u64::MAX),
    Evil::F(0.0),
    Evil::F(1.5),
    Evil::F(0.5),
    Evil::F(-3.0),
    Evil::U(4_294_967_295),
    Evil::I(i64::MIN),
    Evil::F(f64::NAN),
    Evil::Text("0"),
    Evil::Null,
    Evil::True,
    Evil::Empty,
];

struct Trial {
    bytes: Vec<u8>,
    changed: bool,
    /// the record lost something: it must be rejected
    must_reject: Option<String>,
    /// (field, value) put into an otherwise intact record
    set: Option<(&'static str, Evil)>,
    load_as: What,
}

pub fn run(d: &Damaged) {
    let st = shm::stats();
    let (o, other) = match attempt(|| (object(&d.rule, d.param_only), object(&d.other, d.param_only))) {
        Ok(x) => x,
        Err(_) => return,
    };
    let rec = attempt(|| (codec::record(&o, d.fmt, d.style), codec::record(&other, d.fmt, d.style)));
    let (rec, rec2) = match rec {
        Ok((Ok(a), Ok(b))) => (a, b),
        // whether records can be stored at all is another property
        _ => return,
    };
    for t in 0..d.sweep.max(1) as u64 {
        let mut tr = Trial { bytes: rec.clone(), changed: false, must_reject: None, set: None, load_as: o.what() };
        for (i, dm) in d.damage.iter().enumerate() {
            let dm = if i + 1 == d.damage.len() { dm.clone().moved(t) } else { dm.clone() };
            apply(&mut tr, &dm, &rec2, d, &o);
        }
        if d.damage.len() > 1 {
            tr.must_reject = None;
            tr.set = None;
        }
        if !tr.changed {
            continue;
        }
        st.ops += 1;
        simrt::event(tr.bytes.iter().fold(7, |h: u64, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3)));
        // how the reader presents the record is part of the run
        let ctl = Ctl::new(d.style, None);
        let ctx = || {
            let what = if d.param_only { "parameter".to_string() } else { format!("{} record", d.rule.key()) };
            format!("{what} in {:?} style {}, damage {:?}+{t}", d.fmt, d.style, d.damage)
        };
        match attempt(|| codec::load(tr.load_as, d.fmt, &ctl, &mut &tr.bytes[..])) {
            Err(p) => fail("damage-panic", &format!("{}: loading panicked: {}", ctx(), panic_text(&*p))),
            Ok(Err(CErr::NoImpl)) => {}
            Ok(Err(CErr::Failed(_))) => {
                st.p_rejected_damage += 1;
                simrt::event(t ^ 0x4e);
            }
            Ok(Ok(v)) => {
                st.p_accepted_damage += 1;
                simrt::event(t ^ 0xacc);
                if let Some(why) = &tr.must_reject {
                    fail("damage", &format!("{}: {why}, yet it loaded as {}", ctx(), short(&v)));
                }
                if let Some(m) = invalid(&v) {
                    fail(if d.fmt == Format::Zc { "damage-zerocopy" } else { "damage" }, &format!("{}: loaded a value that breaks its invariant: {m}", ctx()));
                }
                if d.fmt == Format::Zc && v.bits()[1].to_ne_bytes()[..] != tr.bytes[..] {
                    fail("damage", &format!("{}: loaded as {} from other bytes", ctx(), short(&v)));
                }
                if let Some((f, e)) = tr.set {
                    let (got, want) = (number(&v, f), meant(e));
                    if let (Some(g), Some(w)) = (got, want) {
                        if g != w {
                            fail("damage", &format!("{}: {f} was set to {e:?} in the record but loaded as {g}", ctx()));
                        }
                    }
                }
            }
        }
    }
}

fn short(v: &Obj) -> String {
    let mut s = format!("{v:?}");
    s.truncate(200);
    s
}

fn invalid(v: &Obj) -> Option<String> {
    let ok = |x: f64| x.is_finite() && x > -1.0;
    match v {
        Obj::Param(p) if !ok(p.get()) => Some(format!("{}", p.get())),
        Obj::Rule(r) => {
            let (a, b) = r.params();
            if !ok(a) || !ok(b) {
                Some(format!("alpha {a} beta {b}"))
            } else if matches!(r, AnyRule::Mid(_) | AnyRule::Trap(_) | AnyRule::Simp(_)) && r.degree() == 0 {
                Some("degree 0".into())
            } else {
                None
            }
        }
        _ => None,
    }
}

/// What a loaded field is, as text (floats bit by bit).
fn number(v: &Obj, f: &str) -> Option<String> {
    let t = |x: f64| if x == 0.0 { "0".to_string() } else { format!("{x:e}") };
    match (v, f) {
        (Obj::Param(p), _) => Some(t(p.get())),
        (Obj::Rule(r), "alpha") => Some(t(r.params().0)),
        (Obj::Rule(r), "beta") => Some(t(r.params().1)),
        (Obj::Rule(r), "degree") => Some(t(r.degree() as f64)),
        _ => None,
    }
}
fn meant(e: Evil) -> Option<String> {
    let t = |x: f64| if x == 0.0 { "0".to_string() } else { format!("{x:e}") };
    match e {
        Evil::F(x) => Some(t(x)),
        Evil::I(x) => Some(t(x as f64)),
        Evil::U(x) => Some(t(x as f64)),
        _ => None,
    }
}

fn apply(tr: &mut Trial, dm: &Damage, rec2: &[u8], d: &Damaged, o: &Obj) {
    let st = shm::stats();
    let n = tr.bytes.len() as u64;
    match dm {
        Damage::Truncate(k) => {
            if n == 0 {
                return;
            }
            let k = k % n;
            tr.bytes.truncate(k as usize);
            tr.changed = true;
            st.f_truncate += 1;
            if !d.param_only || d.fmt == Format::Zc {
                tr.must_reject = Some(format!("only the first {k} of {n} bytes are there"));
            }
        }
        Damage::FlipBits(k, c) => {
            if n == 0 {
                return;
            }
            let mut r = simrt::Rng::new(*k ^ 0x55);
            let mut at = k % (n * 8);
            for _ in 0..*c {
                tr.bytes[(at / 8) as usize] ^= 1 << (at % 8);
                at = r.below(n * 8);
            }
            tr.changed = true;
            st.f_bitflip += 1;
        }
        Damage::Splice(k) => {
            let k = (k % (n + 1)) as usize;
            let mut b = tr.bytes[..k].to_vec();
            b.extend_from_slice(&rec2[k.min(rec2.len())..]);
            tr.changed |= b != tr.bytes;
            tr.bytes = b;
            st.f_splice += 1;
        }
        Damage::Zero(k, c) => {
            if n == 0 {
                return;
            }
            let k = (k % n) as usize;
            let e = (k + *c as usize).min(n as usize);
            tr.bytes[k..e].iter_mut().for_each(|x| *x = 0);
            tr.changed = true;
            st.f_torn += 1;
        }
        Damage::OtherType(k) => {
            if !d.param_only {
                tr.load_as = What::Rule(*k);
                tr.changed |= o.what() != tr.load_as;
                st.f_splice += 1;
            }
        }
        Damage::DropField(_) | Damage::DupField(_) | Damage::SetField(..) | Damage::DropLeaf(_) => {
            if let Some(e) = edit(&tr.bytes, dm, d, o) {
                if e.0 != tr.bytes {
                    tr.bytes = e.0;
                    tr.changed = true;
                    st.f_dropfield += 1;
                    tr.set = e.2;
                    if let Some(w) = e.1 {
                        tr.must_reject = Some(w);
                    }
                }
            }
        }
    }
}

type Edited = (Vec<u8>, Option<String>, Option<(&'static str, Evil)>);

fn fields_to_set(o: &Obj) -> &'static [&'static str] {
    match o.what() {
        What::Param => &["value"],
        What::Rule(Kind::Jac) => &["alpha", "beta"],
        What::Rule(Kind::Lag) => &["alpha"],
        What::Rule(k) if k.is_nc() => &["degree"],
        _ => &[],
    }
}

fn evil(f: &str, k: u64) -> Evil {
    if f == "degree" {
        DEGREE_EVIL[(k % DEGREE_EVIL.len() as u64) as usize]
    } else {
        PARAM_EVIL[(k % PARAM_EVIL.len() as u64) as usize]
    }
}

fn edit(b: &[u8], dm: &Damage, d: &Damaged, o: &Obj) -> Option<Edited> {
    let set = if let Damage::SetField(f, k) = dm {
        let names = fields_to_set(o);
        if names.is_empty() {
            return None;
        }
        let f = names[(*f % names.len() as u64) as usize];
        Some((f, evil(f, *k)))
    } else {
        None
    };
    match d.fmt {
        Format::Json => {
            let mut v: Js = serde_json::from_slice(b).ok()?;
            let why = js(&mut v, dm, set)?;
            Some((serde_json::to_vec(&v).ok()?, why, set))
        }
        Format::Cbor => {
            let mut v: Cb = ciborium::from_reader(b).ok()?;
            let why = cb(&mut v, dm, set)?;
            let mut out = vec![];
            ciborium::into_writer(&v, &mut out).ok()?;
            Some((out, why, set))
        }
        Format::Tape => {
            let mut v = tape::decode(b).ok()?;
            let why = tp(&mut v, dm, set)?;
            let mut out = vec![];
            tape::encode(&v, &mut out);
            Some((out, why, set))
        }
        Format::Ron => {
            let t = String::from_utf8(b.to_vec()).ok()?;
            let (t, why) = rn(&t, dm, set)?;
            Some((t.into_bytes(), why, set))
        }
        Format::Bincode => bin(b, set?, d, o).map(|b| (b, None, set)),
        Format::Zc => match set?.1 {
            Evil::F(x) => Some((x.to_ne_bytes().to_vec(), None, set)),
            _ => None,
        },
        Format::Rkyv => None,
    }
}

fn lost(k: &str) -> Option<String> {
    Some(format!("field {k} is missing"))
}
const LEAF: &str = "a number of a node-weight pair is missing";

fn js(v: &mut Js, dm: &Damage, set: Option<(&'static str, Evil)>) -> Option<Option<String>> {
    match dm {
        Damage::DropField(k) => {
            let m = v.as_object_mut()?;
            let name = m.keys().nth((*k % m.len().max(1) as u64) as usize)?.clone();
            m.remove(&name);
            Some(lost(&name))
        }
        Damage::SetField(..) => {
            let (f, e) = set?;
            let x = match e {
                Evil::F(x) => serde_json::Number::from_f64(x).map(Js::Number)?,
                Evil::I(x) => x.into(),
                Evil::U(x) => x.into(),
                Evil::Text(t) => t.into(),
                Evil::Null => Js::Null,
                Evil::True => true.into(),
                Evil::Empty => Js::Array(vec![]),
            };
            if f == "value" {
                *v = x;
            } else {
                *v.as_object_mut()?.get_mut(f)? = x;
            }
            Some(None)
        }
        Damage::DropLeaf(k) => {
            fn leaves<'a>(v: &'a mut Js, out: &mut Vec<&'a mut Vec<Js>>) {
                match v {
                    Js::Array(a) => {
                        if !a.is_empty() && a.iter().all(|x| x.is_number()) {
                            out.push(a)
                        } else {
                            a.iter_mut().for_each(|x| leaves(x, out))
                        }
                    }
                    Js::Object(m) => m.values_mut().for_each(|x| leaves(x, out)),
                    _ => {}
                }
            }
            let mut l = vec![];
            leaves(v, &mut l);
            let n = l.len() as u64;
            if n == 0 {
                return None;
            }
            let p = &mut l[((k / 2) % n) as usize];
            let i = (*k % p.len() as u64) as usize;
            p.remove(i);
            Some(Some(LEAF.into()))
        }
        _ => None,
    }
}

fn cb(v: &mut Cb, dm: &Damage, set: Option<(&'static str, Evil)>) -> Option<Option<String>> {
    match dm {
        Damage::DropField(k) => {
            let m = v.as_map_mut()?;
            if m.is_empty() {
                return None;
            }
            let x = m.remove((*k % m.len() as u64) as usize);
            Some(lost(x.0.as_text().unwrap_or("?")))
        }
        Damage::DupField(k) => {
            let m = v.as_map_mut()?;
            if m.is_empty() {
                return None;
            }
            let mut x = m[(*k % m.len() as u64) as usize].clone();
            if x.1.is_float() && k / 8 % 2 == 1 {
                x.1 = Cb::Float(-4.0);
            }
            m.push(x);
            Some(None)
        }
        Damage::SetField(..) => {
            let (f, e) = set?;
            let x = match e {
                Evil::F(x) => Cb::Float(x),
                Evil::I(x) => Cb::Integer(x.into()),
                Evil::U(x) => Cb::Integer(x.into()),
                Evil::Text(t) => Cb::Text(t.into()),
                Evil::Null => Cb::Null,
                Evil::True => Cb::Bool(true),
                Evil::Empty => Cb::Array(vec![]),
            };
            if f == "value" {
                *v = x;
            } else {
                v.as_map_mut()?.iter_mut().find(|p| p.0.as_text() == Some(f))?.1 = x;
            }
            Some(None)
        }
        Damage::DropLeaf(k) => {
            fn leaves<'a>(v: &'a mut Cb, out: &mut Vec<&'a mut Vec<Cb>>) {
                match v {
                    Cb::Array(a) => {
                        if !a.is_empty() && a.iter().all(|x| x.is_float() || x.is_integer()) {
                            out.push(a)
                        } else {
                            a.iter_mut().for_each(|x| leaves(x, out))
                        }
                    }
                    Cb::Map(m) => m.iter_mut().for_each(|x| leaves(&mut x.1, out)),
                    _ => {}
                }
            }
            let mut l = vec![];
            leaves(v, &mut l);
            let n = l.len() as u64;
            if n == 0 {
                return None;
            }
            let p = &mut l[((k / 2) % n) as usize];
            let i = (*k % p.len() as u64) as usize;
            p.remove(i);
            Some(Some(LEAF.into()))
        }
        _ => None,
    }
}

fn tp(v: &mut Val, dm: &Damage, set: Option<(&'static str, Evil)>) -> Option<Option<String>> {
    match dm {
        Damage::DropField(k) => {
            let Val::Struct(_, f) = v else { return None };
            if f.is_empty() {
                return None;
            }
            let x = f.remove((*k % f.len() as u64) as usize);
            Some(lost(&x.0))
        }
        Damage::DupField(k) => {
            let Val::Struct(_, f) = v else { return None };
            if f.is_empty() {
                return None;
            }
            let x = f[(*k % f.len() as u64) as usize].clone();
            f.push(x);
            Some(None)
        }
        Damage::SetField(..) => {
            let (f, e) = set?;
            let x = match e {
                Evil::F(x) => Val::F(x),
                Evil::I(x) => Val::I(x),
                Evil::U(x) => Val::U(x),
                Evil::Text(t) => Val::Str(t.into()),
                Evil::Null => Val::Unit,
                Evil::True => Val::Bool(true),
                Evil::Empty => Val::Seq(vec![]),
            };
            let place = if f == "value" {
                v
            } else {
                let Val::Struct(_, m) = v else { return None };
                &mut m.iter_mut().find(|p| p.0 == f)?.1
            };
            match place {
                Val::New(_, inner) => **inner = x,
                p => *p = x,
            }
            Some(None)
        }
        Damage::DropLeaf(k) => {
            fn leaves<'a>(v: &'a mut Val, out: &mut Vec<&'a mut Vec<Val>>) {
                match v {
                    Val::Tuple(a) | Val::Seq(a) => {
                        if !a.is_empty() && a.iter().all(|x| matches!(x, Val::F(_))) {
                            out.push(a)
                        } else {
                            a.iter_mut().for_each(|x| leaves(x, out))
                        }
                    }
                    Val::Struct(_, m) => m.iter_mut().for_each(|x| leaves(&mut x.1, out)),
                    Val::New(_, x) => leaves(x, out),
                    _ => {}
                }
            }
            let mut l = vec![];
            leaves(v, &mut l);
            let n = l.len() as u64;
            if n == 0 {
                return None;
            }
            let p = &mut l[((k / 2) % n) as usize];
            let i = (*k % p.len() as u64) as usize;
            p.remove(i);
            Some(Some(LEAF.into()))
        }
        _ => None,
    }
}

/// Byte ranges of the fields of a RON struct.
fn ron_fields(t: &str) -> Option<(usize, Vec<(usize, usize)>)> {
    let open = t.find('(')?;
    let close = t.rfind(')')?;
    let (mut depth, mut from, mut v) = (0i32, open + 1, vec![]);
    for (i, c) in t[open + 1..close].char_indices() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                v.push((from, open + 1 + i));
                from = open + 2 + i;
            }
            _ => {}
        }
    }
    if !t[from..close].trim().is_empty() {
        v.push((from, close));
    }
    Some((open, v))
}

fn rn(t: &str, dm: &Damage, set: Option<(&'static str, Evil)>) -> Option<(String, Option<String>)> {
    match dm {
        Damage::DropField(k) | Damage::DupField(k) => {
            let (open, f) = ron_fields(t)?;
            if f.is_empty() || !t[f[0].0..f[0].1].contains(':') {
                return None;
            }
            let i = (*k % f.len() as u64) as usize;
            let name = t[f[i].0..f[i].1].split(':').next().unwrap_or("?").trim().to_string();
            let mut parts: Vec<&str> = f.iter().map(|r| t[r.0..r.1].trim()).collect();
            let why = if matches!(dm, Damage::DropField(_)) {
                parts.remove(i);
                lost(&name)
            } else {
                parts.push(parts[i]);
                None
            };
            Some((format!("{}({})", &t[..open], parts.join(",")), why))
        }
        Damage::SetField(..) => {
            let (f, e) = set?;
            let x = match e {
                Evil::F(x) if x.is_nan() => "NaN".to_string(),
                Evil::F(x) => format!("{x:?}"),
                Evil::I(x) => format!("{x}"),
                Evil::U(x) => format!("{x}"),
                Evil::Text(t) => format!("{t:?}"),
                Evil::Null => "()".into(),
                Evil::True => "true".into(),
                Evil::Empty => "[]".into(),
            };
            let (a, b) = if f == "value" {
                (0, t.len())
            } else {
                let (_, fs) = ron_fields(t)?;
                *fs.iter().find(|r| t[r.0..r.1].trim_start().starts_with(&format!("{f}:")))?
            };
            // the number: after the last opening bracket or colon
            let s = &t[a..b];
            let from = s.rfind(['(', ':']).map(|i| i + 1).unwrap_or(0);
            let rest = &s[from..];
            let lead = rest.len() - rest.trim_start().len();
            let body = rest.trim_start();
            let len = body.find(|c: char| !"0123456789.eE+-".contains(c)).unwrap_or(body.len());
            if len == 0 {
                return None;
            }
            let p = a + from + lead;
            Some((format!("{}{x}{}", &t[..p], &t[p + len..]), None))
        }
        Damage::DropLeaf(k) => {
            // pairs are "(x,w)" without further brackets
            let mut at = vec![];
            let mut open = None;
            for (i, c) in t.char_indices() {
                match c {
                    '(' => open = Some(i),
                    ')' => {
                        if let Some(o) = open.take() {
                            if t[o..i].contains(',') && !t[o..i].contains(':') {
                                at.push((o, i));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if at.is_empty() {
                return None;
            }
            let (o, c) = at[((k / 2) % at.len() as u64) as usize];
            let parts: Vec<&str> = t[o + 1..c].split(',').collect();
            let keep = parts[(*k % 2) as usize % parts.len()];
            Some((format!("{}({}){}", &t[..o], keep, &t[c + 1..]), Some(LEAF.into())))
        }
        _ => None,
    }
}

/// Binary records without field names: the stored number is replaced where its bytes are, if that place is unique.
fn bin(b: &[u8], set: (&'static str, Evil), d: &Damaged, o: &Obj) -> Option<Vec<u8>> {
    let be = d.style >> 8 & 3 == 2;
    let (old, new): (Vec<u8>, Vec<u8>) = if set.0 == "degree" {
        let Obj::Rule(r) = o else { return None };
        let Evil::U(x) = set.1 else { return None };
        let (a, x) = (r.degree() as u32, u32::try_from(x).ok()?);
        if d.style >> 8 & 3 == 1 || r.degree() < 70_000 {
            return None;
        }
        if be {
            (a.to_be_bytes().to_vec(), x.to_be_bytes().to_vec())
        } else {
            (a.to_le_bytes().to_vec(), x.to_le_bytes().to_vec())
        }
    } else {
        let Evil::F(x) = set.1 else { return None };
        let a = match (o, set.0) {
            (Obj::Param(p), _) => p.get(),
            (Obj::Rule(r), "alpha") => r.params().0,
            (Obj::Rule(r), _) => r.params().1,
        };
        if be {
            (a.to_bits().to_be_bytes().to_vec(), x.to_bits().to_be_bytes().to_vec())
        } else {
            (a.to_bits().to_le_bytes().to_vec(), x.to_bits().to_le_bytes().to_vec())
        }
    };
    let mut hits = b.windows(old.len()).enumerate().filter(|(_, w)| **w == old[..]).map(|(i, _)| i);
    let at = hits.next()?;
    if hits.next().is_some() {
        return None;
    }
    let mut v = b.to_vec();
    v[at..at + new.len()].copy_from_slice(&new);
    Some(v)
}
