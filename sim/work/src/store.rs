//! Rules stored on a simulated disk: short and interrupted transfers, errors, full disks, power loss.
use crate::codec::{self, CErr, Obj, What};
use crate::rules::{param, AnyRule};
use crate::tape::Ctl;
use crate::util::{attempt, fail, panic_text};
use model::*;
use simrt::{shm, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Default)]
struct File {
    data: Vec<u8>,
    /// how much of it is known to be on the medium
    synced: usize,
}

/// Files with a synced prefix, a directory with a list of changes not yet on the medium.
pub struct Disk {
    files: Vec<File>,
    dir: BTreeMap<String, usize>,
    durable: BTreeMap<String, usize>,
    pending: Vec<BTreeMap<String, usize>>,
    capacity: u64,
    /// operations until the power goes
    left: Option<u64>,
    down: bool,
}

fn lost() -> io::Error {
    io::Error::new(ErrorKind::Other, "power lost")
}

impl Disk {
    fn new(capacity: u64) -> Disk {
        Disk { files: vec![], dir: BTreeMap::new(), durable: BTreeMap::new(), pending: vec![], capacity, left: None, down: false }
    }
    fn tick(&mut self) -> io::Result<()> {
        if let Some(n) = &mut self.left {
            if *n == 0 {
                self.down = true;
            } else {
                *n -= 1;
            }
        }
        if self.down {
            Err(lost())
        } else {
            Ok(())
        }
    }
    fn used(&self) -> u64 {
        self.dir.values().map(|f| self.files[*f].data.len() as u64).sum()
    }
    fn create(&mut self, name: &str) -> io::Result<usize> {
        self.tick()?;
        self.files.push(File::default());
        let id = self.files.len() - 1;
        self.dir.insert(name.into(), id);
        self.pending.push(self.dir.clone());
        Ok(id)
    }
    fn append(&mut self, id: usize, b: &[u8]) -> io::Result<usize> {
        self.tick()?;
        let mut n = b.len() as u64;
        if self.capacity > 0 {
            let free = self.capacity.saturating_sub(self.used());
            if free == 0 && n > 0 {
                shm::stats().f_enospc += 1;
                return Err(io::Error::new(ErrorKind::StorageFull, "no space left"));
            }
            n = n.min(free);
        }
        self.files[id].data.extend_from_slice(&b[..n as usize]);
        Ok(n as usize)
    }
    fn sync(&mut self, id: usize) -> io::Result<()> {
        self.tick()?;
        self.files[id].synced = self.files[id].data.len();
        Ok(())
    }
    fn rename(&mut self, a: &str, b: &str) -> io::Result<()> {
        self.tick()?;
        if let Some(id) = self.dir.remove(a) {
            self.dir.insert(b.into(), id);
        }
        self.pending.push(self.dir.clone());
        Ok(())
    }
    fn remove(&mut self, a: &str) -> io::Result<()> {
        self.tick()?;
        self.dir.remove(a);
        self.pending.push(self.dir.clone());
        Ok(())
    }
    fn sync_dir(&mut self) -> io::Result<()> {
        self.tick()?;
        self.durable = self.dir.clone();
        self.pending.clear();
        Ok(())
    }
    /// Power loss and restart: some prefix of the directory changes and of each file's unsynced bytes survives.
    fn crash(&mut self, seed: u64) {
        let mut r = Rng::new(seed);
        let st = shm::stats();
        st.f_crash += 1;
        let k = r.below(self.pending.len() as u64 + 1) as usize;
        if k > 0 {
            self.durable = self.pending[k - 1].clone();
        }
        self.pending.clear();
        self.dir = self.durable.clone();
        for f in &mut self.files {
            let loose = f.data.len() - f.synced;
            if loose > 0 {
                st.f_torn += 1;
                let keep = r.below(loose as u64 + 1) as usize;
                f.data.truncate(f.synced + keep);
                if keep > 0 && r.chance(1, 3) {
                    // a page that never made it
                    let z = r.below(keep as u64) as usize;
                    for x in &mut f.data[f.synced + z..] {
                        *x = 0;
                    }
                }
            }
            f.synced = f.data.len();
        }
        self.left = None;
        self.down = false;
    }
}

/// What one stream did to its user.
struct Line {
    io: IoFaults,
    rng: Rng,
    calls: u64,
    fail_at: Option<u64>,
    fired: bool,
}
impl Line {
    fn new(io: &IoFaults, fail_at: Option<u64>) -> Line {
        Line { io: *io, rng: Rng::new(io.seed), calls: 0, fail_at, fired: false }
    }
    /// None: go ahead with at most that many bytes
    fn step(&mut self, len: usize) -> Result<usize, io::Error> {
        let k = self.calls;
        self.calls += 1;
        let interrupted = self.io.eintr_pct > 0 && self.rng.chance(self.io.eintr_pct as u64, 100);
        let cut = if self.io.chunk > 0 { self.rng.range(1, self.io.chunk) as usize } else { usize::MAX };
        if self.fail_at == Some(k) {
            self.fired = true;
            let st = shm::stats();
            return Err(if self.io.fail_kind == 1 {
                st.f_enospc += 1;
                io::Error::new(ErrorKind::StorageFull, "no space left")
            } else {
                st.f_eio += 1;
                io::Error::new(ErrorKind::Other, "input/output error")
            });
        }
        if interrupted {
            shm::stats().f_eintr += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if cut < len {
            shm::stats().f_short_io += 1;
        }
        Ok(len.min(cut))
    }
}

struct FileWriter<'a> {
    d: &'a RefCell<Disk>,
    id: usize,
    line: Line,
}
impl Write for FileWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.line.step(b.len())?;
        self.d.borrow_mut().append(self.id, &b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct FileReader<'a> {
    data: &'a [u8],
    at: usize,
    line: Line,
}
impl Read for FileReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.at;
        let want = b.len().min(left);
        // at the true end there is nothing to lose
        if left == 0 || b.is_empty() {
            return Ok(0);
        }
        let early_end = self.line.io.fail_kind == 1;
        let n = match self.line.step(want) {
            Err(_) if self.line.fired && early_end => return Ok(0),
            r => r?,
        };
        if self.line.fired && early_end {
            // the file stays short
            return Ok(0);
        }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Rec {
    bits: Vec<u64>,
}

pub fn object(rule: &RuleSpec, is_param: bool) -> Obj {
    if is_param {
        Obj::Param(param(rule.alpha))
    } else {
        Obj::Rule(AnyRule::build(rule))
    }
}

fn header(o: &Obj, f: Format, style: u32) -> [u8; 8] {
    let k = match o.what() {
        What::Rule(k) => k as u8,
        What::Param => 200,
    };
    let s = style.to_le_bytes();
    [0x51, FORMATS.iter().position(|x| *x == f).unwrap_or(0) as u8, k, s[0], s[1], s[2], s[3], 0x15]
}

enum Ended {
    Ok,
    Err,
    NoImpl,
    Panicked(String),
}

/// One attempt to write the record. Returns calls and callbacks made, and whether the injected failure was met.
fn write_record(d: &RefCell<Disk>, id: usize, o: &Obj, f: Format, io: &IoFaults, fail_at: Option<u64>, codec_at: Option<u64>) -> (Ended, u64, u64, bool) {
    let mut w = FileWriter { d, id, line: Line::new(io, fail_at) };
    let ctl = Ctl::new(io.style, codec_at);
    let r = attempt(|| {
        w.write_all(&header(o, f, io.style)).map_err(|e| CErr::Failed(e.to_string()))?;
        codec::save(o, f, &ctl, &mut w)
    });
    let e = match r {
        Ok(Ok(())) => Ended::Ok,
        Ok(Err(CErr::NoImpl)) => Ended::NoImpl,
        Ok(Err(CErr::Failed(_))) => Ended::Err,
        Err(p) => Ended::Panicked(panic_text(&*p)),
    };
    (e, w.line.calls, ctl.seen(), w.line.fired || ctl.fired.get())
}

enum Read2 {
    Obj(Obj),
    Err(String),
    NoImpl,
    Panicked(String),
}

fn read_record(data: &[u8], io: &IoFaults, fail_at: Option<u64>, codec_at: Option<u64>) -> (Read2, u64, u64, bool) {
    if data.len() < 8 || data[0] != 0x51 || data[7] != 0x15 {
        return (Read2::Err("header".into()), 0, 0, false);
    }
    let f = FORMATS[(data[1] as usize).min(FORMATS.len() - 1)];
    let what = if data[2] == 200 { What::Param } else { What::Rule(KINDS[(data[2] as usize).min(8)]) };
    let style = u32::from_le_bytes([data[3], data[4], data[5], data[6]]);
    let mut r = FileReader { data: &data[8..], at: 0, line: Line::new(io, fail_at) };
    let ctl = Ctl::new(style, codec_at);
    let res = attempt(|| codec::load(what, f, &ctl, &mut r));
    let e = match res {
        Ok(Ok(o)) => Read2::Obj(o),
        Ok(Err(CErr::NoImpl)) => Read2::NoImpl,
        Ok(Err(CErr::Failed(m))) => Read2::Err(m),
        Err(p) => Read2::Panicked(panic_text(&*p)),
    };
    (e, r.line.calls, ctl.seen(), r.line.fired || ctl.fired.get())
}

fn at(k: u64, n: u64) -> Option<u64> {
    if k == 0 || n == 0 {
        None
    } else {
        Some((k - 1) % n)
    }
}

fn calm(io: &IoFaults) -> IoFaults {
    IoFaults { style: io.style, ..Default::default() }
}

fn note(bits: &[u64]) -> u64 {
    bits.iter().fold(1, |h, b| simrt::rng::mix(h ^ b))
}

pub fn run(s: &Store) {
    let d = RefCell::new(Disk::new(s.capacity));
    // what each slot must hold; and what it may hold besides after a save that was cut off
    let mut acked: BTreeMap<u32, Rec> = BTreeMap::new();
    let mut maybe: BTreeMap<u32, Vec<Rec>> = BTreeMap::new();
    let mut crash_seed = None;
    let st = shm::stats();
    for op in &s.ops {
        st.ops += 1;
        match op {
            SOp::Crash { seed } => {
                d.borrow_mut().crash(*seed);
                crash_seed = None;
                verify_all(&d, &mut acked, &mut maybe);
            }
            SOp::CrashIn { ops, seed } => {
                d.borrow_mut().left = Some(*ops);
                crash_seed = Some(*seed);
            }
            SOp::Save { slot, rule, param, fmt, io } => {
                let o = match attempt(|| object(rule, *param)) {
                    Ok(o) => o,
                    Err(_) => return,
                };
                let before = o.bits();
                let ctx = format!("{} {} in {fmt:?}", if *param { "parameter of" } else { "rule" }, rule.key());
                // how many calls and callbacks there are to fail
                let dry = RefCell::new(Disk::new(0));
                let id = dry.borrow_mut().create("x").unwrap_or(0);
                let (e, calls, cbs, _) = write_record(&dry, id, &o, *fmt, io, None, None);
                match e {
                    Ended::Ok => {}
                    Ended::NoImpl => {
                        fail("no-impl", &format!("{ctx}: the crate has no implementation for this route"));
                        continue;
                    }
                    Ended::Err => fail("store", &format!("{ctx}: saving failed although nothing went wrong")),
                    Ended::Panicked(m) => fail("store-panic", &format!("{ctx}: saving panicked: {m}")),
                }
                let (fa, ca) = (at(io.fail_at, calls), if *fmt == Format::Tape { at(io.codec_at, cbs) } else { None });
                let tmp = format!("{slot}.tmp");
                let name = format!("{slot}");
                let mut stopped_by_disk = false;
                let mut done = false;
                let id = d.borrow_mut().create(&tmp);
                if let Ok(id) = id {
                    let room = s.capacity == 0;
                    let (e, _, _, fired) = write_record(&d, id, &o, *fmt, io, fa, ca);
                    let down = d.borrow().down;
                    let full = !room && {
                        let dd = d.borrow();
                        dd.used() >= dd.capacity
                    };
                    match e {
                        Ended::Panicked(m) => fail("store-panic", &format!("{ctx}: saving panicked: {m}")),
                        Ended::NoImpl => {}
                        Ended::Ok => {
                            if fired {
                                fail("store", &format!("{ctx}: saving reported success although a write or data-format call failed"));
                            }
                            done = true;
                        }
                        Ended::Err => {
                            stopped_by_disk = down || full;
                            if !fired && !stopped_by_disk {
                                fail("store", &format!("{ctx}: saving failed although nothing went wrong (short or interrupted writes only)"));
                            }
                        }
                    }
                    if done {
                        let mut dd = d.borrow_mut();
                        done = dd.sync(id).and_then(|_| dd.rename(&tmp, &name)).and_then(|_| dd.sync_dir()).is_ok();
                        if !done {
                            maybe.entry(*slot).or_default().push(Rec { bits: before.clone() });
                        }
                    } else {
                        let _ = d.borrow_mut().remove(&tmp);
                    }
                }
                let _ = stopped_by_disk;
                if done {
                    acked.insert(*slot, Rec { bits: before.clone() });
                    maybe.remove(slot);
                }
                if o.bits() != before {
                    fail("store", &format!("{ctx}: saving changed the rule"));
                }
                simrt::event(note(&before) ^ done as u64);
                if let Some(seed) = crash_seed.take() {
                    let down = d.borrow().down;
                    if down {
                        d.borrow_mut().crash(seed);
                        verify_all(&d, &mut acked, &mut maybe);
                    } else {
                        d.borrow_mut().left = None;
                    }
                }
                if !done {
                    // the rule is still usable: a retry on a working disk succeeds
                    let good = RefCell::new(Disk::new(0));
                    let id = good.borrow_mut().create("r").unwrap_or(0);
                    let q = calm(io);
                    match write_record(&good, id, &o, *fmt, &q, None, None).0 {
                        Ended::Ok => {
                            let data = good.borrow().files[id].data.clone();
                            expect(&data, &Rec { bits: before.clone() }, &q, &format!("{ctx}, saved again after a failure"));
                            st.p_recovered += 1;
                        }
                        Ended::Panicked(m) => fail("store-panic", &format!("{ctx}: saving again panicked: {m}")),
                        _ => fail("store", &format!("{ctx}: saving again after a failure failed too")),
                    }
                }
            }
            SOp::Load { slot, io } => {
                let data = match contents(&d, &format!("{slot}")) {
                    Some(x) => x,
                    None => {
                        if acked.contains_key(slot) {
                            fail("store", &format!("slot {slot}: an acknowledged record is missing"));
                        }
                        continue;
                    }
                };
                let Some(rec) = acked.get(slot).cloned() else { continue };
                let (e, calls, cbs, _) = read_record(&data, io, None, None);
                check_load(&e, &rec, &format!("slot {slot}"), false);
                let fa = at(io.fail_at, calls);
                let ca = at(io.codec_at, cbs);
                // a text number cut short is another valid number: the data format cannot tell
                let fa = if data.get(2) == Some(&200) && io.fail_kind == 1 { None } else { fa };
                if fa.is_some() || ca.is_some() {
                    let (e, _, _, fired) = read_record(&data, io, fa, ca);
                    check_load(&e, &rec, &format!("slot {slot}"), fired);
                    // and once more without the fault
                    let (e, ..) = read_record(&data, &calm(io), None, None);
                    check_load(&e, &rec, &format!("slot {slot}, after a failed load"), false);
                    st.p_recovered += 1;
                }
                simrt::event(note(&rec.bits));
            }
        }
    }
    d.borrow_mut().left = None;
    d.borrow_mut().down = false;
    d.borrow_mut().crash(1);
    verify_all(&d, &mut acked, &mut maybe);
}

fn contents(d: &RefCell<Disk>, name: &str) -> Option<Vec<u8>> {
    let d = d.borrow();
    d.dir.get(name).map(|id| d.files[*id].data.clone())
}

fn check_load(e: &Read2, rec: &Rec, ctx: &str, fired: bool) {
    match e {
        Read2::Obj(_) if fired => {
            fail("store", &format!("{ctx}: loading reported success although a read or data-format call failed"))
        }
        Read2::Obj(o) => {
            if o.bits() != rec.bits {
                fail("store", &format!("{ctx}: loaded {} but stored {}", brief(&o.bits()), brief(&rec.bits)));
            }
        }
        Read2::Err(m) if !fired => fail("store", &format!("{ctx}: an acknowledged record does not load: {m}")),
        Read2::Err(_) => {}
        Read2::NoImpl => fail("no-impl", &format!("{ctx}: the crate has no implementation for this route")),
        Read2::Panicked(m) => fail("store-panic", &format!("{ctx}: loading panicked: {m}")),
    }
}

fn expect(data: &[u8], rec: &Rec, io: &IoFaults, ctx: &str) {
    let (e, ..) = read_record(data, io, None, None);
    check_load(&e, rec, ctx, false);
}

fn brief(b: &[u64]) -> String {
    let mut s = format!("[{} words", b.len());
    for x in b.iter().take(8) {
        s += &format!(" {x:x}");
    }
    s + "]"
}

/// After a restart: every acknowledged record is there, bit for bit; a cut-off save left the old or the new one.
fn verify_all(d: &RefCell<Disk>, acked: &mut BTreeMap<u32, Rec>, maybe: &mut BTreeMap<u32, Vec<Rec>>) {
    let mut slots: Vec<u32> = acked.keys().copied().collect();
    slots.extend(maybe.keys().copied());
    slots.sort();
    slots.dedup();
    for s in slots {
        let old = acked.get(&s).cloned();
        let new = maybe.get(&s).cloned().unwrap_or_default();
        let data = contents(d, &format!("{s}"));
        let Some(data) = data else {
            if old.is_some() {
                fail("store", &format!("slot {s}: an acknowledged record is gone after a restart"));
            }
            continue;
        };
        let (e, ..) = read_record(&data, &IoFaults::default(), None, None);
        match e {
            Read2::Obj(o) => {
                let b = o.bits();
                if old.as_ref().map(|r| r.bits == b) != Some(true) && !new.iter().any(|r| r.bits == b) {
                    fail("store", &format!("slot {s}: after a restart it holds {}, which was not stored there", brief(&b)));
                }
                acked.insert(s, Rec { bits: b });
                simrt::event(s as u64);
            }
            Read2::Err(m) => fail("store", &format!("slot {s}: a stored record does not load after a restart: {m}")),
            Read2::NoImpl => fail("no-impl", &format!("slot {s}: the crate has no implementation for this route")),
            Read2::Panicked(m) => fail("store-panic", &format!("slot {s}: loading panicked: {m}")),
        }
    }
    maybe.clear();
}
