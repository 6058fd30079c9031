//! P15: document timestamps are the real time, well-formed, at any clock.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::rt::*;
use crate::xmlp;
use ppt_rs::generator::*;
use ppt_rs::parts::Part;

const NS: i128 = 1_000_000_000;
const DAY: i128 = 86_400;

fn leap(y: i128) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
/// Days from 1970-01-01 to a date, counted year by year.
fn days(y: i128, m: i128, d: i128) -> i128 {
    let mut n = 0;
    if y >= 1970 {
        for k in 1970..y {
            n += if leap(k) { 366 } else { 365 };
        }
    } else {
        for k in y..1970 {
            n -= if leap(k) { 366 } else { 365 };
        }
    }
    for k in 1..m {
        n += [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][k as usize - 1];
    }
    n + d - 1
}
/// A W3CDTF timestamp in UTC as seconds since 1970.
fn seconds(t: &str) -> Option<i128> {
    let b = t.as_bytes();
    if b.len() != 20 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' || b[19] != b'Z' {
        return None;
    }
    let n = |a: usize, z: usize| -> Option<i128> {
        let s = &t[a..z];
        if s.bytes().all(|c| c.is_ascii_digit()) { s.parse().ok() } else { None }
    };
    let (y, mo, d, h, mi, s) = (n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    if !(1..=12).contains(&mo) || h > 23 || mi > 59 || s > 59 || y < 1 {
        return None;
    }
    let last = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo as usize - 1];
    if d < 1 || d > last {
        return None;
    }
    Some(days(y, mo, d) * DAY + h * 3600 + mi * 60 + s)
}

struct Lazy(Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}

fn clock() -> i128 {
    let y: i128 = match w(6) {
        0 => [1600, 1700, 1900, 2000, 2100, 2400, 1968, 1972, 2024, 2028][w(10) as usize],
        1 => [1969, 1970, 1971, 1901, 1938, 2038, 1601, 9600, 1000, 500][w(10) as usize],
        2 => 1950 + w(40) as i128,
        3 => 1600 + w(900) as i128,
        _ => 2015 + w(30) as i128,
    };
    let (m, d) = match w(6) {
        0 => (2, 28),
        1 if leap(y) => (2, 29),
        1 | 2 => (3, 1),
        3 => (12, 31),
        4 => (1, 1),
        _ => (1 + w(12) as i128, 1 + w(28) as i128),
    };
    let t = match w(4) {
        0 => 0,
        1 => DAY - 1,
        2 => DAY - 2,
        _ => w(86_400) as i128,
    };
    let ns = [0, 1, NS - 1, NS - 1000, NS / 2][w(5) as usize];
    (days(y, m, d) * DAY + t) * NS + ns
}

fn run() {
    god(|| {
        for d in ["/tmp", "/work", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let start = clock();
    let jumps = [0u64, 0, 128, 255][w(4) as usize];
    let kind = w(12);
    // everything the call needs is prepared at another time
    enum Go {
        Op(super::ops::Op),
        Bytes(Box<dyn Fn() -> Result<Vec<u8>, String>>),
        Part,
    }
    let mut deck = gen::deck(&gen::FULL);
    if wc(1, 3) {
        deck.settings = None;
    }
    let kept;
    let (name, go): (&str, Go) = match kind {
        0..=5 => {
            let k = [0, 9, 11, 12, 13, 14][kind as usize];
            kept = false;
            let o = super::ops::build(k);
            (o.name, Go::Op(o))
        }
        6 => {
            kept = true; // rewrites a package made earlier
            let k = [6, 7, 8, 10][w(4) as usize];
            let o = super::ops::build(k);
            (o.name, Go::Op(o))
        }
        7 => {
            kept = false;
            let d = deck.clone();
            ("create_pptx_with_settings", Go::Bytes(Box::new(move || d.build())))
        }
        8 => {
            kept = false;
            let d = deck.clone();
            (
                "create_pptx_lazy_to_writer",
                Go::Bytes(Box::new(move || {
                    e2s(create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), &d.title, Box::new(Lazy(d.slides.clone())), d.settings.clone())).map(|c| c.into_inner())
                })),
            )
        }
        9 => {
            kept = false;
            let n = 1 + w(3) as usize;
            ("create_pptx", Go::Bytes(Box::new(move || e2s(create_pptx("t", n)))))
        }
        10 => {
            kept = false;
            let p = deck.presentation();
            let b = must("build", p.build());
            put("/in/x.pptx", &b);
            (
                "import and build",
                Go::Bytes(Box::new(move || {
                    let p = e2s(ppt_rs::api::Presentation::from_path("/in/x.pptx"))?;
                    e2s(p.build())
                })),
            )
        }
        _ => {
            kept = false;
            ("CorePropertiesPart", Go::Part)
        }
    };
    god(|| {
        let s = sim();
        s.wall_base = start - s.now as i128;
        s.wall_log.clear();
        s.faults.jump_rate = jumps;
    });
    let begin = god(wall_ns);
    arm();
    // other threads keep the clock moving while the call runs
    let mut touched = None;
    let mut xml = String::new();
    let r: Result<Vec<u8>, String> = match &go {
        Go::Op(o) => no_panic(name, || (o.go)("/work/out.pptx")).map(|_| get("/work/out.pptx").unwrap_or_default()),
        Go::Bytes(f) => no_panic(name, || f()),
        Go::Part => {
            let mut c = no_panic(name, ppt_rs::parts::CorePropertiesPart::new);
            if wc(1, 2) && jumps == 0 {
                god(|| sim().now += w(5) * 1_000_000_000);
                no_panic(name, || c.touch());
                touched = Some(());
            }
            xml = match no_panic(name, || e2s(c.to_xml())) {
                Ok(x) => x,
                Err(e) => viol!("unexpected-error", "{}: {}", name, e),
            };
            Ok(vec![])
        }
    };
    disarm();
    let end = god(wall_ns);
    let mut seen: Vec<i128> = god(|| sim().wall_log.clone());
    seen.push(begin);
    seen.push(end);
    let jumped = god(|| sim().counters.get("clock_jump").copied().unwrap_or(0));
    god(reset_faults);
    if jumped > 0 || !(1970..2300).contains(&(1970 + start / NS / DAY / 365)) {
        nontrivial();
    }
    if matches!(start / NS / DAY % 365, 0..=60 | 360..) {
        nontrivial();
    }
    state(&god(|| format!("{} {} {}", name, start.div_euclid(NS * DAY), jumped)));
    sample(god(|| format!("{} at {} s, {} jumps, {} clock readings", name, start.div_euclid(NS), jumped, seen.len() - 2)));
    let b = match r {
        Ok(b) => b,
        Err(e) => viol!("unexpected-error", "{} fails at clock {} ns: {}", name, start, e),
    };
    if !matches!(go, Go::Part) {
        let parts = read_parts("package", name, &b);
        if !parts.contains_key("docProps/core.xml") {
            if kept || name == "Presentation::compress" {
                probe("properties removed");
                return;
            }
            viol!("missing", "{} wrote no core properties", name);
        }
        xml = god(|| String::from_utf8_lossy(&parts["docProps/core.xml"]).to_string());
    }
    let e = match god(|| xmlp::parse(xml.as_bytes())) {
        Ok(e) => e,
        Err(x) => viol!("malformed", "{}: core properties: {}", name, x),
    };
    let time = |tag: &str| -> i128 {
        let v = god(|| e.all(tag).iter().map(|x| x.text()).collect::<Vec<_>>());
        if v.len() != 1 {
            viol!("missing", "{}: {} {} times", name, v.len(), tag);
        }
        match seconds(&v[0]) {
            Some(t) => t,
            None => viol!("malformed", "{} at clock {} s: {} is {:?}, which is no UTC timestamp", name, start.div_euclid(NS), tag, v[0]),
        }
    };
    if e.all("created").is_empty() && (kept || name == "Presentation::compress") {
        probe("properties removed");
        return;
    }
    let (c, m) = (time("created"), time("modified"));
    if c > m {
        viol!("order", "{}: created {} is after modified {}", name, c, m);
    }
    if kept {
        probe("kept");
        return;
    }
    let lo = seen.iter().min().unwrap().div_euclid(NS);
    let hi = seen.iter().max().unwrap().div_euclid(NS);
    for (tag, t) in [("created", c), ("modified", m)] {
        if t < lo || t > hi {
            viol!("wrong-time", "{} at clock {}..{} s: {} is {} ({:+} s off)", name, lo, hi, tag, t, t - lo);
        }
        // with jumps in between, the time must be one the clock has shown
        let near = |x: &i128| {
            let x = x.div_euclid(NS);
            t == x || (jumped == 0 && touched.is_none() && (lo..=hi).contains(&t))
        };
        if touched.is_none() && !seen.iter().any(near) {
            viol!("wrong-time", "{}: {} is {}, which the clock never showed", name, tag, t);
        }
    }
    probe("generated");
}

pub static P: Prop = Prop {
    id: "P15",
    run,
    rule: "a run counts if the clock jumped during the call, or showed a date near a year end, a leap day or outside 1970..2300",
    state_measure: "operation x day shown by the clock x number of jumps",
    stubs: "the wall clock is simulated behind clock_gettime; all of ppt-rs is real",
    ..BASE
};
