//! P04: opening, editing and saving a package preserves every part.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::rt::*;
use crate::zipr::{self, Parts};
use ppt_rs::opc::Package;

pub fn blob() -> Vec<u8> {
    let len = match w(8) {
        0 => 0,
        1 => 1,
        2 | 3 | 4 => w(400) as usize,
        5 | 6 => w(9000) as usize,
        _ if wc(1, 8) => 130_000 + w(300_000) as usize,
        _ => 30_000 + w(60_000) as usize,
    };
    let kind = w(4);
    let seed = w(1 << 30);
    god(|| {
        let mut x = seed | 1;
        (0..len)
            .map(|i| match kind {
                0 => b'x',
                1 => b"<a:t>Umsatz &amp; Gewinn</a:t>"[i % 30],
                2 => (i / 97) as u8,
                _ => {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x as u8
                }
            })
            .collect()
    })
}
const NAMES: &[&str] = &[
    "[Content_Types].xml",
    "_rels/.rels",
    "ppt/presentation.xml",
    "ppt/slides/slide1.xml",
    "ppt/slides/slide10.xml",
    "ppt/slides/_rels/slide1.xml.rels",
    "ppt/media/image1.PNG",
    "ppt/media/Bild é 日本.png",
    "docProps/core.xml",
    "docProps/thumbnail.jpeg",
    "customXml/item1.xml",
    "a",
    "a/b",
    "ppt/slides/Slide1.xml",
    "ppt/media/image 1.png",
    "x/very/deep/path/with/many/levels/part.bin",
    ".hidden",
    "ppt/embeddings/oleObject1.bin",
];
fn model() -> Parts {
    if wc(1, 3) {
        let d = gen::deck(&gen::FULL);
        read_parts("build", "in-memory build", &must("build", d.build()))
    } else {
        let n = w(14);
        let mut p = Parts::new();
        for _ in 0..n {
            let k = *pick(NAMES);
            let b = blob();
            god(|| p.insert(k.to_string(), b));
        }
        p
    }
}
/// The container as some other program may have written it.
fn container(p: &Parts) -> Vec<u8> {
    let mut v: Vec<(String, Vec<u8>)> = god(|| p.iter().map(|(k, d)| (k.clone(), d.clone())).collect());
    for i in (1..v.len()).rev() {
        let j = w(i as u64 + 1) as usize;
        god(|| v.swap(i, j));
    }
    if wc(1, 5) {
        let at = w(v.len() as u64 + 1) as usize;
        god(|| v.insert(at, ("ppt/emptydir/".into(), vec![])));
    }
    let mode = w(3);
    let mut bits = w(1 << 20);
    god(|| {
        zipr::write(&v, &mut |_| {
            bits = bits.rotate_left(7) ^ 0x55;
            mode == 0 || (mode == 1 && bits & 4 == 0)
        })
    })
}
/// The object shows exactly the model.
fn same(k: &Package, m: &Parts, when: &str) {
    let mut paths: Vec<String> = k.part_paths().iter().map(|s| s.to_string()).collect();
    paths.sort();
    let want: Vec<String> = god(|| m.keys().cloned().collect());
    if paths != want || k.part_count() != want.len() {
        viol!("parts", "{}: the package lists {:?} ({} parts), expected {:?}", when, paths, k.part_count(), want);
    }
    for (n, d) in m {
        if k.get_part(n) != Some(d.as_slice()) || !k.has_part(n) {
            viol!("bytes", "{}: part {} has other bytes: {}", when, n, diff_bytes(d, k.get_part(n).unwrap_or(b"")));
        }
    }
    if k.has_part("no/such/part") || k.get_part("no/such/part").is_some() {
        viol!("parts", "{}: a part that was never added exists", when);
    }
}
fn saved(b: &[u8], m: &Parts, when: &str) {
    let e = match god(|| zipr::read_entries(b)) {
        Ok(e) => e,
        Err(x) => viol!("saved", "{}: the saved package cannot be read: {}", when, x),
    };
    let mut got = Parts::new();
    god(|| {
        for x in e {
            if x.name.ends_with('/') {
                continue;
            }
            if got.insert(x.name.clone(), x.data).is_some() {
                viol!("saved", "{}: part {} is stored twice", when, x.name);
            }
        }
    });
    if let Some(d) = diff_parts(m, &got) {
        viol!("saved", "{}: {}", when, d);
    }
}

fn run() {
    freeze_clock();
    god(|| {
        sim().fs.mkdir_p("/work");
    });
    let mut m = model();
    let first = container(&m);
    put("/work/p0.pptx", &first);
    god(|| sim().fs.sync_all());
    let steps = 1 + w(7);
    let mut stored = first; // what the last save left behind
    let mut stored_model = god(|| m.clone());
    let mut k: Option<Package> = if wc(1, 12) {
        m = Parts::new();
        Some(if wc(1, 2) { Package::new() } else { Package::default() })
    } else {
        None
    };
    let mut hist: Vec<&'static str> = vec![];
    let mut hard = false;
    for step in 0..steps + 2 {
        let act = if k.is_none() {
            0
        } else if step >= steps {
            6
        } else {
            wweighted(&[1, 3, 2, 2, 1, 1, 3])
        };
        match act {
            // open what is stored, from a file or a reader
            0 => {
                let file = wc(1, 2);
                let want_hard = fdraw(4) == 1;
                let r;
                if file {
                    put("/work/p0.pptx", &stored);
                    let (_, n) = measure(READS, None, || call(|| drop(Package::open("/work/p0.pptx"))));
                    if want_hard {
                        plan_snipe(READS, n, fdraw(2) == 1);
                    }
                    set_benign(benign_rates());
                    arm();
                    r = no_panic("Package::open", || e2s(Package::open("/work/p0.pptx")));
                    disarm();
                } else {
                    let plan = io_plan();
                    if want_hard {
                        let q = io_plan();
                        let _ = call(|| drop(Package::open_reader(FaultyReader::new(&stored, &q))));
                        let n = q.borrow().ops;
                        plan_hard(&plan, n);
                    }
                    plan_benign(&plan);
                    r = no_panic("Package::open_reader", || e2s(Package::open_reader(FaultyReader::new(&stored, &plan))));
                    if plan.borrow().benign > 0 {
                        nontrivial();
                    }
                }
                let f = fired();
                god(|| reset_faults());
                if !f.is_empty() {
                    nontrivial();
                    hard = true;
                }
                match r {
                    Ok(p) => {
                        m = god(|| stored_model.clone());
                        same(&p, &m, if f.is_empty() { "after opening" } else { "after opening in spite of a read error" });
                        k = Some(p);
                        hist.push("open");
                    }
                    Err(e) => {
                        if f.is_empty() {
                            viol!("open", "opening an intact package failed: {}", e);
                        }
                        hist.push("open-failed");
                    }
                }
            }
            1 | 2 => {
                // add or replace
                let name = if act == 2 && !m.is_empty() {
                    let i = w(m.len() as u64) as usize;
                    god(|| m.keys().nth(i).unwrap().clone())
                } else {
                    pick(NAMES).to_string()
                };
                let b = blob();
                let n2 = name.clone();
                let b2 = b.clone();
                k.as_mut().unwrap().add_part(n2, b2);
                god(|| m.insert(name, b));
                hist.push("put");
            }
            3 => {
                let name = if m.is_empty() || wc(1, 4) {
                    "no/such/part".to_string()
                } else {
                    let i = w(m.len() as u64) as usize;
                    god(|| m.keys().nth(i).unwrap().clone())
                };
                let got = k.as_mut().unwrap().remove_part(&name);
                let want = god(|| m.remove(&name));
                if got != want {
                    viol!("remove", "removing {} returned {:?} bytes, it held {:?}", name, got.map(|x| x.len()), want.map(|x| x.len()));
                }
                hist.push("remove");
            }
            4 => {
                if !m.is_empty() {
                    let i = w(m.len() as u64) as usize;
                    let name = god(|| m.keys().nth(i).unwrap().clone());
                    match k.as_mut().unwrap().get_part_mut(&name) {
                        Some(v) => v.extend_from_slice(b"tail"),
                        None => viol!("parts", "part {} exists and cannot be changed", name),
                    }
                    god(|| m.get_mut(&name).unwrap().extend_from_slice(b"tail"));
                    hist.push("change");
                }
            }
            5 => {
                if !m.is_empty() {
                    let i = w(m.len() as u64) as usize;
                    let (n, d) = god(|| m.iter().nth(i).map(|(a, b)| (a.clone(), b.clone())).unwrap());
                    let got = k.as_ref().unwrap().get_part_string(&n);
                    if got.as_deref() != Some(&String::from_utf8_lossy(&d)) {
                        viol!("bytes", "the text of part {} is not its content", n);
                    }
                }
            }
            _ => {
                let p = k.as_ref().unwrap();
                let want_hard = step < steps && fdraw(3) == 1;
                let file = wc(1, 2);
                let r;
                let bytes;
                if file {
                    let snap = god(|| sim().fs.clone());
                    let (_, n) = measure(ALL, None, || call(|| drop(p.save("/work/out.pptx"))));
                    god(|| sim().fs = snap);
                    if want_hard {
                        plan_snipe(ALL, n, fdraw(2) == 1);
                    }
                    set_benign(benign_rates());
                    arm();
                    r = no_panic("Package::save", || e2s(p.save("/work/out.pptx")));
                    disarm();
                    bytes = get("/work/out.pptx").unwrap_or_default();
                } else {
                    let plan = io_plan();
                    if want_hard {
                        let q = io_plan();
                        let _ = call(|| drop(p.save_writer(FaultyWriter::new(&q))));
                        let n = q.borrow().ops;
                        plan_hard(&plan, n);
                    }
                    plan_benign(&plan);
                    let wr = FaultyWriter::new(&plan);
                    let d = wr.data.clone();
                    r = no_panic("Package::save_writer", || e2s(p.save_writer(wr)));
                    if plan.borrow().benign > 0 {
                        nontrivial();
                    }
                    bytes = d.borrow().clone();
                }
                let f = fired();
                god(|| reset_faults());
                if !f.is_empty() {
                    nontrivial();
                    hard = true;
                }
                same(p, &m, "after saving");
                match r {
                    Ok(()) => {
                        saved(&bytes, &m, &god(|| format!("after {:?} and saving", hist)));
                        stored = bytes;
                        stored_model = god(|| m.clone());
                        hist.push("save");
                        if step >= steps {
                            k = None; // reopen at the end
                        }
                    }
                    Err(e) => {
                        if f.is_empty() {
                            viol!("save", "saving failed without a fault: {}", e);
                        }
                        hist.push("save-failed");
                    }
                }
            }
        }
        if let Some(p) = &k {
            same(p, &m, "after a step");
        }
    }
    sample(god(|| format!("{} parts, {:?}", m.len(), hist)));
    state(&god(|| format!("{:?} {}", hist, hard)));
}

pub static P: Prop = Prop {
    id: "P04",
    run,
    rule: "a run counts if a read or write was failed, shortened or interrupted",
    state_measure: "history of operations and their outcomes",
    stubs: "file system behind the libc boundary, the caller's reader and writer; containers are written by the harness; all of ppt-rs, zip and flate2 is real",
    ..BASE
};
