//! P05: damaged or failing storage gives an error or the right answer.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::rt::*;
use crate::zipr::{self, Parts};
use ppt_rs::opc::Package;
use std::io::Cursor;

std::thread_local! {
    static PATHS: std::cell::Cell<(&'static str, &'static str)> = const { std::cell::Cell::new(("/in/d.pptx", "/work")) };
}
/// Input file and output directory of OPS on this thread.
pub fn set_paths(input: &'static str, out: &'static str) {
    PATHS.with(|p| p.set((input, out)));
}
fn inp() -> &'static str {
    PATHS.with(|p| p.get().0)
}
fn out(ext: &str) -> String {
    god(|| format!("{}/o.{}", PATHS.with(|p| p.get().1), ext))
}

fn fold(p: &Parts) -> String {
    god(|| p.iter().map(|(k, v)| format!("{}:{:x};", k, crate::pkg::hash(v))).collect())
}
fn out_parts(path: &str) -> Result<String, String> {
    match get(path) {
        Some(b) => god(|| zipr::read(&b)).map(|p| fold(&p)),
        None => Err("no file".into()),
    }
}
fn pack(p: &Package) -> String {
    let mut v: Vec<String> = god(|| {
        p.part_paths().iter().map(|n| format!("{}:{:x};", n, crate::pkg::hash(p.get_part(n).unwrap_or(b"")))).collect()
    });
    god(|| v.sort());
    god(|| v.concat())
}

pub struct ReadOp {
    pub name: &'static str,
    pub go: fn() -> Result<String, String>,
}
fn bytes() -> Vec<u8> {
    std::fs::read(inp()).unwrap_or_default()
}
/// Every operation that reads a stored presentation.
pub static OPS: &[ReadOp] = &[
    ReadOp { name: "Package::open", go: || e2s(Package::open(inp())).map(|p| pack(&p)) },
    ReadOp {
        name: "PresentationReader",
        go: || {
            let r = e2s(ppt_rs::oxml::presentation::PresentationReader::open(inp()))?;
            let s = e2s(r.get_all_slides())?;
            let t = e2s(r.extract_all_text())?;
            Ok(god(|| format!("{:?} {} {:?} {:?}", r.info(), r.slide_count(), s, t)))
        },
    },
    ReadOp {
        name: "import_pptx",
        go: || {
            let p = e2s(ppt_rs::import::import_pptx(inp()))?;
            let b = e2s(p.build())?;
            Ok(fold(&read_parts("import-build", "build of the imported deck", &b)))
        },
    },
    ReadOp {
        name: "Presentation::from_path + HTML",
        go: || e2s(ppt_rs::api::Presentation::from_path(inp())).and_then(|p| e2s(p.save_as_html(&out("html")))).map(|_| god(|| format!("{:?}", get(&out("html")).map(|b| crate::pkg::hash(&b))))),
    },
    ReadOp {
        name: "PresentationEditor",
        go: || {
            let mut e = e2s(ppt_rs::oxml::editor::PresentationEditor::open(inp()))?;
            e2s(e.add_slide(ppt_rs::generator::SlideContent::new("added")))?;
            e2s(e.save(&out("pptx")))?;
            Ok(god(|| format!("{} {}", e.slide_count(), out_parts(&out("pptx")).unwrap_or_else(|x| x))))
        },
    },
    ReadOp {
        name: "PptxRepair::open",
        go: || {
            let mut r = e2s(ppt_rs::oxml::repair::PptxRepair::open(inp()))?;
            let mut iss: Vec<String> = god(|| r.validate().iter().map(|i| format!("{:?}", i)).collect());
            god(|| iss.sort());
            r.repair();
            e2s(r.save(&out("pptx")))?;
            Ok(god(|| format!("{:?} {}", iss, out_parts(&out("pptx")).unwrap_or_else(|x| x))))
        },
    },
    ReadOp { name: "PptxRepair::from_bytes", go: || e2s(ppt_rs::oxml::repair::PptxRepair::from_bytes(&bytes())).map(|r| pack(r.package())) },
    ReadOp {
        name: "compress_pptx",
        go: || {
            let o = ppt_rs::opc::compress::CompressionOptions::new();
            let r = e2s(ppt_rs::opc::compress::compress_pptx(inp(), &out("pptx"), &o))?;
            Ok(god(|| format!("{} {} {}", r.original_size, r.unused_media_removed, out_parts(&out("pptx")).unwrap_or_else(|x| x))))
        },
    },
    ReadOp { name: "analyze_pptx", go: || e2s(ppt_rs::opc::compress::analyze_pptx(inp())).map(|a| god(|| format!("{:?}", a))) },
    ReadOp {
        name: "create_pptx_with_template",
        go: || {
            let s = [ppt_rs::generator::SlideContent::new("one"), ppt_rs::generator::SlideContent::new("two").notes("n")];
            let b = e2s(ppt_rs::generator::create_pptx_with_template("t", &s, inp(), None))?;
            Ok(fold(&read_parts("template-build", "build from the template", &b)))
        },
    },
    ReadOp { name: "CreateCommand --template", go: || ppt_rs::cli::CreateCommand::execute(&out("pptx"), Some("t"), 2, Some(inp())).map(|_| out_parts(&out("pptx")).unwrap_or_else(|x| x)) },
    ReadOp { name: "ValidateCommand", go: || ppt_rs::cli::ValidateCommand::execute(inp(), true).map(|_| "valid".into()) },
];

/// A stored deck: the library's own, or the same parts stored by another
/// program (other order, stored entries).
pub fn stored_deck() -> (Parts, Vec<u8>) {
    let d = gen::deck(&gen::FULL);
    let b = must("build", d.build());
    let p = read_parts("build", "in-memory build", &b);
    match w(3) {
        0 => (p, b),
        k => {
            let mut v: Vec<(String, Vec<u8>)> = god(|| p.iter().map(|(k, d)| (k.clone(), d.clone())).collect());
            for i in (1..v.len()).rev() {
                let j = w(i as u64 + 1) as usize;
                god(|| v.swap(i, j));
            }
            let names: Vec<String> = god(|| v.iter().map(|x| x.0.clone()).collect());
            let b = god(|| {
                zipr::write(&v, &mut |i| k == 1 || !(names[i].ends_with(".xml") || names[i].ends_with(".rels")))
            });
            (p, b)
        }
    }
}

/// Damage the bytes of one entry; None if there is nothing to damage.
fn flip(b: &mut Vec<u8>) -> String {
    let e = god(|| zipr::read_entries(b).unwrap_or_default());
    let x = &e[fdraw(e.len() as u64) as usize];
    let (lo, hi) = if fdraw(4) == 0 { (x.header_off, x.data_off) } else { (x.data_off, x.data_off + x.comp_len) };
    if hi <= lo {
        return "nothing".into();
    }
    match fdraw(4) {
        0 => {
            // a sector of zeros (a lost write)
            let at = lo + fdraw((hi - lo) as u64) as usize;
            let n = (1 + fdraw(600) as usize).min(hi - at);
            for i in at..at + n {
                b[i] = 0;
            }
            god(|| count("damage_zeroed_block"));
            format!("{} bytes zeroed at {} in {}", n, at, x.name)
        }
        _ => {
            let n = 1 + fdraw(3);
            let mut at = 0;
            for _ in 0..n {
                at = lo + fdraw((hi - lo) as u64) as usize;
                b[at] ^= 1 << fdraw(8);
            }
            god(|| count("damage_flipped_bytes"));
            format!("{} bits flipped near {} in {}", n, at, x.name)
        }
    }
}

fn run() {
    freeze_clock();
    god(|| {
        sim().fs.mkdir_p("/work");
        sim().fs.mkdir_p("/tmp");
        let l = crate::shim::LIVE.load(std::sync::atomic::Ordering::Relaxed);
        crate::shim::CAP.store(l + (600 << 20), std::sync::atomic::Ordering::Relaxed);
    });
    let (parts, good) = stored_deck();
    put(inp(), &good);
    let op = &OPS[w(OPS.len() as u64) as usize];
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    let (want, n) = measure(READS, Some(Box::new(|_, p| p.contains("/in/"))), || no_panic(op.name, op.go));
    let want = match want {
        Ok(x) => x,
        Err(e) => viol!("unexpected-error", "{} failed on an intact deck: {}", op.name, e),
    };
    god(|| sim().fs = snap);
    let mut bad = god(|| good.clone());
    let mode = fdraw(8);
    let mut what = String::new();
    let mut directory = false;
    match mode {
        0 => {}
        1 | 2 => what = god(|| flip(&mut bad)),
        3 => {
            // truncation, often at a structure boundary
            let n = match fdraw(3) {
                0 => fdraw(good.len() as u64) as usize,
                1 => {
                    let e = god(|| zipr::read_entries(&good).unwrap_or_default());
                    let x = &e[fdraw(e.len() as u64) as usize];
                    [x.header_off, x.data_off, x.data_off + x.comp_len, x.cd_off][fdraw(4) as usize]
                }
                _ => good.len() - 1 - fdraw(60.min(good.len() as u64 - 1)) as usize,
            };
            god(|| count("damage_truncated"));
            bad.truncate(n);
            what = god(|| format!("truncated from {} to {} bytes", good.len(), n));
        }
        4 => {
            directory = true;
            let e = god(|| zipr::read_entries(&good).unwrap_or_default());
            let lo = e.iter().map(|x| x.cd_off).min().unwrap_or(0);
            let n = 1 + fdraw(3);
            for _ in 0..n {
                let at = lo + fdraw((bad.len() - lo) as u64) as usize;
                if fdraw(3) == 0 {
                    bad[at] = [0xff, 0, 0x50, 0x80][fdraw(4) as usize];
                } else {
                    bad[at] ^= 1 << fdraw(8);
                }
                what = god(|| format!("{} directory byte {}", what, at - lo));
            }
            god(|| count("damage_directory"));
        }
        5 | 6 => {
            god(|| sim().faults.filter = Some(Box::new(|_, p: &str| p.contains("/in/"))));
            plan_snipe(READS, n, false);
        }
        _ => {
            let k = fdraw(n + 1);
            god(|| {
                let f = &mut sim().faults;
                f.filter = Some(Box::new(|_, p: &str| p.contains("/in/")));
                f.hard_calls = READS;
                f.eof_at = Some(k);
            });
        }
    }
    if !what.is_empty() {
        put(inp(), &bad);
    }
    set_benign(benign_rates());
    arm();
    let r = no_panic(op.name, op.go);
    disarm();
    let f = fired();
    if !f.is_empty() || !what.is_empty() {
        nontrivial();
        if !what.is_empty() {
            god(|| sim().faults.fired.push(what.clone()));
        }
    }
    god(reset_faults);
    sample(god(|| format!("{} with {} {:?}: {}", op.name, what, f, if r.is_ok() { "ok" } else { "error" })));
    state(&god(|| format!("{} {} {} {:?}", op.name, mode, r.is_ok(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()))));
    match r {
        Err(e) => {
            probe("error");
            if f.is_empty() && what.is_empty() {
                viol!("unexpected-error", "{} failed with only short or interrupted reads: {}", op.name, e);
            }
        }
        Ok(x) => {
            probe("answer");
            if directory {
                // the directory carries no checksum of its own: entries may be
                // out of sight or misnamed, but no bytes may be altered
                let p = match no_panic("Package::open", || e2s(Package::open(inp()))) {
                    Ok(p) => p,
                    Err(_) => return,
                };
                for n in p.part_paths() {
                    let d = p.get_part(n).unwrap_or(b"");
                    let ok = god(|| n.ends_with('/') || parts.values().any(|o| o.as_slice() == d));
                    if !ok {
                        let lo = god(|| zipr::read_entries(&good).unwrap_or_default().iter().map(|x| x.cd_off).min().unwrap_or(0));
                        let diffs: Vec<String> = god(|| (lo..good.len()).filter(|i| good[*i] != bad[*i]).map(|i| {
                            let e = zipr::read_entries(&good).unwrap_or_default();
                            let x = e.iter().filter(|x| x.cd_off <= i).max_by_key(|x| x.cd_off).map(|x| (x.name.clone(), i - x.cd_off));
                            format!("{:?} {:02x}->{:02x}", x, good[i], bad[i])
                        }).collect());
                        viol!("altered", "with damage at {:?} the part {} is read as something that was never stored: {:?}", diffs, n, short(d));
                    }
                }
            } else if x != want {
                let i = god(|| x.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(0));
                let cut = |s: &str| god(|| s.chars().skip(i.saturating_sub(30)).take(160).collect::<String>());
                viol!("altered", "{} of a deck {} {:?} succeeded with another answer: {:?} instead of {:?}", op.name, what, f, cut(&x), cut(&want));
            }
        }
    }
    let _ = Cursor::new(0);
}

pub static P: Prop = Prop {
    id: "P05",
    run,
    rule: "a run counts if the stored deck was damaged or a read was failed or ended early",
    state_measure: "operation x kind of damage x outcome x first fault",
    stubs: "file system behind the libc boundary; damaged containers are made by the harness; all of ppt-rs, zip and flate2 is real",
    ..BASE
};
