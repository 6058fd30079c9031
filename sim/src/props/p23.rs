//! P23: operations on presentations are independent and repeatable.
use super::converters::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr::{self, Parts};
use ppt_rs::api::Presentation;
use ppt_rs::generator::*;
use ppt_rs::opc::Package;
use ppt_rs::oxml::presentation::PresentationReader;
use ppt_rs::oxml::repair::PptxRepair;
use ppt_rs::oxml::PresentationEditor;
use std::io::Cursor;

const FILE: &str = "/in/d.pptx";
const OUT: &str = "/work/out.x";

enum Obj {
    Pres(Presentation),
    Pack(Package),
    Edit(PresentationEditor),
    Repair(PptxRepair),
    Template(PptxTemplate),
    Reader(PresentationReader),
}
#[derive(Clone)]
struct Step {
    name: &'static str,
    /// does not change the object
    reading: bool,
    k: usize,
    a: usize,
    b: usize,
    slide: SlideContent,
    blob: Vec<u8>,
    view: Option<super::ops::View>,
    md: ppt_rs::export::md::MarkdownOptions,
}

fn show(p: &Parts) -> String {
    god(|| p.iter().map(|(k, v)| format!("{}:{:x};", k, pkg::hash(v))).collect())
}
fn deck_of(b: &[u8]) -> Result<String, String> {
    god(|| zipr::read(b)).map(|p| show(&p)).map_err(|e| god(|| format!("!{}", e)))
}
fn file_out() -> Result<String, String> {
    let b = get(OUT);
    god(|| match b {
        None => Err("!no file was written".into()),
        Some(b) => match zipr::read(&b) {
            Ok(p) => Ok(show(&p)),
            Err(_) => Ok(format!("{} {:x}", b.len(), pkg::hash(&b))),
        },
    })
}
fn pack(p: &Package) -> String {
    god(|| {
        let mut v: Vec<String> = p.part_paths().iter().map(|n| format!("{}:{:x};", n, pkg::hash(p.get_part(n).unwrap_or(b"")))).collect();
        v.sort();
        v.concat()
    })
}
fn tree_out(dir: &str) -> String {
    god(|| sim().fs.tree().into_iter().filter(|(p, _)| p.starts_with(dir)).map(|(p, d)| format!("{} {:x};", p, d.map_or(0, |d| pkg::hash(&d)))).collect())
}

/// A slide, sometimes with pictures that are read when needed.
fn slide(i: usize) -> SlideContent {
    let mut s = gen::slide(i, &gen::FULL);
    if wc(1, 2) {
        for f in ["/in/a.png", "/in/b.jpg"] {
            if w(2) == 0 {
                s = s.add_image(Image::new(f, 914400, 914400, if f.ends_with("png") { "PNG" } else { "JPG" }));
            }
        }
    }
    s
}

fn make(kind: usize) -> Result<Obj, String> {
    Ok(match kind {
        1 => Obj::Pack(e2s(Package::open(FILE))?),
        2 => Obj::Edit(e2s(PresentationEditor::open(FILE))?),
        3 => Obj::Repair(e2s(PptxRepair::open(FILE))?),
        4 => Obj::Template(e2s(PptxTemplate::load(FILE))?),
        _ => Obj::Reader(e2s(PresentationReader::open(FILE))?),
    })
}

fn steps(kind: usize) -> &'static [(&'static str, bool)] {
    match kind {
        0 => &[
            ("build", true),
            ("save", true),
            ("save_as_html", true),
            ("save_as_pdf", true),
            ("save_as_markdown", true),
            ("to_pdf_bytes", true),
            ("compress", true),
            ("analyze_size", true),
            ("save_as_png", true),
            ("save_as_images", true),
            ("save_thumbnail", true),
            ("write to a stream", true),
            ("slides", true),
            ("in-memory export", true),
            ("save_slide_as_image", true),
            ("save_as_markdown_with_options", true),
            ("save_as_pdf_via_pdfrs", true),
        ],
        1 => &[("save", true), ("save_writer", true), ("parts", true), ("add_part", false), ("remove_part", false), ("get_part_mut", false)],
        2 => &[
            ("save", true),
            ("get_slide", true),
            ("add_slide", false),
            ("update_slide", false),
            ("insert_slide", false),
            ("remove_slide", false),
            ("duplicate_slide", false),
            ("reorder_slide", false),
            ("slide_count", true),
        ],
        3 => &[("validate", true), ("save", true), ("to_bytes", true), ("repair", false), ("parts", true)],
        4 => &[("create_pptx_with_template", true), ("parts", true)],
        _ => &[("get_all_slides", true), ("get_slide", true), ("extract_all_text", true), ("info", true)],
    }
}

fn apply(o: &mut Obj, s: &Step, plan: &PlanRef) -> Result<String, String> {
    let dbg = |x: &dyn std::fmt::Debug| god(|| format!("{:?}", x));
    match o {
        Obj::Pres(p) => match s.k {
            0 => deck_of(&e2s(p.build())?),
            1 => e2s(p.save(OUT)).and_then(|_| file_out()),
            2 => e2s(p.save_as_html(OUT)).and_then(|_| file_out()),
            3 => e2s(p.save_as_pdf(OUT)).and_then(|_| file_out()),
            4 => e2s(p.save_as_markdown(OUT)).and_then(|_| file_out()),
            5 => {
                let b = e2s(p.to_pdf_bytes(&ppt_rs::export::pdf_export::PdfExportOptions::default()))?;
                Ok(god(|| format!("{:x}", pkg::hash(&b))))
            }
            6 => e2s(p.compress(OUT, &ppt_rs::opc::compress::CompressionOptions::new())).and_then(|_| file_out()),
            7 => e2s(p.analyze_size()).map(|a| dbg(&(a.images_size, a.xml_size, a.other_size, a.image_count, a.slide_count, a.media_count))),
            8 => {
                e2s(p.save_as_png("/work/png"))?;
                Ok(tree_out("/work/png"))
            }
            9 => {
                let v = e2s(p.save_as_images("/work/images", &ppt_rs::export::image_export::ImageExportOptions::new()))?;
                Ok(god(|| format!("{:?} {}", v, tree_out("/work/images"))))
            }
            10 => {
                e2s(p.save_thumbnail("/work/thumb.png", 90))?;
                Ok(tree_out("/work/thumb"))
            }
            11 => {
                let wtr = FaultyWriter::new(plan);
                let d = god(|| wtr.data.clone());
                let slides = p.slides().to_vec();
                e2s(create_pptx_with_content_to_writer(wtr, "Stream", &slides, None))?;
                let b = god(|| d.borrow().clone());
                deck_of(&b)
            }
            12 => Ok(dbg(&(p.get_title(), p.slide_count(), p.slides()))),
            13 => (s.view.as_ref().expect("a view").go)(p),
            14 => {
                let i = 1 + s.a % p.slide_count().max(1);
                let v = e2s(p.save_slide_as_image(i, "/work/slide.png", &ppt_rs::export::image_export::ImageExportOptions::web_optimized()))?;
                Ok(god(|| format!("{:?} {}", v, tree_out("/work/slide"))))
            }
            15 => e2s(p.save_as_markdown_with_options(OUT, &s.md)).and_then(|_| file_out()),
            _ => e2s(p.save_as_pdf_via_pdfrs(OUT, &ppt_rs::export::pdf_export::PdfExportOptions::landscape())).and_then(|_| file_out()),
        },
        Obj::Pack(p) => match s.k {
            0 => e2s(p.save(OUT)).and_then(|_| file_out()),
            1 => {
                let wtr = FaultyWriter::new(plan);
                let d = god(|| wtr.data.clone());
                e2s(p.save_writer(wtr))?;
                let b = god(|| d.borrow().clone());
                deck_of(&b)
            }
            2 => Ok(pack(p)),
            3 => {
                p.add_part(god(|| format!("custom/p{}.bin", s.a)), s.blob.clone());
                Ok(pack(p))
            }
            4 => {
                let n = {
                    let mut v = p.part_paths();
                    god(|| v.sort());
                    v[s.a % v.len()].to_string()
                };
                let r = p.remove_part(&n);
                Ok(god(|| format!("{:?} {}", r.map(|b| pkg::hash(&b)), pack(p))))
            }
            _ => {
                if let Some(v) = p.get_part_mut("docProps/app.xml") {
                    v.push(b' ');
                }
                Ok(pack(p))
            }
        },
        Obj::Edit(e) => {
            let n = e.slide_count().max(1);
            match s.k {
                0 => e2s(e.save(OUT)).and_then(|_| file_out()),
                1 => e2s(e.get_slide(s.a % n)).map(|x| dbg(&x)),
                2 => e2s(e.add_slide(s.slide.clone())).map(|i| god(|| format!("{} {}", i, pack(e.package())))),
                3 => e2s(e.update_slide(s.a % n, s.slide.clone())).map(|_| pack(e.package())),
                4 => e2s(e.insert_slide(s.a % (n + 1), s.slide.clone())).map(|i| god(|| format!("{} {}", i, pack(e.package())))),
                5 => e2s(e.remove_slide(s.a % n)).map(|_| pack(e.package())),
                6 => e2s(e.duplicate_slide(s.a % n)).map(|i| god(|| format!("{} {}", i, pack(e.package())))),
                7 => e2s(e.reorder_slide(s.a % n, s.b % n)).map(|_| pack(e.package())),
                _ => Ok(dbg(&e.slide_count())),
            }
        }
        Obj::Repair(r) => match s.k {
            0 => Ok(dbg(&r.validate())),
            1 => e2s(r.save(OUT)).and_then(|_| file_out()),
            2 => deck_of(&e2s(r.to_bytes())?),
            3 => {
                let x = r.repair();
                Ok(god(|| format!("{:?} {}", x, pack(r.package()))))
            }
            _ => Ok(pack(r.package())),
        },
        Obj::Template(t) => match s.k {
            0 => deck_of(&e2s(create_pptx_with_template("T", &[s.slide.clone()], FILE, None))?),
            _ => {
                let mut v: Vec<String> = god(|| t.parts().iter().map(|(n, d)| format!("{}:{:x};", n, pkg::hash(d))).collect());
                god(|| v.sort());
                Ok(god(|| format!("{} {} {:?}", t.layout_count(), t.resolve_layout_number(s.a), v)))
            }
        },
        Obj::Reader(r) => match s.k {
            0 => e2s(r.get_all_slides()).map(|x| dbg(&x)),
            1 => e2s(r.get_slide(s.a % r.slide_count().max(1))).map(|x| dbg(&x)),
            2 => e2s(r.extract_all_text()).map(|x| dbg(&x)),
            _ => Ok(dbg(&(r.info(), r.slide_count()))),
        },
    }
}

fn draw(kind: usize, reading: Option<bool>) -> Step {
    let all = steps(kind);
    let mut k = w(all.len() as u64) as usize;
    while reading.map_or(false, |r| all[k].1 != r) {
        k = (k + 1) % all.len();
    }
    Step { name: all[k].0, reading: all[k].1, k, a: w(6) as usize, b: w(6) as usize, slide: slide(20 + w(5) as usize), blob: god(|| vec![7; 10 + k * 40_000]), view: if all[k].0 == "in-memory export" { Some(super::ops::view()) } else { None }, md: super::ops::md_options() }
}

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    god(|| {
        for d in ["/work", "/tmp", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    put("/in/a.png", &gen::image_bytes("PNG"));
    put("/in/b.jpg", &gen::image_bytes("JPG"));
    soffice(Mode::Good, Naming::Slide, false, false);
    pdftoppm(Mode::Good, 2, false, false);
    let kind = w(6) as usize;
    let mut base = None;
    if kind == 0 {
        let d = gen::deck(&gen::FULL);
        let mut p = d.presentation();
        if let Some(s) = &d.settings {
            p = p.with_settings(s.clone());
        }
        for i in 0..w(3) {
            p = p.add_slide(slide(50 + i as usize));
        }
        base = Some(p);
    } else {
        let (mut p, _) = super::edits::start_deck(true);
        if kind == 3 {
            super::p08::damage(&mut p);
        }
        let v: Vec<(String, Vec<u8>)> = god(|| p.into_iter().collect());
        let b = god(|| zipr::write(&v, &mut |_| false));
        put(FILE, &b);
    }
    let n = 1 + w(5);
    let hist: Vec<Step> = (0..n).map(|_| draw(kind, None)).collect();
    let extra: Vec<Vec<Step>> = (0..=n).map(|_| (0..w(3)).map(|_| draw(kind, Some(true))).collect()).collect();
    god(|| sim().fs.sync_all());
    let clean = god(|| sim().fs.clone());
    let none = io_plan();
    let mk = || -> Result<Obj, String> {
        match &base {
            Some(p) => Ok(Obj::Pres(p.clone())),
            None => make(kind),
        }
    };
    // what each step gives on an object that never failed, in a process of its own
    let last = Step { name: "final state", reading: true, k: [0, 0, 0, 2, 1, 0][kind], a: 0, b: 0, slide: SlideContent::new("x"), blob: vec![], view: None, md: Default::default() };
    type Want = (Vec<Result<String, String>>, Vec<(u64, u64)>, Option<Result<String, String>>);
    let (want, costs, end): Want = twin(|| {
        let mut a = match mk() {
            Ok(a) => a,
            // damaged beyond opening
            Err(_) if kind == 3 => return (vec![], vec![], None),
            Err(e) => viol!("unexpected-error", "opening failed without any fault: {}", e),
        };
        let mut want: Vec<Result<String, String>> = vec![];
        let mut costs = vec![];
        for s in &hist {
            let plan = io_plan();
            let (r, c) = measure(READS | WRITES, None, || call(|| apply(&mut a, s, &plan)));
            match r {
                Err(m) => viol!("panic", "{} panicked: {}", s.name, m),
                Ok(r) => {
                    if let Err(e) = &r {
                        if e.starts_with('!') {
                            viol!("bad-output", "{} gave an unreadable result: {}", s.name, e);
                        }
                    }
                    god(|| want.push(r))
                }
            }
            let streams = god(|| plan.borrow().ops);
            god(|| {
                costs.push((c, streams));
                sim().fs = clean.clone();
            });
        }
        match call(|| apply(&mut a, &last, &none)) {
            Ok(r) => (want, costs, Some(r)),
            Err(m) => viol!("panic", "the last reading panicked: {}", m),
        }
    });
    let end = match end {
        Some(e) => e,
        None => return,
    };
    let names: Vec<&str> = god(|| hist.iter().map(|s| s.name).collect());
    // the same history with failures and reading operations in between
    let mut b = match mk() {
        Ok(b) => b,
        Err(e) => viol!("unexpected-error", "opening again failed without any fault: {}", e),
    };
    let mut log: Vec<String> = vec![];
    let mut failures = 0;
    for (i, s) in hist.iter().enumerate() {
        for x in &extra[i] {
            if let Err(m) = call(|| apply(&mut b, x, &none)) {
                viol!("panic", "{} panicked: {}", x.name, m);
            }
            god(|| {
                log.push(x.name.into());
                sim().fs = clean.clone();
            });
        }
        let tries = fdraw(3);
        let mut done = false;
        for _ in 0..tries {
            let plan = io_plan();
            let br = benign_rates();
            set_benign(br);
            if costs[i].1 > 0 {
                plan_benign(&plan);
                plan_hard(&plan, costs[i].1);
            } else if costs[i].0 > 0 && fdraw(5) != 0 {
                plan_snipe(READS | WRITES, costs[i].0, fdraw(2) == 1);
            }
            if fdraw(4) == 0 {
                soffice([Mode::Missing, Mode::Refuses, Mode::FailsAfter(1), Mode::KilledAfter(1), Mode::Silent][fdraw(5) as usize].clone(), Naming::Slide, false, false);
                pdftoppm(Mode::Missing, 2, false, false);
            }
            arm();
            let r = call(|| apply(&mut b, s, &plan));
            disarm();
            let f = fired();
            god(|| {
                reset_faults();
                sim().fs = clean.clone();
            });
            soffice(Mode::Good, Naming::Slide, false, false);
            pdftoppm(Mode::Good, 2, false, false);
            match r {
                Err(m) => viol!("panic", "{} under {:?} panicked: {}", s.name, f, m),
                Ok(Err(e)) if e.starts_with('!') => viol!("bad-output", "{} under {:?} succeeded with an unreadable result: {}", s.name, f, e),
                Ok(Err(e)) => {
                    failures += 1;
                    god(|| log.push(format!("{} failing with {}", s.name, e)));
                }
                Ok(Ok(x)) => {
                    if want[i].as_ref().ok() != Some(&x) && god(|| f.iter().any(|m| m.contains("/in/a.png") || m.contains("/in/b.jpg"))) {
                        // pictures that cannot be read may be left out
                        if s.reading {
                            god(|| log.push(format!("{} without pictures", s.name)));
                            continue;
                        }
                        return;
                    }
                    // it was carried out, in spite of everything
                    if want[i].as_ref().ok() != Some(&x) {
                        viol!("result", "{} under {:?} after {:?} gives {}", s.name, f, log, differ(&want[i], &Ok(x)));
                    }
                    god(|| log.push(s.name.into()));
                    done = true;
                }
            }
            if done {
                break;
            }
        }
        if !done {
            match call(|| apply(&mut b, s, &none)) {
                Err(m) => viol!("panic", "{} panicked: {}", s.name, m),
                Ok(x) => {
                    if x != want[i] {
                        viol!("retry", "{} after {:?} gives {}", s.name, log, differ(&want[i], &x));
                    }
                }
            }
            god(|| {
                log.push(s.name.into());
                sim().fs = clean.clone();
            });
        }
    }
    // and the objects are the same in the end
    for x in &extra[n as usize] {
        let _ = call(|| apply(&mut b, x, &none));
        god(|| sim().fs = clean.clone());
    }
    match call(|| apply(&mut b, &last, &none)) {
        Ok(y) => {
            if end != y {
                viol!("state", "after {:?} the object gives {}", log, differ(&end, &y));
            }
        }
        Err(m) => viol!("panic", "the last reading panicked: {}", m),
    }
    if failures > 0 {
        nontrivial();
        probe("retried after a failure");
    } else if n > 1 {
        nontrivial();
        probe("repeated");
    }
    state(&god(|| format!("{} {:?}", kind, log)));
    sample(god(|| format!("{:?} as {:?}", names, log)));
}
fn differ(a: &Result<String, String>, b: &Result<String, String>) -> String {
    god(|| match (a, b) {
        (Ok(x), Ok(y)) => {
            let (p, q): (Vec<&str>, Vec<&str>) = (x.split(';').collect(), y.split(';').collect());
            let i = p.iter().zip(&q).position(|(x, y)| x != y).unwrap_or(p.len().min(q.len()));
            let s = |v: &[&str]| v.get(i).map(|x| x.chars().take(150).collect::<String>()).unwrap_or_default();
            format!("another result than without: {:?} instead of {:?}", s(&q), s(&p))
        }
        _ => format!("{:?} instead of {:?}", b.as_ref().map(|s| s.chars().take(150).collect::<String>()), a.as_ref().map(|s| s.chars().take(150).collect::<String>())),
    })
}

pub static P: Prop = Prop {
    id: "P23",
    run,
    rule: "non-trivial: some step failed and was retried, or the object was used more than once",
    state_measure: "object x steps x where each of them failed",
    stubs: "disk, streams, soffice and pdftoppm are simulated; all of ppt-rs is real",
    ..BASE
};
