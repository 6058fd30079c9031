//! P12: no operation leaves temporary files behind.
use super::converters::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::rt::*;
use ppt_rs::export::image_export::*;
use std::rc::Rc;

struct Job {
    name: &'static str,
    /// paths the operation may write
    out: Vec<String>,
    /// may fail without a fault
    may_fail: bool,
    go: Rc<dyn Fn() -> Result<(), String>>,
}

fn job() -> Job {
    match w(9) {
        0 => {
            let p = gen::deck(&gen::TEXT).presentation();
            let n = p.slide_count();
            let mode = choose_mode();
            pdftoppm(mode, n.max(1), wc(1, 2), wc(1, 2));
            let dir = ["/out", "/out/new/er"][w(2) as usize];
            Job { name: "save_as_png", out: vec!["/out".into()], may_fail: mode != Mode::Good, go: Rc::new(move || e2s(p.save_as_png(dir))) }
        }
        1 => {
            let mode = choose_mode();
            let there = !wc(1, 8);
            if there {
                put("/in/doc.pdf", b"%PDF-1.4 x");
            }
            pdftoppm(mode, 1 + w(12) as usize, wc(1, 2), wc(1, 2));
            Job {
                name: "from_pdf",
                out: vec![],
                may_fail: mode != Mode::Good || !there,
                go: Rc::new(|| {
                    let p = e2s(ppt_rs::api::Presentation::from_pdf("/in/doc.pdf"))?;
                    e2s(p.build()).map(|_| ())
                }),
            }
        }
        k @ 2..=4 => {
            let p = gen::deck(&gen::TEXT).presentation();
            let mode = choose_mode();
            soffice(mode, [Naming::Slide, Naming::First, Naming::Stem, Naming::Padded][w(4) as usize], wc(1, 2), true);
            let o = super::ops::image_options();
            let dir = ["/out", "/out/new"][w(2) as usize];
            let s = 1 + w(4) as usize;
            let (name, go): (_, Rc<dyn Fn() -> Result<(), String>>) = match k {
                2 => ("export_to_images", Rc::new(move || e2s(export_to_images(&p, dir, &o)).map(|_| ()))),
                3 => ("export_slide_to_image", Rc::new(move || e2s(export_slide_to_image(&p, s, "/out/one.png", &o)).map(|_| ()))),
                _ => ("render_thumbnail", Rc::new(move || e2s(render_thumbnail(&p, "/out/one.png", 64)).map(|_| ()))),
            };
            Job { name, out: vec!["/out".into()], may_fail: true, go }
        }
        5 => {
            let (_, b) = super::ops::deck_bytes(&gen::FULL);
            put("/work/comp.pptx", &b);
            let o = super::ops::comp_options();
            let (name, out, go): (_, Vec<String>, Rc<dyn Fn() -> Result<(), String>>) = match w(3) {
                0 => ("compress_pptx in place", vec!["/work/comp.pptx".into()], Rc::new(move || e2s(ppt_rs::opc::compress::compress_pptx("/work/comp.pptx", "/work/comp.pptx", &o)).map(|_| ()))),
                1 => ("analyze_pptx", vec![], Rc::new(|| e2s(ppt_rs::opc::compress::analyze_pptx("/work/comp.pptx")).map(|_| ()))),
                _ => {
                    let p = gen::deck(&gen::FULL).presentation();
                    ("Presentation::compress", vec!["/work/out.pptx".into()], Rc::new(move || e2s(p.compress("/work/out.pptx", &o)).map(|_| ())))
                }
            };
            Job { name, out, may_fail: false, go }
        }
        6 => {
            let (_, b) = super::p05::stored_deck();
            put("/in/d.pptx", &b);
            let op = &super::p05::OPS[w(super::p05::OPS.len() as u64) as usize];
            Job { name: op.name, out: vec!["/work/o.pptx".into(), "/work/o.html".into()], may_fail: false, go: Rc::new(move || (op.go)().map(|_| ())) }
        }
        _ => {
            let op = super::ops::choose();
            let go = op.go.clone();
            Job { name: op.name, out: vec!["/work/out.x".into()], may_fail: false, go: Rc::new(move || go("/work/out.x")) }
        }
    }
}

/// Files of other people that look like the library's own.
const OTHERS: &[&str] = &[
    "/tmp/temp_export.pptx",
    "/tmp/ppt_rs_temp_1.pdf",
    "/tmp/ppt_rs_import_old/page-1.png",
    "/tmp/ppt_rs_export_old/Slide1.png",
    "/tmp/compressed.pptx",
    "/tmp/page-1.png",
    "/tmp/slide-1.png",
    "/work/out.x.tmp",
    "/work/.out.x.tmp",
    "/work/out.x.bak",
    "/work/other.pptx",
    "/out/keep.png",
    "/out/Slide99.png",
    "/out/slide-99.png",
];

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    god(|| {
        sim().fs.mkdir_p("/tmp");
        sim().fs.mkdir_p("/work");
        sim().fs.mkdir_p("/out");
    });
    for o in OTHERS {
        if wc(2, 3) {
            put(o, o.as_bytes());
        }
    }
    let j = job();
    if wc(1, 3) && j.out.iter().any(|o| o == "/work/out.x") {
        put("/work/out.x", b"previous contents");
    }
    let before = tree();
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    let (r0, n) = measure(ALL, None, || no_panic(j.name, || (j.go)()));
    let check = |r: &Result<(), String>, f: &[String]| {
        let after = tree();
        let is_out = |p: &str| {
            j.out.iter().any(|o| {
                o == p
                    || (o == "/out"
                        && p.strip_prefix("/out/").map_or(false, |x| {
                            let n = x.rsplit('/').next().unwrap_or("");
                            n.starts_with("Slide") || n.starts_with("slide-") || n.starts_with("temp_export") || n == "one.png"
                        }))
            })
        };
        for (p, v) in &after {
            let old = before.get(p);
            if old == Some(v) {
                continue;
            }
            if v.is_none() && (p.starts_with("/out/new") || p == "/out") {
                continue;
            }
            if is_out(p) {
                continue;
            }
            if old.is_some() {
                viol!("clobbered", "{} changed {} which it did not make ({:?}, {:?})", j.name, p, r, f);
            }
            // when removing the file was itself refused, it stays
            let excused = f.iter().any(|x| {
                x.starts_with("unlink_error") || x.starts_with("rmdir_error") || ((r.is_ok() == r0.is_ok() || f.len() > 1) && ["open_error", "opendir_error", "readdir_error", "stat_error"].iter().any(|k| x.starts_with(k)))
            });
            if excused {
                probe("cleanup-refused");
                continue;
            }
            viol!("leaked", "{} returned {} and left {} behind ({:?})", j.name, if r.is_ok() { "success" } else { "an error" }, p, f);
        }
        for (p, v) in &before {
            if v.is_some() && !after.contains_key(p) && !is_out(p) {
                viol!("clobbered", "{} deleted {} which it did not make ({:?})", j.name, p, f);
            }
        }
    };
    if let Err(e) = &r0 {
        if !j.may_fail {
            viol!("unexpected-error", "{} failed without a fault: {}", j.name, e);
        }
        nontrivial();
    }
    check(&r0, &[]);
    if n == 0 {
        return;
    }
    god(|| sim().fs = snap);
    let full = fdraw(4) == 1;
    if full {
        let room = [0u64, 1, 1000, 20_000][fdraw(4) as usize];
        god(|| {
            let used = sim().fs.used;
            sim().fs.capacity = Some(used + room);
            count("disk_full");
        });
    } else {
        plan_snipe(ALL, n, false);
    }
    set_benign(benign_rates());
    arm();
    let r = no_panic(j.name, || (j.go)());
    disarm();
    let f = fired();
    god(reset_faults);
    if !f.is_empty() || full {
        nontrivial();
    }
    state(&god(|| format!("{} {} {} {:?}", j.name, r0.is_ok(), r.is_ok(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()))));
    sample(god(|| format!("{} faults {:?} full {}: {:?}", j.name, f, full, r)));
    check(&r, &f);
}

pub static P: Prop = Prop {
    id: "P12",
    run,
    rule: "a run counts if an external program did not work, a system call was failed or the disk was full",
    state_measure: "operation x outcome without and with fault x first fault",
    stubs: "soffice and pdftoppm are models; file system behind the libc boundary; all of ppt-rs, zip and pdfrs is real",
    ..BASE
};
