//! P16: output does not depend on hidden randomness.
use super::converters::*;
use super::texts::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr;
use ppt_rs::oxml::repair::PptxRepair;
use std::rc::Rc;

struct Job {
    name: &'static str,
    go: Rc<dyn Fn() -> Result<String, String>>,
}
const DIR: &str = "/t";

/// Names that are meant to be unique.
pub fn no_uuid(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let shape = [8, 4, 4, 4, 12];
    while i < b.len() {
        let mut j = i;
        let ok = shape.iter().enumerate().all(|(k, n)| {
            if k > 0 {
                if b.get(j) != Some(&'-') {
                    return false;
                }
                j += 1;
            }
            let r = (j..j + n).all(|x| b.get(x).map_or(false, |c| c.is_ascii_hexdigit()));
            j += n;
            r
        });
        if ok {
            out.push_str("<uuid>");
            i = j;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
/// Everything below the output directory; packages by their parts.
fn outputs() -> Vec<(String, Option<super::ops::Content>)> {
    god(|| {
        sim()
            .fs
            .tree()
            .into_iter()
            .filter(|(p, _)| p.starts_with(DIR))
            .map(|(p, v)| {
                let c = v.map(|b| match zipr::read(&b) {
                    Ok(q) => super::ops::Content::Parts(q.into_iter().map(|(n, d)| (no_uuid(&n), mask(d))).collect()),
                    Err(_) => super::ops::Content::Bytes(mask(b)),
                });
                (no_uuid(&p), c)
            })
            .collect()
    })
}
fn mask(d: Vec<u8>) -> Vec<u8> {
    match String::from_utf8(d) {
        Ok(s) if s.contains('-') => no_uuid(&s).into_bytes(),
        Ok(s) => s.into_bytes(),
        Err(e) => e.into_bytes(),
    }
}
fn leak(s: String) -> &'static str {
    god(|| Box::leak(s.into_boxed_str()))
}

/// Operations on one input; `slot` keeps the inputs of several jobs apart.
fn job(slot: usize) -> Job {
    let ind = leak(god(|| format!("/in{}", slot)));
    god(|| sim().fs.mkdir_p(ind));
    let at = |n: &str| -> &'static str { leak(god(|| format!("{}/{}", DIR, n))) };
    let inp = |n: &str| -> &'static str { leak(god(|| format!("{}/{}", ind, n))) };
    match w(14) {
        0 | 1 => {
            super::ops::set_in_dir(ind);
            let op = super::ops::choose();
            super::ops::set_in_dir("/in");
            let go = op.go.clone();
            let o = at("out.x");
            Job { name: op.name, go: Rc::new(move || go(o).map(|_| String::new())) }
        }
        2 => {
            let op = &super::p05::OPS[w(super::p05::OPS.len() as u64) as usize];
            let (_, b) = super::ops::deck_bytes(&gen::FULL);
            let i = inp("d.pptx");
            put(i, &b);
            Job {
                name: op.name,
                go: Rc::new(move || {
                    super::p05::set_paths(i, DIR);
                    let r = (op.go)();
                    super::p05::set_paths("/in/d.pptx", "/work");
                    r
                }),
            }
        }
        3 | 4 => {
            let pics = [inp("a.png").to_string(), inp("b.jpg").to_string(), "missing.png".into()];
            put(inp("a.png"), &gen::image_bytes("PNG"));
            put(inp("b.jpg"), &gen::image_bytes("JPG"));
            let m = rich_markdown(&pics);
            let (i, o) = (inp("doc.md"), at("md.pptx"));
            put(i, m.as_bytes());
            Job { name: "rich markdown", go: Rc::new(move || ppt_rs::cli::FromMarkdownCommand::execute(i, o, None).map(|_| String::new())) }
        }
        5 => {
            let m = rich_html(&[]);
            let (i, o) = (inp("doc.html"), at("html.pptx"));
            put(i, m.as_bytes());
            let (x, y, z) = (wc(1, 2), wc(1, 2), wc(1, 2));
            Job { name: "rich html", go: Rc::new(move || ppt_rs::cli::FromHtmlCommand::execute(i, o, None, 20, 8, x, y, z).map(|_| String::new())) }
        }
        6 | 7 => {
            // a damaged deck: reports and repair
            let (mut p, _) = super::edits::start_deck(true);
            super::p08::damage(&mut p);
            let v: Vec<(String, Vec<u8>)> = god(|| p.into_iter().collect());
            let b = god(|| zipr::write(&v, &mut |_| false));
            let i = inp("bad.pptx");
            put(i, &b);
            let o = at("repaired.pptx");
            match w(4) {
                0 => Job {
                    name: "validate_package",
                    go: Rc::new(move || {
                        let b = e2s(std::fs::read(i))?;
                        let r = ppt_rs::core::validate_package_bytes(&b);
                        Ok(god(|| format!("{:?}", r)))
                    }),
                },
                1 => Job { name: "ValidateCommand", go: Rc::new(move || ppt_rs::cli::ValidateCommand::execute(i, true).map(|_| String::new())) },
                _ => Job {
                    name: "repair",
                    go: Rc::new(move || {
                        let mut r = e2s(PptxRepair::open(i))?;
                        let a = god(|| format!("{:?}", r.validate()));
                        let x = r.repair();
                        e2s(r.save(o))?;
                        Ok(god(|| format!("{} {:?}", a, x)))
                    }),
                },
            }
        }
        8 => {
            let p = Rc::new(gen::deck(&gen::TEXT).presentation());
            let (d, f, h) = (at("pics"), at("one.png"), at("png"));
            let s = 1 + w(2) as usize;
            use ppt_rs::export::image_export::*;
            let o = super::ops::image_options();
            match w(4) {
                0 => Job { name: "export_to_images", go: Rc::new(move || e2s(export_to_images(&p, d, &o)).map(|v| god(|| format!("{:?}", v)))) },
                1 => Job { name: "export_slide_to_image", go: Rc::new(move || e2s(export_slide_to_image(&p, s, f, &o)).map(|v| god(|| format!("{:?}", v)))) },
                2 => Job { name: "render_thumbnail", go: Rc::new(move || e2s(render_thumbnail(&p, f, 80)).map(|v| god(|| format!("{:?}", v)))) },
                _ => Job { name: "save_as_png", go: Rc::new(move || e2s(p.save_as_png(h)).map(|_| String::new())) },
            }
        }
        9 => {
            let f = inp("doc.pdf");
            put(f, b"%PDF-1.4 document");
            let o = at("pdf.pptx");
            Job {
                name: "from_pdf",
                go: Rc::new(move || {
                    let p = e2s(ppt_rs::api::Presentation::from_pdf(f))?;
                    e2s(p.save(o)).map(|_| String::new())
                }),
            }
        }
        10 => {
            // an editing history
            let (p, _) = super::edits::start_deck(true);
            let n = god(|| pkg::slide_order(&p)).map(|o| o.len()).unwrap_or(0).max(1) as u64;
            let v: Vec<(String, Vec<u8>)> = god(|| p.into_iter().collect());
            let b = god(|| zipr::write(&v, &mut |_| false));
            let (i, o) = (inp("edit.pptx"), at("edited.pptx"));
            put(i, &b);
            let steps: Vec<(u64, usize, usize)> = (0..1 + w(5)).map(|_| (w(5), w(n) as usize, w(n) as usize)).collect();
            let c = gen::slide(9, &gen::FULL);
            Job {
                name: "editor history",
                go: Rc::new(move || {
                    let mut e = e2s(ppt_rs::oxml::PresentationEditor::open(i))?;
                    let mut log = vec![];
                    for (k, a, b) in &steps {
                        log.push(match k {
                            0 => e.add_slide(c.clone()).map(|_| ()).map_err(|e| e.to_string()),
                            1 => e.remove_slide(*a).map_err(|e| e.to_string()),
                            2 => e.duplicate_slide(*a).map(|_| ()).map_err(|e| e.to_string()),
                            3 => e.reorder_slide(*a, *b).map_err(|e| e.to_string()),
                            _ => e.update_slide(*a, c.clone()).map_err(|e| e.to_string()),
                        });
                    }
                    e2s(e.save(o))?;
                    Ok(god(|| format!("{:?}", log)))
                }),
            }
        }
        11 | 12 => {
            let d = gen::deck(&gen::FULL);
            let mut p = d.presentation();
            if let Some(s) = &d.settings {
                p = p.with_settings(s.clone());
            }
            let v = super::ops::view();
            Job { name: v.name, go: Rc::new(move || (v.go)(&p)) }
        }
        _ => {
            let (_, b) = super::ops::deck_bytes(&gen::FULL);
            let opt = super::ops::comp_options();
            Job {
                name: "compress_pptx_in_memory",
                go: Rc::new(move || {
                    let (b, r) = e2s(ppt_rs::opc::compress::compress_pptx_in_memory(&b, &opt))?;
                    let q = read_parts("package", "compressed deck", &b);
                    // how large the container is may depend on the order of its entries
                    Ok(god(|| format!("{} {:?}", r.unused_media_removed, q.iter().map(|(n, d)| format!("{} {:x};", n, pkg::hash(d))).collect::<String>())))
                }),
            }
        }
    }
}

fn on_thread(go: &Rc<dyn Fn() -> Result<String, String>>, own: bool) -> Result<Result<String, String>, String> {
    if own {
        super::p11::concurrently(god(|| vec![go.clone()])).remove(0)
    } else {
        call(|| go())
    }
}

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    god(|| {
        for d in ["/tmp", "/work", "/in", DIR] {
            sim().fs.mkdir_p(d);
        }
    });
    let naming = [Naming::Slide, Naming::First, Naming::Stem][w(3) as usize];
    soffice(Mode::Good, naming, false, false);
    pdftoppm(Mode::Good, 2 + w(4) as usize, false, false);
    let main = job(0);
    let n = w(3) as usize;
    let before: Vec<Job> = (0..n).map(|i| job(i + 1)).collect();
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    let own = [fdraw(2) == 1, fdraw(2) == 1];
    let seeds = [fdraw(1 << 40), fdraw(1 << 40)];
    // the first time in another process
    type Out = (Result<Result<String, String>, String>, Vec<(String, Option<super::ops::Content>)>);
    let (a, oa): Out = twin(|| {
        god(|| sim().entropy = crate::choice::Rng::new(seeds[0]));
        let a = on_thread(&main.go, own[0]);
        (a, outputs())
    });
    if fdraw(3) == 1 {
        // it may have been called here before, too
        let _ = on_thread(&main.go, fdraw(2) == 1);
    }
    // other calls, which may fail
    for j in &before {
        god(|| sim().fs = snap.clone());
        if fdraw(2) == 1 {
            plan_snipe(READS | WRITES, 1 + fdraw(40), fdraw(2) == 1);
            arm();
        }
        let _ = on_thread(&j.go, fdraw(2) == 1);
        disarm();
        god(reset_faults);
    }
    god(|| {
        sim().fs = snap.clone();
        sim().entropy = crate::choice::Rng::new(seeds[1]);
    });
    let b = on_thread(&main.go, own[1]);
    let ob = outputs();
    let names: Vec<&str> = god(|| before.iter().map(|j| j.name).collect());
    nontrivial();
    state(&god(|| format!("{} after {:?} {:?}", main.name, names, own)));
    sample(god(|| format!("{} again after {:?}", main.name, names)));
    match (&a, &b) {
        (Ok(Ok(x)), Ok(Ok(y))) | (Ok(Err(x)), Ok(Err(y))) => {
            let (x, y) = god(|| (no_uuid(x), no_uuid(y)));
            if x != y {
                let c = |a: &str, b: &str| -> String {
                    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(0);
                    a.chars().skip(i.saturating_sub(60)).take(300).collect()
                };
                viol!("result", "{} gives {:?}, and after {:?} {:?}", main.name, c(&x, &y), names, c(&y, &x));
            }
        }
        (Err(m), _) | (_, Err(m)) => viol!("panic", "{} panicked: {}", main.name, m),
        (x, y) => viol!("result", "{} gives {:?}, and after {:?} {:?}", main.name, x, names, y),
    }
    god(|| {
        if oa.len() != ob.len() {
            viol!("output", "{}, again after {:?}, writes {} files instead of {}", main.name, names, ob.len(), oa.len());
        }
        for (x, y) in oa.iter().zip(&ob) {
            if x.0 != y.0 {
                viol!("output", "{}, again after {:?}, writes {} instead of {}", main.name, names, y.0, x.0);
            }
            if let (Some(c), Some(d)) = (&x.1, &y.1) {
                if let Some(e) = super::ops::diff(c, d) {
                    viol!("output", "{}, again after {:?}, writes another {}: {}", main.name, names, x.0, e);
                }
            }
        }
    });
}

pub static P: Prop = Prop {
    id: "P16",
    run,
    rule: "every run performs one operation twice, with other hash seeds and another history",
    state_measure: "operation x operations in between x threads used",
    stubs: "hash seeds and unique names come from the simulator's entropy; directory listings come in a drawn order; soffice and pdftoppm are models; all of ppt-rs is real",
    ..BASE
};
