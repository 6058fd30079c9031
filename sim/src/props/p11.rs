//! P11: concurrent callers never see each other's data.
use super::converters::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr;
use ppt_rs::export::image_export::*;
use std::rc::Rc;

struct Job {
    name: &'static str,
    dir: &'static str,
    go: Rc<dyn Fn() -> Result<String, String>>,
}

/// Everything below a directory, with package files by their parts.
fn outputs(dir: &str) -> String {
    god(|| {
        let mut s = String::new();
        for (p, v) in sim().fs.tree() {
            if !p.starts_with(dir) {
                continue;
            }
            match v {
                None => s.push_str(&format!("{}/ ", p)),
                Some(b) => match zipr::read(&b) {
                    Ok(q) => {
                        let mut h = 1u64;
                        for (n, d) in &q {
                            fnv(&mut h, n.as_bytes());
                            fnv(&mut h, &pkg::hash(d).to_le_bytes());
                        }
                        s.push_str(&format!("{}={} parts {:x} ", p, q.len(), h))
                    }
                    Err(_) => s.push_str(&format!("{}={} bytes {:x} ", p, b.len(), pkg::hash(&b))),
                },
            }
        }
        s
    })
}

fn job(i: usize, shared: &Rc<ppt_rs::api::Presentation>, kind: Option<u64>) -> Job {
    let dir: &'static str = god(|| Box::leak(format!("/t{}", i).into_boxed_str()));
    god(|| sim().fs.mkdir_p(dir));
    let at = |n: &str| -> &'static str { god(|| Box::leak(format!("{}/{}", dir, n).into_boxed_str())) };
    match kind.unwrap_or_else(|| w(8)) {
        0..=2 => {
            super::ops::set_in_dir(dir);
            let op = super::ops::choose();
            super::ops::set_in_dir("/in");
            let go = op.go.clone();
            let o = at("out.x");
            Job { name: op.name, dir, go: Rc::new(move || go(o).map(|_| String::new())) }
        }
        3 => {
            let op = &super::p05::OPS[w(super::p05::OPS.len() as u64) as usize];
            Job {
                name: op.name,
                dir,
                go: Rc::new(move || {
                    super::p05::set_paths("/in/d.pptx", dir);
                    let r = (op.go)();
                    super::p05::set_paths("/in/d.pptx", "/work");
                    r
                }),
            }
        }
        4 => {
            let p = if wc(1, 3) { shared.clone() } else { Rc::new(gen::deck(&gen::TEXT).presentation()) };
            let o = super::ops::image_options();
            let s = 1 + w(2) as usize;
            let (d, f) = (at("pics"), at("one.png"));
            match w(3) {
                0 => Job { name: "export_to_images", dir, go: Rc::new(move || e2s(export_to_images(&p, d, &o)).map(|v| god(|| format!("{:?}", v)))) },
                1 => Job { name: "export_slide_to_image", dir, go: Rc::new(move || e2s(export_slide_to_image(&p, s, f, &o)).map(|v| god(|| format!("{:?}", v)))) },
                _ => Job { name: "render_thumbnail", dir, go: Rc::new(move || e2s(render_thumbnail(&p, f, 80)).map(|v| god(|| format!("{:?}", v)))) },
            }
        }
        5 => {
            let f = at("doc.pdf");
            put(f, god(|| format!("%PDF-1.4 document {}", i)).as_bytes());
            if wc(1, 2) {
                let p = shared.clone();
                let d = at("png");
                return Job { name: "save_as_png", dir, go: Rc::new(move || e2s(p.save_as_png(d)).map(|_| String::new())) };
            }
            Job {
                name: "from_pdf",
                dir,
                go: Rc::new(move || {
                    let p = e2s(ppt_rs::api::Presentation::from_pdf(f))?;
                    let b = e2s(p.build())?;
                    let parts = read_parts("package", "deck made from a PDF", &b);
                    Ok(god(|| {
                        let v: Vec<u64> = pkg::slide_order(&parts)
                            .unwrap_or_default()
                            .iter()
                            .flat_map(|s| pkg::rels_of(&parts, s).into_iter().filter(|r| r.kind() == "image").map(|r| pkg::hash(&parts[&r.target])).collect::<Vec<_>>())
                            .collect();
                        format!("{} slides {:?}", p.slide_count(), v)
                    }))
                }),
            }
        }
        6 => {
            // one presentation used by several threads
            let p = shared.clone();
            match w(6) {
                4 | 5 => {
                    let v = super::ops::view();
                    Job { name: v.name, dir, go: Rc::new(move || (v.go)(&p)) }
                }
                0 => Job {
                    name: "build (shared)",
                    dir,
                    go: Rc::new(move || {
                        let b = e2s(p.build())?;
                        let q = read_parts("package", "in-memory build", &b);
                        Ok(god(|| q.iter().map(|(n, d)| format!("{} {:x};", n, pkg::hash(d))).collect()))
                    }),
                },
                1 => {
                    let o = at("out.pptx");
                    Job { name: "save (shared)", dir, go: Rc::new(move || e2s(p.save(o)).map(|_| String::new())) }
                }
                2 => {
                    let o = at("out.html");
                    Job { name: "save_as_html (shared)", dir, go: Rc::new(move || e2s(p.save_as_html(o)).map(|_| String::new())) }
                }
                _ => {
                    let o = at("out.pptx");
                    let opt = super::ops::comp_options();
                    Job { name: "compress (shared)", dir, go: Rc::new(move || e2s(p.compress(o, &opt)).map(|r| god(|| format!("{} {}", r.original_size > 0, r.unused_media_removed)))) }
                }
            }
        }
        _ => {
            let (_, b) = super::ops::deck_bytes(&gen::FULL);
            let opt = super::ops::comp_options();
            match w(6) {
                3 => {
                    let m = super::texts::rich_markdown(&[]);
                    Job { name: "parse_markdown", dir, go: Rc::new(move || ppt_rs::cli::parse_markdown(&m).map(|s| god(|| format!("{:?}", s)))) }
                }
                4 => {
                    let h = super::texts::rich_html(&[]);
                    Job { name: "parse_html", dir, go: Rc::new(move || ppt_rs::import::parse_html(&h).map(|s| god(|| format!("{:?}", s)))) }
                }
                5 => {
                    let d = gen::deck(&gen::FULL);
                    Job {
                        name: "in-memory build",
                        dir,
                        go: Rc::new(move || {
                            let q = read_parts("package", "in-memory build", &d.build()?);
                            Ok(god(|| q.iter().map(|(n, d)| format!("{} {:x};", n, pkg::hash(d))).collect()))
                        }),
                    }
                }
                0 => Job {
                    name: "compress_pptx_in_memory",
                    dir,
                    go: Rc::new(move || {
                        let (b, r) = e2s(ppt_rs::opc::compress::compress_pptx_in_memory(&b, &opt))?;
                        let q = read_parts("package", "compressed deck", &b);
                        Ok(god(|| format!("{} {:?}", r.unused_media_removed, q.iter().map(|(n, d)| format!("{} {:x};", n, pkg::hash(d))).collect::<String>())))
                    }),
                },
                1 => Job { name: "validate_package_bytes", dir, go: Rc::new(move || {
                    let r = ppt_rs::core::validate_package_bytes(&b);
                    Ok(god(|| format!("{:?}", r)))
                }) },
                _ => Job {
                    name: "highlight markdown",
                    dir,
                    go: Rc::new(move || {
                        let f = at_leak(dir, "c.md");
                        put(f, b"# Code\n\n```rust\nfn main() { let x = 1; }\n```\n\n```python\nprint('a')\n```\n");
                        ppt_rs::cli::FromMarkdownCommand::execute(f, at_leak(dir, "c.pptx"), None).map(|_| String::new())
                    }),
                },
            }
        }
    }
}
fn at_leak(dir: &str, n: &str) -> &'static str {
    god(|| Box::leak(format!("{}/{}", dir, n).into_boxed_str()))
}

pub struct Ptr<T>(pub T);
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}

pub fn concurrently(fs: Vec<Rc<dyn Fn() -> Result<String, String>>>) -> Vec<Result<Result<String, String>, String>> {
    let out = Ptr(Rc::new(std::cell::RefCell::new(god(|| fs.iter().map(|_| None).collect::<Vec<Option<Result<Result<String, String>, String>>>>()))));
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        let c = Ptr((f, out.0.clone()));
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let c = c;
                let r = call(|| (c.0 .0)());
                god(|| c.0 .1.borrow_mut()[i] = Some(r));
            })
            .unwrap();
        hs.push(h);
    }
    for h in hs {
        let _ = h.join();
    }
    god(|| out.0.borrow_mut().iter_mut().map(|x| x.take().unwrap_or(Err("the thread died".into()))).collect())
}
pub fn schedule() {
    let p = [8u64, 40, 110, 200][fdraw(4) as usize];
    let a = [0u32, 1000, 200, 40][fdraw(4) as usize];
    let e = [0u32, 10, 13, 16][fdraw(4) as usize];
    god(|| {
        sim().preempt = p;
        sim().alloc_yield = a;
        crate::rt::edges(e);
    });
}
pub fn unschedule() {
    god(|| {
        sim().preempt = 0;
        sim().alloc_yield = 0;
        crate::rt::edges(0);
    });
}

fn one_path() {
    // several writers and readers of one path
    let n = 2 + w(2) as usize;
    let mut allowed: Vec<u64> = vec![];
    let mut fs: Vec<Rc<dyn Fn() -> Result<String, String>>> = vec![];
    let (_, old) = super::ops::deck_bytes(&gen::TEXT);
    put("/shared/out.pptx", &old);
    let key = |b: &[u8]| -> u64 {
        let p = read_parts("package", "package", b);
        god(|| pkg::hash(format!("{:?}", p.iter().map(|(n, d)| (n.clone(), pkg::hash(d))).collect::<Vec<_>>()).as_bytes()))
    };
    allowed.push(key(&old));
    for _ in 0..n {
        let p = gen::deck(&gen::TEXT).presentation();
        allowed.push(key(&must("build", p.build())));
        fs.push(Rc::new(move || e2s(p.save("/shared/out.pptx")).map(|_| String::new())));
    }
    let r = 1 + w(2);
    for _ in 0..r {
        let via = w(2);
        fs.push(Rc::new(move || {
            let k = if via == 0 {
                e2s(ppt_rs::opc::Package::open("/shared/out.pptx")).map(|p| {
                    god(|| {
                        let mut v: Vec<(String, u64)> = p.part_paths().iter().map(|n| (n.to_string(), pkg::hash(p.get_part(n).unwrap_or(b"")))).collect();
                        v.sort();
                        pkg::hash(format!("{:?}", v).as_bytes())
                    })
                })?
            } else {
                let b = e2s(std::fs::read("/shared/out.pptx"))?;
                let p = god(|| zipr::read(&b))?;
                god(|| pkg::hash(format!("{:?}", p.iter().map(|(n, d)| (n.clone(), pkg::hash(d))).collect::<Vec<_>>()).as_bytes()))
            };
            Ok(god(|| k.to_string()))
        }));
    }
    schedule();
    let res = concurrently(fs);
    unschedule();
    nontrivial();
    state(&god(|| format!("one path {} writers {:x}", n, sim().sched_hash)));
    sample(god(|| format!("{} writers and {} readers of one path: {:?}", n, r, res.iter().map(|x| matches!(x, Ok(Ok(_)))).collect::<Vec<_>>())));
    for (i, x) in res.iter().enumerate() {
        match x {
            Err(e) => viol!("panic", "a concurrent {} panicked: {}", if i < n { "save" } else { "read" }, e),
            Ok(Err(e)) => viol!("interference", "a {} failed because another thread used the same path: {}", if i < n { "save" } else { "read" }, e),
            Ok(Ok(k)) if i >= n => {
                if !god(|| allowed.iter().any(|a| a.to_string() == *k)) {
                    viol!("mixed", "a reader saw contents that nobody wrote");
                }
            }
            _ => {}
        }
    }
    let end = get("/shared/out.pptx").unwrap_or_default();
    if !allowed[1..].contains(&key(&end)) {
        viol!("mixed", "after {} saves the path holds none of their presentations", n);
    }
    let t: Vec<String> = god(|| sim().fs.tree().keys().filter(|k| k.starts_with("/shared/") && *k != "/shared/out.pptx").cloned().collect());
    if !t.is_empty() {
        viol!("leaked", "concurrent saves left {:?}", t);
    }
}

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    gen::REPEAT.with(|r| r.set(wc(1, 2)));
    god(|| {
        for d in ["/tmp", "/work", "/shared", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    if wc(1, 5) {
        return one_path();
    }
    let (_, stored) = super::ops::deck_bytes(&gen::FULL);
    put("/in/d.pptx", &stored);
    let naming = [Naming::Slide, Naming::First, Naming::Stem][w(3) as usize];
    soffice(Mode::Good, naming, wc(1, 2), false);
    pdftoppm(Mode::Good, 3 + w(9) as usize, wc(1, 2), false);
    let dv: Vec<u64> = (0..8).map(|_| 1_000 + fdraw(50_000_000)).collect();
    let mut k = 0;
    god(|| {
        sim().prog_delay = Some(Box::new(move |_| {
            k += 1;
            dv[k % dv.len()]
        }))
    });
    let shared = Rc::new(gen::deck(&gen::TEXT).presentation());
    let n = 2 + w(3) as usize;
    // sometimes all do the same kind of thing
    let kind = if wc(1, 3) { Some(w(8)) } else { None };
    let jobs: Vec<Job> = (0..n).map(|i| job(i, &shared, kind)).collect();
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    // what each gives in a process where nothing else happened
    let want: Vec<(Result<Result<String, String>, String>, String)> = jobs
        .iter()
        .map(|j| {
            twin(|| {
                let r = call(|| (j.go)());
                let o = outputs(j.dir);
                (r, o)
            })
        })
        .collect();
    // the caches may be cold or warm
    if wc(1, 2) {
        for j in &jobs {
            if wc(1, 2) {
                let _ = call(|| (j.go)());
                god(|| sim().fs = snap.clone());
            }
        }
    }
    god(|| sim().fs = snap.clone());
    // a fault that hits one caller stays with that caller
    let victim = if fdraw(3) == 1 { Some(fdraw(n as u64) as usize) } else { None };
    if let Some(v) = victim {
        let d = god(|| format!("{}/", jobs[v].dir));
        let at = fdraw(30);
        let sel = fdraw(6);
        let st = fdraw(2) == 1;
        god(|| {
            let f = &mut sim().faults;
            f.hard_calls = READS | WRITES;
            f.filter = Some(Box::new(move |_, p: &str| p.contains(&d)));
            f.snipe = vec![(at, sel)];
            f.sticky = st;
        });
        arm();
    }
    schedule();
    let got = concurrently(god(|| jobs.iter().map(|j| j.go.clone()).collect()));
    unschedule();
    disarm();
    let hit = fired_any();
    god(reset_faults);
    let outs: Vec<String> = jobs.iter().map(|j| outputs(j.dir)).collect();
    let rest: Vec<String> = god(|| sim().fs.tree().keys().filter(|k| k.starts_with("/tmp/")).cloned().collect());
    nontrivial();
    state(&god(|| format!("{:?} {:x}", jobs.iter().map(|j| j.name).collect::<Vec<_>>(), sim().sched_hash)));
    sample(god(|| format!("{:?} {} switches", jobs.iter().map(|j| j.name).collect::<Vec<_>>(), sim().switches)));
    for (i, j) in jobs.iter().enumerate() {
        if hit && victim == Some(i) {
            if let Err(m) = &got[i] {
                viol!("panic", "{} panicked: {}", j.name, m);
            }
            continue;
        }
        let others: Vec<&str> = god(|| jobs.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1.name).collect());
        match (&got[i], &want[i].0) {
            (Ok(Ok(a)), Ok(Ok(b))) => {
                if a != b {
                    viol!("interference", "{} beside {:?} returned {:?} instead of {:?}", j.name, others, cut(a, b), cut(b, a));
                }
            }
            (Ok(Err(_)), Ok(Err(_))) => {}
            (Ok(Err(e)), Ok(Ok(_))) => viol!("interference", "{} beside {:?} failed, but succeeds alone: {}", j.name, others, e),
            (Ok(Ok(_)), Ok(Err(e))) => viol!("interference", "{} beside {:?} succeeded, but fails alone: {}", j.name, others, e),
            (Err(m), _) => viol!("panic", "{} beside {:?} panicked: {}", j.name, others, m),
            (_, Err(m)) => viol!("panic", "{} panicked: {}", j.name, m),
        }
        if outs[i] != want[i].1 {
            viol!("interference", "{} beside {:?} wrote {:?} instead of {:?}", j.name, others, cut(&outs[i], &want[i].1), cut(&want[i].1, &outs[i]));
        }
    }
    if !rest.is_empty() {
        viol!("leaked", "concurrent calls left {:?}", rest);
    }
}
fn cut(a: &str, b: &str) -> String {
    god(|| {
        let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        a.chars().skip(i.saturating_sub(40)).take(160).collect()
    })
}

pub static P: Prop = Prop {
    id: "P11",
    run,
    secs: 70,
    rule: "every run lets two to five threads work at the same time",
    state_measure: "kinds of concurrent operations x hash of the interleaving",
    stubs: "threads are real but run one at a time under the seeded scheduler, which switches at system calls, lock operations and allocations; soffice and pdftoppm are models; all of ppt-rs is real",
    ..BASE
};
