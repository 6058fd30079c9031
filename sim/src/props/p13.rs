//! P13: unreliable image sources never yield an inconsistent package.
use super::util::*;
use super::web::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::simnet::*;
use crate::xmlp;
use ppt_rs::generator::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Src {
    Memory,
    BadBase64,
    File,
    MissingFile,
    Url,
}
struct Wanted {
    slide: usize,
    x: u32,
    src: Src,
    path: String,
    /// every complete version the source ever had
    versions: Vec<Vec<u8>>,
    fmt: &'static str,
    /// it cannot be loaded at all
    hopeless: bool,
    /// it may fail to load, or be gone for a while
    shaky: bool,
}

struct Lazy(Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}

fn bytes_of(fmt: &str) -> Vec<u8> {
    let len = [40u64, 300, 5000, 40_000, 150_000][w(5) as usize];
    let u = w(1_000_000_000);
    god(|| gen::image_of(fmt, u, len as usize))
}

fn mime(fmt: &str) -> &'static str {
    match fmt {
        "PNG" => "image/png",
        "GIF" => "image/gif",
        "BMP" => "image/bmp",
        _ => "image/jpeg",
    }
}

/// The picture at each of our positions: x -> (media part, declared type, bytes)
fn pictures(parts: &crate::zipr::Parts, slide: &str) -> Result<Vec<(u32, String, String, Vec<u8>)>, String> {
    let e = xmlp::parse(&parts[slide])?;
    let rels = pkg::rels_of(parts, slide);
    let types = pkg::types(parts)?;
    let mut v = vec![];
    for p in e.all("pic") {
        let x: u32 = match p.all("off").first().and_then(|o| o.attr("x")).and_then(|x| x.parse().ok()) {
            Some(x) => x,
            None => continue,
        };
        let blip = p.all("blip").first().and_then(|b| b.attr("r:embed")).unwrap_or("").to_string();
        let r = rels.iter().find(|r| r.id == blip).ok_or_else(|| format!("picture at {} refers to {:?}, which {} does not define", x, blip, pkg::rels_name(slide)))?;
        let d = parts.get(&r.target).ok_or_else(|| format!("picture at {} leads to {}, which is not stored", x, r.target))?;
        v.push((x, r.target.clone(), pkg::content_type(&types, &r.target).unwrap_or_default(), d.clone()));
    }
    Ok(v)
}

/// The size of a picture in a file, which may be damaged or hard to read.
fn detect() {
    let fmt = gen::img_fmt();
    let mut b = bytes_of(fmt);
    let head = b.len().min(60) as u64;
    let what = w(5);
    let intact = what == 0;
    match what {
        0 => {}
        1 => god(|| b.truncate(w(head + 1) as usize)),
        2 => {
            for _ in 0..1 + w(4) {
                let i = w(head) as usize;
                b[i] = w(256) as u8;
            }
        }
        3 => {
            let i = 2 + w(head - 2) as usize;
            let n = (1 + w(8) as usize).min(b.len() - i);
            b[i..i + n].fill([0xff, 0, 0xc0][w(3) as usize]);
        }
        _ => {
            // a tail of a picture, or none at all
            let i = w(head) as usize;
            god(|| {
                b.drain(..i);
                b.insert(0, 0xd8);
                b.insert(0, 0xff);
                b.resize(40, 7);
            });
            // a picture that ends where another marker begins
            if wc(1, 2) {
                let at = 2 + w(38) as usize;
                god(|| b.iter_mut().for_each(|x| *x = (*x).min(0xbf)));
                b[0] = 0xff;
                b[1] = 0xd8;
                b[at.min(39)] = 0xff;
                b[39] = 0xff;
            }
        }
    }
    let name = "/src/any picture.bin";
    put(name, &b);
    let short_read = wc(1, 2);
    if short_read {
        let (_, n) = measure(READS, None, || Image::from_path(name));
        plan_snipe(READS, n, wc(1, 3));
        set_benign(benign_rates());
        arm();
    }
    let r = no_panic("Image::from_path", || Image::from_path(name));
    disarm();
    let f = fired();
    god(reset_faults);
    match r {
        Err(e) if intact && f.is_empty() => viol!("source", "an intact {} picture is not accepted: {}", fmt, e),
        Ok(i) if intact => {
            // 20 by 10 pixels at 96 dots per inch
            let same = i.format == fmt || matches!((i.format.as_str(), fmt), ("JPEG", "JPG") | ("JPG", "JPEG"));
            if (i.width, i.height) != (190_500, 95_250) || !same {
                viol!("source", "a {} picture of 20 x 10 pixels is taken for {} of {} x {} {:?}", fmt, i.format, i.width, i.height, f);
            }
        }
        _ => {}
    }
    god(|| sim().fs.remove(name));
}

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    god(|| {
        for d in ["/tmp", "/work", "/src", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let o = gen::Opt { max_slides: 3, ..gen::FULL };
    let deck = gen::deck(&o);
    if wc(1, 3) {
        detect();
    }
    let site = super::web::install();
    let n = 1 + w(5) as usize;
    let mut slides = deck.slides.clone();
    let mut wanted: Vec<Wanted> = vec![];
    let mut urls = 0;
    for k in 0..n {
        let slide = w(slides.len() as u64) as usize;
        let x = 5_000_000 + k as u32;
        let fmt = gen::img_fmt();
        let src = match w(12) {
            0..=4 => Src::File,
            5 | 6 => Src::Memory,
            7 => Src::MissingFile,
            8 => Src::BadBase64,
            _ if urls < 2 => Src::Url,
            _ => Src::File,
        };
        // the same source again, sometimes
        if k > 0 && wc(1, 6) {
            let (src, path, versions, fmt, hopeless, shaky) = {
                let p = &wanted[w(k as u64) as usize];
                (p.src, p.path.clone(), p.versions.clone(), p.fmt, p.hopeless, p.shaky)
            };
            if matches!(src, Src::File | Src::Url) {
                let im = if src == Src::Url { Image::from_url(&path, 900_000, 900_000, fmt) } else { Image::new(&path, 900_000, 900_000, fmt) };
                slides[slide] = slides[slide].clone().add_image(im.position(x, 7));
                wanted.push(Wanted { slide, x, src, path, versions, fmt, hopeless, shaky });
                continue;
            }
        }
        let mut wnt = Wanted { slide, x, src, path: String::new(), versions: vec![], fmt, hopeless: false, shaky: false };
        let im = match src {
            Src::Memory => {
                let b = bytes_of(fmt);
                wnt.versions.push(b.clone());
                if wc(1, 2) {
                    Image::from_bytes(b, 900_000, 900_000, fmt)
                } else {
                    Image::from_base64(&god(|| gen::b64(&b)), 900_000, 900_000, fmt)
                }
            }
            Src::BadBase64 => {
                wnt.hopeless = true;
                Image::from_base64("!!! not base64 at all ***", 900_000, 900_000, fmt)
            }
            Src::File => {
                wnt.path = god(|| format!("/src/pic{}.{}", k, fmt.to_lowercase()));
                for _ in 0..1 + w(3) {
                    wnt.versions.push(bytes_of(fmt));
                }
                put(&wnt.path, &wnt.versions[0]);
                if wc(1, 3) {
                    match Image::from_path(&wnt.path) {
                        Ok(mut i) => {
                            i.format = fmt.to_string();
                            i
                        }
                        Err(e) => viol!("source", "an existing {} image is not accepted: {}", fmt, e),
                    }
                } else {
                    Image::new(&wnt.path, 900_000, 900_000, fmt)
                }
            }
            Src::MissingFile => {
                wnt.hopeless = true;
                wnt.path = god(|| format!("/src/none{}.{}", k, fmt.to_lowercase()));
                let p = if wc(1, 4) {
                    god(|| sim().fs.mkdir_p(&wnt.path));
                    wnt.path.clone()
                } else {
                    wnt.path.clone()
                };
                Image::new(&p, 900_000, 900_000, fmt)
            }
            Src::Url => {
                urls += 1;
                let host = god(|| format!("img{}.test", k));
                let beh = choose_beh(1, 2);
                wnt.path = god(|| format!("http://{}/a/pic.{}", host, fmt.to_lowercase()));
                for _ in 0..1 + w(2) {
                    wnt.versions.push(bytes_of(fmt));
                }
                add(&site, &god(|| format!("{}/a/pic.{}", host, fmt.to_lowercase())), mime(fmt), wnt.versions.clone(), beh);
                wnt.hopeless = !beh.good();
                match w(12) {
                    0 => {
                        conn(&host, ConnPlan::Refuse(3_000_000));
                        wnt.hopeless = true;
                    }
                    1 => {
                        conn(&host, ConnPlan::Blackhole);
                        wnt.hopeless = true;
                    }
                    2 => {
                        dns(&host, DnsPlan::NoName(5_000_000));
                        wnt.hopeless = true;
                    }
                    _ => {}
                }
                Image::from_url(&wnt.path, 900_000, 900_000, fmt)
            }
        };
        slides[slide] = slides[slide].clone().add_image(im.position(x, 7));
        wanted.push(wnt);
    }
    god(|| sim().net.short_recv = [0, 40, 200][fdraw(3) as usize]);

    // what another process does to the files meanwhile
    let mut changes: Vec<(usize, u64, u64)> = vec![]; // source, what, how many steps later
    let files: Vec<usize> = (0..wanted.len()).filter(|i| wanted[*i].src == Src::File).collect();
    if !files.is_empty() && wc(2, 3) {
        for _ in 0..1 + w(6) {
            let f = files[w(files.len() as u64) as usize];
            let what = w(4);
            changes.push((f, what, w(40)));
            if what == 1 || what == 3 {
                let p = wanted[f].path.clone();
                for q in wanted.iter_mut().filter(|q| q.path == p) {
                    q.shaky = true;
                }
            }
        }
    }
    let plain = gen::Deck { title: deck.title.clone(), slides: deck.slides.clone(), settings: deck.settings.clone() };
    let base = must("build of the deck without the extra images", plain.build());
    let base = god(|| pkg::deck_view(&read_parts("package", "plain deck", &base)));
    let base = match base {
        Ok(b) => b,
        Err(e) => viol!("package", "plain deck: {}", e),
    };

    let route = w(5);
    let (title, settings) = (deck.title.clone(), deck.settings.clone());
    let go = || -> Result<Vec<u8>, String> {
        let s = || slides.clone();
        match route {
            0 => e2s(create_pptx_with_settings(&title, &slides, settings.clone())),
            1 => e2s(create_pptx_with_content_to_writer(std::io::Cursor::new(vec![]), &title, &slides, settings.clone())).map(|c| c.into_inner()),
            2 | 3 => e2s(create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), &title, Box::new(Lazy(s())), settings.clone())).map(|c| c.into_inner()),
            _ => {
                let mut p = ppt_rs::api::Presentation::with_title(&title);
                for s in &slides {
                    p = p.add_slide(s.clone());
                }
                e2s(p.save("/work/o.pptx"))?;
                e2s(std::fs::read("/work/o.pptx"))
            }
        }
    };

    let filter = || -> Option<Box<dyn Fn(Call, &str) -> bool>> { Some(Box::new(|_, p: &str| p.starts_with("/src/"))) };
    let mut f = vec![];
    if !files.is_empty() && changes.is_empty() && wc(2, 3) {
        // faults of the storage holding the images
        let (_, c) = measure(READS, filter(), || {
            for i in &files {
                let _ = std::fs::read(&wanted[*i].path);
            }
        });
        plan_snipe(READS, c * 2, wc(1, 4));
        god(|| sim().faults.filter = filter());
        set_benign(benign_rates());
        arm();
    } else if wc(1, 2) {
        set_benign(benign_rates());
        arm();
    }
    let t0 = god(|| sim().now);
    let changed = Rc::new(std::cell::Cell::new(0u32));
    let r = if changes.is_empty() {
        no_panic("build", go)
    } else {
        let ch: Vec<(String, Option<Vec<u8>>, u64)> = changes
            .iter()
            .map(|(i, what, steps)| {
                let q = &wanted[*i];
                (q.path.clone(), if *what == 1 || *what == 3 { None } else { Some(q.versions[w(q.versions.len() as u64) as usize].clone()) }, *steps)
            })
            .collect();
        let c = super::p11::Ptr((ch, changed.clone()));
        let h = std::thread::Builder::new()
            .spawn(move || {
                let c = c;
                for (p, v, steps) in &c.0 .0 {
                    for _ in 0..*steps {
                        god(|| sched_yield_now());
                    }
                    god(|| {
                        // another process: replaces the file in one step, or removes it
                        match v {
                            Some(b) => {
                                sim().fs.remove(p);
                                sim().fs.put(p, b);
                            }
                            None => sim().fs.remove(p),
                        }
                        count("source_changed");
                        c.0 .1.set(c.0 .1.get() + 1);
                    });
                }
            })
            .unwrap();
        super::p11::schedule();
        let r = no_panic("build", go);
        super::p11::unschedule();
        let _ = h.join();
        r
    };
    disarm();
    f.extend(fired());
    god(reset_faults);
    let took = god(|| sim().now - t0);
    let hopeless = wanted.iter().any(|q| q.hopeless);
    let shaky = wanted.iter().any(|q| q.shaky);
    if hopeless || shaky || !f.is_empty() || !changes.is_empty() {
        nontrivial();
    }
    state(&god(|| format!("{:?} {:?} {} {} {} {:x}", wanted.iter().map(|q| (q.src, q.hopeless, q.shaky)).collect::<Vec<_>>(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()), route, changes.len(), r.is_ok(), sim().sched_hash)));
    sample(god(|| {
        format!(
            "route {} images {:?} changes {} faults {:?}: {}",
            route,
            wanted.iter().map(|q| (q.src, q.hopeless, q.versions.len())).collect::<Vec<_>>(),
            changes.len(),
            f,
            match &r {
                Ok(b) => format!("ok {} bytes", b.len()),
                Err(e) => format!("error: {}", crate::ctx::short(e.as_bytes())),
            }
        )
    }));
    // every fetch of an image is bounded by the client's own timeout
    let fetches = god(|| site.borrow().pages.values().map(|p| p.hits as u64).sum::<u64>()) + 4 * urls as u64 + 4;
    if took > 45_000_000_000 * fetches {
        viol!("unbounded", "the build took {} simulated seconds for {} fetches", took / 1_000_000_000, fetches);
    }
    let b = match r {
        Err(e) => {
            probe("error");
            if !hopeless && !shaky && f.is_empty() && wanted.iter().all(|q| q.versions.len() < 2) {
                viol!("unexpected-error", "every image can be loaded, yet the build failed: {}", e);
            }
            return;
        }
        Ok(b) => b,
    };
    probe("success");
    let parts = read_parts("package", "deck with unreliable images", &b);
    if let Some(e) = god(|| pkg::check(&parts)).first() {
        viol!("inconsistent", "{} (images {:?}, faults {:?})", e, god(|| wanted.iter().map(|q| (q.src, q.hopeless)).collect::<Vec<_>>()), f);
    }
    let order = match god(|| pkg::slide_order(&parts)) {
        Ok(o) if o.len() == slides.len() => o,
        Ok(o) => viol!("slides", "{} of {} slides", o.len(), slides.len()),
        Err(e) => viol!("inconsistent", "{}", e),
    };
    let mut used: Vec<String> = vec![];
    for (i, s) in order.iter().enumerate() {
        let got = match god(|| pictures(&parts, s)) {
            Ok(g) => g,
            Err(e) => viol!("inconsistent", "slide {}: {}", i + 1, e),
        };
        for q in wanted.iter().filter(|q| q.slide == i) {
            match got.iter().find(|g| g.0 == q.x) {
                None => {
                    if !q.hopeless && !q.shaky && f.is_empty() {
                        viol!("lost", "an image that loads ({:?} {}) is missing from slide {}", q.src, q.path, i + 1);
                    }
                    probe("left out");
                }
                Some((_, part, ct, d)) => {
                    if q.hopeless {
                        viol!("invented", "an image that cannot be loaded ({:?} {}) became {} bytes", q.src, q.path, d.len());
                    }
                    if !q.versions.iter().any(|v| v == d) {
                        let other = wanted.iter().position(|o| o.versions.iter().any(|v| v == d));
                        viol!(
                            "content",
                            "the picture of {:?} {} is not one complete version of it ({} bytes; {})",
                            q.src,
                            q.path,
                            d.len(),
                            match other {
                                Some(o) => format!("it is the picture of {:?} {}", wanted[o].src, wanted[o].path),
                                None => "no source ever had these bytes".to_string(),
                            }
                        );
                    }
                    if ct != mime(q.fmt) && !(ct == "image/jpg" && mime(q.fmt) == "image/jpeg") {
                        viol!("type", "{} is declared {:?} but holds {}", part, ct, q.fmt);
                    }
                    used.push(part.clone());
                }
            }
        }
        // the rest of the slide is what it is without these images
        let v = match god(|| pkg::slide_view(&parts, s)) {
            Ok(v) => v,
            Err(e) => viol!("inconsistent", "{}", e),
        };
        let bv = &base[i];
        if v.texts != bv.texts || v.notes != bv.notes || v.charts != bv.charts || v.links != bv.links {
            viol!("slides", "slide {} changed because of its images: {:?} instead of {:?}", i + 1, v.texts, bv.texts);
        }
        if !bv.media.iter().all(|m| v.media.contains(m)) {
            viol!("lost", "slide {} lost an image that was in memory", i + 1);
        }
        if got.len() > bv.media.len() + wanted.iter().filter(|q| q.slide == i).count() {
            viol!("slides", "slide {} shows {} pictures", i + 1, got.len());
        }
    }
    let orphans = god(|| pkg::orphans(&parts));
    if let Some(o) = orphans.iter().find(|o| o.starts_with("ppt/media/")) {
        viol!("inconsistent", "{} is stored but nothing refers to it", o);
    }
}

pub static P: Prop = Prop {
    id: "P13",
    run,
    rule: "a run counts if a source could not be loaded, was changed during the build, or a system call on it was failed",
    state_measure: "kind and reliability of each image x first fault x route x interleaving hash x outcome",
    stubs: "image servers, name lookup and the file system are simulated behind the libc boundary; reqwest, hyper, tokio and ppt-rs are real",
    ..BASE
};
