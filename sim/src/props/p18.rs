//! P18: images that Markdown and HTML refer to are complete or absent.
use super::util::*;
use super::web::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::simnet::*;
use ppt_rs::generator::*;

const SEC: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;

struct Pic {
    /// as the document writes it
    src: String,
    data: Vec<u8>,
    /// it loads if nothing is made to fail
    good: bool,
    /// any outcome but an invented picture
    open: bool,
    local: bool,
    lookup: u64,
    what: &'static str,
}
#[derive(Default, Clone)]
struct Want {
    /// every mark of the slide in order
    marks: Vec<usize>,
    notes: Vec<usize>,
    pics: Vec<usize>,
}
#[derive(Clone)]
struct Doc {
    text: String,
    slides: Vec<Want>,
}

fn mark(n: &mut usize) -> (usize, String) {
    *n += 1;
    (*n, format!("m{}x", *n))
}
const WORDS: &[&str] = &["plain", "naïve café", "日本語", "a & b"];

fn pics(site: &SiteRef) -> Vec<Pic> {
    let n = 1 + w(4) as usize;
    let mut v: Vec<Pic> = vec![];
    let mut urls = 0;
    for k in 0..n {
        let fmt = gen::img_fmt();
        let len = [60u64, 300, 5000, 40_000, 150_000][w(5) as usize];
        let u = w(1_000_000_000);
        let mut data = god(|| gen::image_of(fmt, u, len as usize));
        let mut open = false;
        if wc(1, 8) {
            // whatever was supplied, it is not much of a picture
            let l = w(8) as usize;
            data = god(|| b"Gone\r\n!!"[..l].to_vec());
            open = true;
        }
        let mut p = Pic { src: String::new(), data, good: true, open, local: false, lookup: 0, what: "" };
        let kind = w(10);
        if kind < 5 || urls >= 2 {
            p.local = true;
            let name = *pick(&["pic", "my picture", "a&b", "bild-ü", "up/../pic"]);
            let path = god(|| format!("/src/{}{}.{}", name, k, fmt.to_lowercase()));
            let written = path.clone();
            let path = god(|| path.replace("up/../", ""));
            match kind {
                0..=2 => {
                    p.what = "file";
                    put(&path, &p.data);
                }
                3 => {
                    p.good = false;
                    p.what = "missing file";
                    if wc(1, 2) {
                        p.what = "directory";
                        god(|| {
                            sim().fs.mkdir_p(&path);
                        });
                    }
                }
                4 if wc(1, 2) => {
                    p.good = false;
                    p.what = "a device without end";
                    god(|| {
                        let i = sim().fs.put(&path, b"");
                        sim().fs.endless.push(i);
                    });
                }
                4 => {
                    p.good = false;
                    p.what = "unreadable file";
                    put(&path, &p.data);
                    god(|| {
                        let i = sim().fs.put(&path, &p.data);
                        sim().fs.inodes[i].mode = 0;
                    });
                }
                _ => {
                    p.what = "file";
                    put(&path, &p.data);
                }
            }
            p.src = written;
        } else {
            urls += 1;
            if p.data.is_empty() {
                // a response without a body cannot be cut short
                god(|| p.data.push(b'x'));
            }
            let host = god(|| format!("img{}.test", k));
            let tail = *pick(&["", "?size=1&kind=2"]);
            let url = |i: usize| format!("{}/p{}/{}.{}{}", host, i, k, fmt.to_lowercase(), tail);
            let hops = [0usize, 0, 0, 1, 3][w(5) as usize];
            let beh = choose_beh(1, 2);
            p.good = beh.good();
            p.what = if p.good { "web" } else { "bad web" };
            let mime = god(|| format!("image/{}", fmt.to_lowercase()));
            god(|| {
                for i in 0..=hops {
                    add(site, &url(i), &mime, vec![p.data.clone()], beh);
                    if i < hops {
                        site.borrow_mut().pages.get_mut(&url(i)).unwrap().redirect = Some((302, format!("http://{}", url(i + 1))));
                    }
                }
            });
            if wc(1, 12) {
                // round and round
                god(|| site.borrow_mut().pages.get_mut(&url(hops)).unwrap().redirect = Some((302, format!("http://{}", url(0)))));
                p.good = false;
                p.what = "redirect loop";
            }
            match w(12) {
                0 => {
                    conn(&host, ConnPlan::Refuse(3 * MS));
                    p.good = false;
                    p.what = "refused";
                }
                1 => {
                    conn(&host, ConnPlan::Blackhole);
                    p.good = false;
                    p.what = "black hole";
                }
                2 => {
                    p.lookup = [5 * MS, 20 * SEC, 50 * SEC][fdraw(3) as usize];
                    dns(&host, DnsPlan::NoName(p.lookup));
                    p.good = false;
                    p.what = "no such name";
                }
                _ => {}
            }
            p.src = god(|| format!("http://{}", url(0)));
        }
        v.push(p);
    }
    v
}

fn document(html: bool, pics: &[Pic], images: bool) -> Doc {
    let n = 1 + w(4) as usize;
    let mut d = Doc { text: String::new(), slides: vec![] };
    let mut k = 0usize;
    let attr = |s: &str| s.replace('&', "&amp;").replace('"', "&quot;");
    let img = |i: usize, alt: &str| -> String {
        if html {
            let src = attr(&pics[i].src);
            match alt {
                "" => format!("<img src=\"{}\">", src),
                _ => format!("<img alt='{}' src=\"{}\" width=10/>", alt, src),
            }
        } else if pics[i].src.contains(' ') {
            format!("![{}](<{}>)", alt, pics[i].src)
        } else {
            format!("![{}]({})", alt, pics[i].src)
        }
    };
    let any = |o: &mut Want| -> usize {
        let i = w(pics.len() as u64) as usize;
        if images {
            o.pics.push(i);
        }
        i
    };
    if html {
        d.text.push_str("<!DOCTYPE html><html><head><meta charset=\"utf-8\"><title>A page</title><link rel=\"icon\" href=\"x\"></head><body>\n");
    }
    if wc(1, 6) {
        let mut s = Want::default();
        let i = any(&mut s);
        let (m, t) = mark(&mut k);
        s.marks.push(m);
        god(|| d.text.push_str(&if html { format!("<p>{}</p>\n<p>{}</p>\n", img(i, "first"), t) } else { format!("{}\n\n{}\n\n", img(i, "first"), t) }));
        d.slides.push(s);
    }
    for _ in 0..n {
        let mut s = Want::default();
        let head = w(8);
        let (m, t) = mark(&mut k);
        s.marks.push(m);
        let wd = *pick(WORDS);
        let hi = if head == 0 { Some(any(&mut s)) } else { None };
        god(|| {
            let im = hi.map(|i| img(i, "logo") + " ").unwrap_or_default();
            let wd = if html { attr(wd) } else { wd.to_string() };
            d.text.push_str(&if html { format!("<h1>{}{} {}</h1>\n", im, t, wd) } else { format!("# {}{} {}\n\n", im, t, wd) })
        });
        let mut noted = false;
        for _ in 0..w(6) {
            let what = w(if html { 13 } else { 9 });
            let alt = *pick(&["", "a picture", "über"]);
            let (m1, t1) = mark(&mut k);
            let (m2, t2) = mark(&mut k);
            let mut i = 0;
            if what <= 5 || what == 8 || what == 9 {
                i = any(&mut s);
            }
            match what {
                7 if noted => {}
                7 => {
                    noted = true;
                    s.notes.push(m1);
                }
                _ => s.marks.push(m1),
            }
            if matches!(what, 1 | 2 | 3 | 4 | 6 | 8 | 9 | 10 | 11 | 12) {
                s.marks.push(m2);
            }
            let skipped = if what >= 10 { Some(w(pics.len() as u64) as usize) } else { None };
            let b = god(|| {
                let im = img(i, alt);
                if html {
                    match what {
                        0 => format!("<p>{}</p>\n<p>{}</p>\n", im, t1),
                        1 => format!("<p>{} {} {}</p>\n", t1, im, t2),
                        2 => format!("<ul><li>{}</li><li>{} {}</li></ul>\n", t1, im, t2),
                        3 => format!("<h2>{}</h2>{}<div>{}</div>\n", t1, im, t2),
                        4 => format!("<p>{}</p><a href=\"http://link.test/\">{}</a><p>{}</p>\n", t1, im, t2),
                        5 => format!("<figure>{}<figcaption>{}</figcaption></figure>\n", im, t1),
                        6 => format!("<ol><li>{}<li>{}</li></ol>\n", t1, t2).replace(&format!("{}<li>", t1), &format!("{}</li><li>", t1)),
                        7 if s.notes.contains(&m1) => format!("<blockquote>{}</blockquote>\n", t1),
                        7 => String::new(),
                        8 => format!("<div><b>{}</b><br>{}<br/>{}</div>\n", t1, im, t2),
                        9 => format!("<p>{}</p>\n{}\n{}<p>{}</p>\n", t1, im, "<!-- <img src=\"/src/none.png\"> -->", t2),
                        // what a page shows only elsewhere: navigation, forms, tracking pictures
                        10 => format!("<p>{}</p><nav>{}<a href=\"/\">home</a></nav><p>{}</p>\n", t1, img(skipped.unwrap(), alt), t2),
                        11 => format!("<p>{}</p><noscript>{}</noscript><p>{}</p>\n", t1, img(skipped.unwrap(), alt), t2),
                        _ => format!("<p>{}</p><form><input type=\"text\">{}<br></form><svg><path d=\"M0\"/></svg><p>{}</p>\n", t1, img(skipped.unwrap(), alt), t2),
                    }
                } else {
                    match what {
                        0 => format!("{}\n\n{}\n\n", im, t1),
                        1 => format!("{} {} {}\n\n", t1, im, t2),
                        2 => format!("- {}\n- {} {}\n\n", t1, im, t2),
                        3 => format!("## {}\n\n{}\n\n{}\n\n", t1, im, t2),
                        4 => format!("{}\n\n[{}](http://link.test/)\n\n{}\n\n", t1, im, t2),
                        5 => format!("**{}**\n{}\n\n", t1, im),
                        6 => format!("1. {}\n2. *{}*\n\n", t1, t2),
                        7 if s.notes.contains(&m1) => format!("> {}\n\n", t1),
                        7 => String::new(),
                        _ => format!("{}\n\n{}{}\n\n{}\n\n", t1, im, "<!-- ![x](/src/none.png) -->", t2),
                    }
                }
            });
            god(|| d.text.push_str(&b));
        }
        d.slides.push(s);
    }
    if html {
        d.text.push_str("</body></html>\n");
    }
    d
}

pub fn marks_in(texts: &[String]) -> Vec<usize> {
    let mut v = vec![];
    for t in texts {
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'm' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j > i + 1 && j < b.len() && b[j] == b'x' {
                    v.push(t[i + 1..j].parse().unwrap_or(0));
                    i = j;
                }
            }
            i += 1;
        }
    }
    v
}
/// Can the pictures shown be these, in order, with only doubtful ones left out?
fn matches(want: &[(u64, bool, bool)], got: &[u64]) -> bool {
    // (hash, must be there, may be there)
    match want.first() {
        None => got.is_empty(),
        Some((h, must, may)) => (*may && got.first() == Some(h) && matches(&want[1..], &got[1..])) || (!*must && matches(&want[1..], got)),
    }
}

fn run() {
    freeze_clock();
    god(|| {
        for d in ["/tmp", "/work", "/src/up", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let site = super::web::install();
    let html = wc(1, 2);
    let pics = pics(&site);
    let no_images = html && wc(1, 10);
    let doc = document(html, &pics, !no_images);
    let input = if html { "/in/page.html" } else { "/in/text.md" };
    put(input, doc.text.as_bytes());
    god(|| sim().net.short_recv = [0, 40, 200][fdraw(3) as usize]);
    let route = w(4);
    let text = doc.text.clone();
    let go = || -> Result<Vec<u8>, String> {
        use ppt_rs::cli::{FromHtmlCommand, FromMarkdownCommand};
        use ppt_rs::import::{parse_html_with_options, Html2Ppt, HtmlParseOptions};
        let opts = || HtmlParseOptions::new().max_slides(1000).max_bullets(1000).include_images(!no_images);
        if route == 0 {
            if html {
                FromHtmlCommand::execute(input, "/work/o.pptx", None, 1000, 1000, no_images, false, false)?;
            } else {
                FromMarkdownCommand::execute(input, "/work/o.pptx", None)?;
            }
            return e2s(std::fs::read("/work/o.pptx"));
        }
        let slides = match (html, route) {
            (false, _) => ppt_rs::cli::parse_markdown(&text)?,
            (true, 1) => Html2Ppt::with_options(opts()).parse(&text)?,
            (true, 2) => Html2Ppt::with_options(opts()).parse_file(input)?,
            _ => parse_html_with_options(&text, opts())?,
        };
        if route == 3 {
            let mut p = ppt_rs::api::Presentation::with_title("T");
            for s in slides {
                p = p.add_slide(s);
            }
            return e2s(p.build());
        }
        e2s(create_pptx_with_content("T", slides))
    };
    let filter = || -> Option<Box<dyn Fn(Call, &str) -> bool>> { Some(Box::new(|_, p: &str| p.starts_with("/src/"))) };
    let locals: Vec<&Pic> = pics.iter().filter(|p| p.what == "file").collect();
    if !locals.is_empty() && wc(1, 3) {
        let (_, c) = measure(READS, filter(), || {
            for p in &locals {
                let _ = std::fs::read(&p.src);
            }
        });
        plan_snipe(READS, c * 2, wc(1, 4));
        god(|| sim().faults.filter = filter());
        set_benign(benign_rates());
    } else if wc(1, 2) {
        set_benign(benign_rates());
    }
    arm();
    let t0 = god(|| sim().now);
    let r = no_panic("conversion", go);
    let took = god(|| sim().now - t0);
    disarm();
    let f = fired();
    god(reset_faults);
    if !f.is_empty() || pics.iter().any(|p| !p.good || p.open) {
        nontrivial();
    }
    state(&god(|| format!("{} {} {:?} {:?} {:?} {}", html, route, pics.iter().map(|p| (p.what, p.data.len() / 30)).collect::<Vec<_>>(), doc.slides.iter().map(|s| &s.pics).collect::<Vec<_>>(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()), r.is_ok())));
    sample(god(|| {
        format!(
            "{} route {} images {:?} slides {} faults {:?}: {} after {} ms",
            if html { "html" } else { "markdown" },
            route,
            pics.iter().map(|p| (p.what, p.data.len())).collect::<Vec<_>>(),
            doc.slides.len(),
            f,
            match &r {
                Ok(b) => format!("ok {} bytes", b.len()),
                Err(e) => format!("error: {}", crate::ctx::short(e.as_bytes())),
            },
            took / MS
        )
    }));
    if god(|| sim().fs.endless_read) > 16 << 20 {
        viol!("unbounded", "an image that is a device without end was read on and on");
    }
    // every image in the document costs at most its own timeouts and name lookup
    let refs: Vec<usize> = god(|| doc.slides.iter().flat_map(|s| s.pics.clone()).collect());
    let bound: u64 = refs.iter().map(|i| if pics[*i].local { 0 } else { 62 * SEC + pics[*i].lookup }).sum::<u64>() + 2 * SEC;
    if took > bound {
        viol!("unbounded", "the conversion took {} simulated seconds for {} images", took / SEC, refs.len());
    }
    let b = match r {
        Ok(b) => b,
        Err(e) => viol!("failed", "the conversion failed because of its images ({:?}, faults {:?}): {}", god(|| pics.iter().map(|p| p.what).collect::<Vec<_>>()), f, e),
    };
    let parts = read_parts("invalid", "deck", &b);
    if let Some(e) = god(|| pkg::check(&parts)).first() {
        viol!("invalid", "{}", e);
    }
    let view = match god(|| pkg::deck_view(&parts)) {
        Ok(v) => v,
        Err(e) => viol!("invalid", "{}", e),
    };
    if view.len() != doc.slides.len() {
        viol!("slides", "{} slides instead of {}", view.len(), doc.slides.len());
    }
    for (n, (s, v)) in doc.slides.iter().zip(&view).enumerate() {
        let got = god(|| marks_in(&v.texts));
        if got != s.marks {
            viol!("text", "slide {} shows the marks {:?}, not {:?} (texts {:?})", n + 1, got, s.marks, v.texts);
        }
        let got = god(|| v.notes.as_ref().map(|t| marks_in(t)).unwrap_or_default());
        if got != s.notes {
            viol!("text", "the notes of slide {} have the marks {:?}, not {:?}", n + 1, got, s.notes);
        }
        let want: Vec<(u64, bool, bool)> = god(|| {
            s.pics
                .iter()
                .map(|i| {
                    let p = &pics[*i];
                    (pkg::hash(&p.data), p.good && !p.open && (f.is_empty() || !p.local), p.good)
                })
                .collect()
        });
        let got: Vec<u64> = god(|| v.media.iter().map(|m| m.1).collect());
        if !god(|| matches(&want, &got)) {
            viol!(
                "images",
                "slide {} refers to {:?} (faults {:?}) and shows {:?}",
                n + 1,
                god(|| s.pics.iter().map(|i| (*i, pics[*i].what, pics[*i].data.len())).collect::<Vec<_>>()),
                f,
                god(|| v.media.iter().map(|m| (pics.iter().position(|p| pkg::hash(&p.data) == m.1), m.2)).collect::<Vec<_>>())
            );
        }
    }
    probe("deck");
    if let Some(o) = god(|| pkg::orphans(&parts)).iter().find(|o| o.starts_with("ppt/media/")) {
        viol!("invalid", "{} is stored but nothing refers to it", o);
    }
}

pub static P: Prop = Prop {
    id: "P18",
    run,
    rule: "a run counts if an image of the document could not be loaded, was a few arbitrary bytes, or a system call on an image file was failed",
    state_measure: "format x route x kind and size of each image x which slide refers to which x first fault x outcome",
    stubs: "image servers, name lookup and the file system are simulated behind the libc boundary; reqwest, hyper, tokio, pulldown-cmark and ppt-rs are real",
    ..BASE
};
