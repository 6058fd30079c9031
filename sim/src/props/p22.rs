//! P22: commands report failure through their result.
use super::converters::*;
use super::p18::marks_in;
use super::util::*;
use super::web::{add, choose_beh, conn, dns};
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::simnet::*;
use crate::zipr;
use ppt_rs::generator::*;
use std::rc::Rc;

type Check = Rc<dyn Fn(&str) -> Result<(), String>>;
struct Case {
    name: &'static str,
    args: Vec<String>,
    /// the file, or the directory of pictures, the command is to make
    out: Option<String>,
    dir: bool,
    /// why it cannot succeed
    bad: Option<String>,
    /// it may fail without a fault
    may_fail: bool,
    /// what success promises
    check: Check,
}

const NAMES: &[&str] = &["deck", "my deck", "präsentation", "a\"b", "back\\slash", "tab\tname", "名前", "v1.2"];
const WORDS: &[&str] = &["plain", "naïve café", "日本語", "a & b", "x < y"];

fn mark(n: &mut usize) -> String {
    *n += 1;
    let word = *pick(WORDS);
    god(|| format!("m{}x {}", *n, word))
}
/// Titles and bullets, every one recognisable.
fn outline(k: &mut usize, max: u64) -> Vec<(String, Vec<String>)> {
    let n = 1 + w(max);
    (0..n)
        .map(|_| {
            let t = mark(k);
            let b = (0..w(4)).map(|_| mark(k)).collect();
            (t, b)
        })
        .collect()
}
fn slides(o: &[(String, Vec<String>)]) -> Vec<SlideContent> {
    o.iter()
        .map(|(t, b)| {
            let mut s = SlideContent::new(t);
            for x in b {
                s = s.add_bullet(x);
            }
            s
        })
        .collect()
}
fn count_marks(o: &[(String, Vec<String>)]) -> usize {
    o.iter().map(|x| 1 + x.1.len()).sum()
}
fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;")
}

/// Place an input of this content at `path`; why it is unusable, if it is.
fn input(path: &str, data: &[u8], package: bool) -> Option<String> {
    let kind = if wc(1, 2) { 0 } else { 1 + w(7) };
    if kind == 0 {
        put(path, data);
        return None;
    }
    let mut d = data.to_vec();
    let what = match kind {
        1 => return Some(god(|| format!("{:?} is missing", path))),
        2 => {
            god(|| sim().fs.mkdir_p(path));
            return Some(god(|| format!("{:?} is a directory", path)));
        }
        3 => {
            put(path, data);
            god(|| {
                let i = sim().fs.put(path, data);
                sim().fs.inodes[i].mode = 0;
            });
            return Some(god(|| format!("{:?} is unreadable", path)));
        }
        4 if package => {
            let n = w(d.len() as u64) as usize;
            d.truncate(n);
            "truncated"
        }
        5 if package => {
            d = gen::image_bytes("PNG");
            "no package"
        }
        6 if package => {
            let mut p = must("read", zipr::read(&d));
            let gone = *pick(&["ppt/presentation.xml", "ppt/_rels/presentation.xml.rels", "ppt/slides/slide1.xml"]);
            p.remove(gone);
            d = super::p08::pack(&p);
            "without a part"
        }
        7 if package => {
            d = vec![];
            "empty"
        }
        _ if !package => {
            let at = w(d.len() as u64 + 1) as usize;
            d.insert(at, 0xff);
            // no longer text
            "not UTF-8"
        }
        _ => unreachable!(),
    };
    put(path, &d);
    Some(god(|| format!("{:?} is {}", path, what)))
}
/// The state of the place the result goes to; why nothing can be put there.
fn output(path: &str, old: &[u8]) -> Option<String> {
    match w(10) {
        0 => {
            god(|| sim().fs.mkdir_p(path));
            Some(god(|| format!("{:?} is a directory", path)))
        }
        1 => {
            let up = path.rsplit_once('/').unwrap().0;
            if up.starts_with("/new") {
                put(up, b"a file");
                return Some(god(|| format!("{:?} is a file", up)));
            }
            None
        }
        2..=4 => {
            put(path, old);
            None
        }
        _ => None,
    }
}

fn valid(path: &str) -> Result<zipr::Parts, String> {
    let b = get(path).ok_or_else(|| format!("{} does not exist", path))?;
    let p = zipr::read(&b).map_err(|e| format!("{} is no package: {}", path, e))?;
    let issues = pkg::check(&p);
    if let Some(i) = issues.first() {
        return Err(format!("{} is invalid: {}", path, i));
    }
    Ok(p)
}
fn shown(p: &zipr::Parts) -> Result<(usize, Vec<usize>), String> {
    let order = pkg::slide_order(p)?;
    let mut t = vec![];
    for s in &order {
        t.extend(pkg::paragraphs(p.get(s).ok_or("slide missing")?)?);
    }
    Ok((order.len(), marks_in(&t)))
}
fn holds(path: &str, n: Option<usize>, marks: usize) -> Result<(), String> {
    let p = valid(path)?;
    let (k, m) = shown(&p)?;
    if n.map_or(false, |n| n != k) {
        return Err(format!("{} holds {} slides instead of {}", path, k, n.unwrap()));
    }
    if m != (1..=marks).collect::<Vec<_>>() {
        return Err(format!("{} shows the texts {:?} instead of 1 to {}", path, m, marks));
    }
    Ok(())
}

fn pptx(o: &[(String, Vec<String>)]) -> Vec<u8> {
    must("generate", create_pptx_with_content("Deck", slides(o)))
}
fn either(a: Option<String>, b: Option<String>) -> Option<String> {
    a.or(b)
}

fn case() -> Case {
    let name = *pick(NAMES);
    let place = *pick(&["/work", "/out", "/new", "/new/er"]);
    let out = |ext: &str| god(|| format!("{}/{} out.{}", place, name, ext));
    let s = |x: &str| god(|| x.to_string());
    let with = |v: &[&str]| -> Vec<String> { god(|| v.iter().map(|x| x.to_string()).collect()) };
    let only = cfg!(no_cli);
    let mut k = 0;
    match w(if only { 5 } else { 10 }) {
        0 => {
            let n = w(6) as usize;
            let o = out("pptx");
            let mut bad = output(&o, b"older");
            let ns = god(|| n.to_string());
            let mut args = with(&["create", &o, "--slides", &ns]);
            if wc(1, 2) {
                god(|| args.extend(["--title".to_string(), "A & B".to_string()]));
            }
            let template = wc(1, 2);
            if template {
                let t = god(|| format!("/in/{}.pptx", name));
                let data = pptx(&outline(&mut k, 3));
                let b = match w(3) {
                    // parts that only the template's content needs are not always needed
                    0 => {
                        put(&t, &data);
                        None
                    }
                    _ => input(&t, &data, true),
                };
                let doubtful = b.as_ref().map_or(false, |x| x.contains("without a part"));
                if doubtful {
                    god(|| args.extend(["--template".to_string(), t.clone()]));
                    return Case { name: "create", args, bad, may_fail: true, dir: false, check: Rc::new(move |_| holds_n(&o, n)), out: Some(out("pptx")) };
                }
                bad = either(bad, b);
                god(|| args.extend(["--template".to_string(), t]));
            }
            let p = o.clone();
            Case { name: if template { "create from template" } else { "create" }, args, bad, may_fail: n == 0, dir: false, check: Rc::new(move |_| holds_n(&p, n)), out: Some(o) }
        }
        c @ 1..=2 => {
            let html = c == 2;
            let ext = if html { "html" } else { "md" };
            let i = god(|| format!("/in/{}.{}", name, ext));
            let o = outline(&mut k, 4);
            let text = god(|| {
                if html {
                    let mut t = String::from("<!DOCTYPE html><html><head><title>T</title></head><body>\n");
                    for (h, b) in &o {
                        t.push_str(&format!("<h1>{}</h1>\n", esc(h)));
                        if !b.is_empty() {
                            t.push_str(&format!("<ul>{}</ul>\n", b.iter().map(|x| format!("<li>{}</li>", esc(x))).collect::<String>()));
                        }
                    }
                    t + "</body></html>"
                } else {
                    o.iter().map(|(h, b)| format!("# {}\n\n{}\n", h, b.iter().map(|x| format!("- {}\n", x)).collect::<String>())).collect()
                }
            });
            let (n, m) = (o.len(), count_marks(&o));
            let mut bad = input(&i, text.as_bytes(), false);
            let empty = bad.is_none() && wc(1, 10);
            if empty {
                put(&i, b"\n");
            }
            let given = wc(2, 3);
            let mut args = with(&[if html { "html2ppt" } else { "md2ppt" }, &i]);
            let of = if given {
                let of = out("pptx");
                bad = either(bad, output(&of, b"older"));
                god(|| args.push(of.clone()));
                of
            } else {
                god(|| format!("/in/{}.pptx", name))
            };
            if html {
                god(|| args.extend(["--max-slides", "1000", "--max-bullets", "1000"].map(|x| x.to_string())));
                for f in ["--no-images", "--no-tables", "--no-code"] {
                    if wc(1, 4) {
                        god(|| args.push(f.into()));
                    }
                }
            }
            if wc(1, 3) {
                god(|| args.extend(["--title".to_string(), "Ü".to_string()]));
            }
            let p = of.clone();
            Case {
                name: if html { "html2ppt" } else { "md2ppt" },
                args,
                bad,
                may_fail: empty,
                dir: false,
                check: Rc::new(move |_| if empty { valid(&p).map(|_| ()) } else { holds(&p, Some(n), m) }),
                out: Some(of),
            }
        }
        c @ 3..=4 => {
            let i = god(|| format!("/in/{}.pptx", name));
            let (data, n) = if wc(1, 2) {
                let o = outline(&mut k, 12);
                (pptx(&o), o.len())
            } else {
                let (d, b) = super::ops::deck_bytes(&gen::FULL);
                (b, d.slides.len())
            };
            if c == 3 {
                let bad = input(&i, &data, true);
                let doubtful = bad.as_ref().map_or(false, |x| x.contains("without a part"));
                return Case {
                    name: "info",
                    args: with(&["info", &i]),
                    out: None,
                    dir: false,
                    bad: if doubtful { None } else { bad },
                    may_fail: doubtful,
                    check: Rc::new(move |t| {
                        let l = t.lines().filter_map(|l| l.strip_prefix("Slides:")).map(|x| x.trim().parse::<usize>()).collect::<Vec<_>>();
                        if doubtful || l == vec![Ok(n)] {
                            Ok(())
                        } else {
                            Err(format!("info of a presentation of {} slides prints {:?}", n, t))
                        }
                    }),
                };
            }
            let json = wc(2, 3);
            let mut args = with(&["validate", &i]);
            if json {
                let at = w(2) as usize;
                god(|| args.insert(1 + at, "--json".into()));
            }
            let mut data = data;
            let mut damaged = false;
            let bad = if wc(1, 2) {
                let mut p = must("read", zipr::read(&data));
                let _ = super::p08::damage(&mut p);
                data = super::p08::pack(&p);
                damaged = true;
                put(&i, &data);
                None
            } else {
                input(&i, &data, true)
            };
            // what the library makes of it when nothing fails
            let now = get(&i);
            let report = no_panic("validate_package_bytes", || now.as_ref().map(|b| ppt_rs::core::validate_package_bytes(b)));
            let judged = report.as_ref().map(|r| (r.is_valid(), r.error_count(), r.warning_count()));
            let unjudged = bad.as_ref().map_or(false, |x| x.contains("missing") || x.contains("directory") || x.contains("unreadable"));
            let bad = if let (None, Some((false, _, _))) = (&bad, judged) { Some(s("it is invalid")) } else { bad };
            let may_fail = damaged && bad.is_some();
            let path = i.clone();
            Case {
                name: if json { "validate --json" } else { "validate" },
                args,
                out: None,
                dir: false,
                bad,
                may_fail,
                check: Rc::new(move |t| {
                    if unjudged || judged.is_none() {
                        return Err("unreadable input was judged".into());
                    }
                    let (v, e, wn) = judged.unwrap();
                    if json {
                        let j: serde_json::Value = serde_json::from_str(t).map_err(|e| format!("--json printed no JSON: {} {:?}", e, t))?;
                        if j["file"] != path.as_str() {
                            return Err(format!("--json names the file {} instead of {:?}", j["file"], path));
                        }
                        let sev = |x: &str| j["issues"].as_array().map_or(0, |a| a.iter().filter(|i| i["severity"] == x).count());
                        if j["valid"] != v || j["error_count"] != e || j["warning_count"] != wn || sev("error") != e || sev("warning") != wn {
                            return Err(format!("--json reports {} although valid {} with {} errors and {} warnings", j, v, e, wn));
                        }
                    } else if t.contains("PASSED") != v || t.contains("FAILED") == v || !t.contains(&format!("{} error(s), {} warning(s)", e, wn)) {
                        return Err(format!("the report does not say valid {} with {} errors and {} warnings: {:?}", v, e, wn, t));
                    }
                    Ok(())
                }),
            }
        }
        5 | 6 => {
            let i = god(|| format!("/in/{}.pptx", name));
            let o = outline(&mut k, 4);
            let data = pptx(&o);
            let (n, m) = (o.len(), count_marks(&o));
            let bad = input(&i, &data, true);
            let doubtful = bad.as_ref().map_or(false, |x| x.contains("without a part"));
            let fmt = *pick(&["html", "pdf", "png"]);
            let explicit = wc(1, 3);
            let of = if explicit { out("xyz") } else { out(fmt) };
            let mut args = with(&["export", &i, &of]);
            if explicit {
                god(|| args.extend(["--format".to_string(), fmt.to_string()]));
            }
            let p = of.clone();
            if fmt == "png" {
                let mode = choose_mode();
                pdftoppm(mode, n, wc(1, 2), wc(1, 2));
                let bad = either(bad, if mode != Mode::Good { Some(god(|| format!("pdftoppm is {:?}", mode))) } else { None });
                let b2 = match w(6) {
                    0 => {
                        put(&of, b"a file");
                        Some(god(|| format!("{:?} is a file", of)))
                    }
                    1 => {
                        god(|| sim().fs.mkdir_p(&of));
                        let x = god(|| format!("{}/holiday.png", of));
                        put(&x, b"holiday");
                        None
                    }
                    _ => None,
                };
                return Case {
                    name: "export png",
                    args,
                    bad: if doubtful { None } else { either(bad, b2) },
                    may_fail: doubtful,
                    dir: true,
                    check: Rc::new(move |_| {
                        if doubtful {
                            return Ok(());
                        }
                        let mut v = listing(&format!("{}/", p));
                        v.retain(|x| !x.ends_with("holiday.png"));
                        if v.len() != n {
                            return Err(format!("{} holds {} pictures instead of {}: {:?}", p, v.len(), n, v));
                        }
                        for x in &v {
                            let b = get(x).unwrap_or_default();
                            if !b.starts_with(b"\x89PNG") || b.len() < 100 {
                                return Err(format!("{} is no whole picture", x));
                            }
                        }
                        Ok(())
                    }),
                    out: Some(of),
                };
            }
            let bad = if doubtful { None } else { either(bad, output(&of, b"older")) };
            Case {
                name: if fmt == "html" { "export html" } else { "export pdf" },
                args,
                bad,
                may_fail: doubtful || output_bad(&of),
                dir: false,
                check: Rc::new(move |_| {
                    let b = get(&p).ok_or_else(|| format!("{} does not exist", p))?;
                    let t = String::from_utf8_lossy(&b).to_string();
                    if fmt == "html" {
                        if !t.trim_end().ends_with("</html>") {
                            return Err(format!("{} has no end", p));
                        }
                        let mut v = marks_in(&[t]);
                        v.sort();
                        v.dedup();
                        if !doubtful && v != (1..=m).collect::<Vec<_>>() {
                            return Err(format!("{} shows the texts {:?} instead of 1 to {}", p, v, m));
                        }
                    } else {
                        if !t.starts_with("%PDF-") || !t.trim_end().ends_with("%%EOF") {
                            return Err(format!("{} is no whole PDF", p));
                        }
                        let pages = t.matches("/Type /Page").count() - t.matches("/Type /Pages").count();
                        if !doubtful && pages != n {
                            return Err(format!("{} has {} pages instead of {}", p, pages, n));
                        }
                    }
                    Ok(())
                }),
                out: Some(of),
            }
        }
        7 => {
            let parts = 1 + w(3) as usize;
            let mut bad = None;
            let mut n = 0;
            let mut files = vec![];
            let mut doubtful = false;
            for j in 0..parts {
                let o = outline(&mut k, 3);
                n += o.len();
                let i = god(|| format!("/in/{}{}.pptx", name, j));
                let b = if wc(2, 3) {
                    put(&i, &pptx(&o));
                    None
                } else {
                    input(&i, &pptx(&o), true)
                };
                if b.as_ref().map_or(false, |x| x.contains("without a part")) {
                    doubtful = true;
                } else {
                    bad = either(bad, b);
                }
                files.push(i);
            }
            let place = if bad.is_none() && wc(1, 6) {
                // the merged file replaces one of its sources
                files[w(parts as u64) as usize].clone()
            } else {
                let of = out("pptx");
                bad = either(bad, output(&of, b"older"));
                of
            };
            let mut args = with(&["merge"]);
            let first = wc(1, 2);
            god(|| {
                if first {
                    args.extend(["--output".to_string(), place.clone()]);
                    args.extend(files.clone());
                } else {
                    args.extend(files.clone());
                    args.extend(["-o".to_string(), place.clone()]);
                }
            });
            let (p, m) = (place.clone(), k);
            Case {
                name: "merge",
                args,
                bad,
                may_fail: doubtful,
                dir: false,
                check: Rc::new(move |_| if doubtful { valid(&p).map(|_| ()) } else { holds(&p, Some(n), m) }),
                out: Some(place),
            }
        }
        8 => {
            let i = god(|| format!("/in/{}.pdf", name));
            let pages = 1 + w(12) as usize;
            let mode = choose_mode();
            pdftoppm(mode, pages, wc(1, 2), wc(1, 2));
            let mut bad = match w(6) {
                0 => Some(god(|| format!("{:?} is missing", i))),
                1 => {
                    god(|| sim().fs.mkdir_p(&i));
                    Some(god(|| format!("{:?} is a directory", i)))
                }
                _ => {
                    put(&i, b"%PDF-1.4 document\n%%EOF\n");
                    None
                }
            };
            if mode != Mode::Good {
                bad = either(bad, Some(god(|| format!("pdftoppm is {:?}", mode))));
            }
            let mut args = with(&["pdf2ppt", &i]);
            let of = if wc(2, 3) {
                let of = out("pptx");
                bad = either(bad, output(&of, b"older"));
                god(|| args.push(of.clone()));
                of
            } else {
                god(|| format!("/in/{}.pptx", name))
            };
            let p = of.clone();
            Case {
                name: "pdf2ppt",
                args,
                bad,
                may_fail: false,
                dir: false,
                check: Rc::new(move |_| {
                    let q = valid(&p)?;
                    let order = pkg::slide_order(&q)?;
                    if order.len() != pages {
                        return Err(format!("{} holds {} slides for {} pages", p, order.len(), pages));
                    }
                    for s in &order {
                        if !pkg::rels_of(&q, s).iter().any(|r| r.kind() == "image" && q.get(&r.target).map_or(false, |b| b.starts_with(b"\x89PNG"))) {
                            return Err(format!("{} has a slide without its page: {}", p, s));
                        }
                    }
                    Ok(())
                }),
                out: Some(of),
            }
        }
        _ => {
            let site = super::web::install();
            // a heading of nothing makes no slide
            let o: Vec<(String, Vec<String>)> = (0..1 + w(3))
                .map(|_| {
                    let t = mark(&mut k);
                    (t, (0..1 + w(4)).map(|_| mark(&mut k)).collect())
                })
                .collect();
            let m = count_marks(&o);
            let text = god(|| {
                let mut t = String::from("<!DOCTYPE html><html><head><title>T</title></head><body>\n");
                for (h, b) in &o {
                    t.push_str(&format!("<h2>{}</h2>\n", esc(h)));
                    for x in b {
                        t.push_str(&format!("<p>{} and enough words to make a paragraph of it</p>\n", esc(x)));
                    }
                }
                t + &format!("<div>{}</div></body></html>", "padding ".repeat(20))
            });
            let beh = choose_beh(1, 2);
            add(&site, "site.test/page", "text/html; charset=utf-8", vec![text.into_bytes()], beh);
            let mut bad = if beh.good() { None } else { Some(god(|| format!("the site is {:?}", beh))) };
            match w(12) {
                0 => {
                    conn("site.test", ConnPlan::Refuse(3_000_000));
                    bad = Some(s("the site refuses"));
                }
                1 => {
                    conn("site.test", ConnPlan::Blackhole);
                    bad = Some(s("the site is a black hole"));
                }
                2 => {
                    dns("site.test", DnsPlan::NoName(5_000_000));
                    bad = Some(s("there is no such site"));
                }
                3 => {
                    god(|| site.borrow_mut().pages.get_mut("site.test/page").unwrap().redirect = Some((302, "http://site.test/page".into())));
                    bad = Some(s("the site redirects in circles"));
                }
                _ => {}
            }
            let of = out("pptx");
            bad = either(bad, output(&of, b"older"));
            let mut args = with(&["web2ppt", "http://site.test/page", "-o", &of, "--max-slides", "1000", "--max-bullets", "1000", "--timeout", "30"]);
            for f in ["--no-images", "--no-tables", "--no-code", "--no-source-url", "--verbose"] {
                if wc(1, 4) {
                    god(|| args.push(f.into()));
                }
            }
            let p = of.clone();
            Case { name: "web2ppt", args, bad, may_fail: false, dir: false, check: Rc::new(move |_| holds(&p, None, m)), out: Some(of) }
        }
    }
}
fn output_bad(path: &str) -> bool {
    god(|| sim().fs.tree().get(path).map_or(false, |x| x.is_none()))
}
fn holds_n(path: &str, n: usize) -> Result<(), String> {
    let p = valid(path)?;
    let k = pkg::slide_order(&p)?.len();
    if k != n {
        return Err(format!("{} holds {} slides instead of {}", path, k, n));
    }
    Ok(())
}

/// One process: its exit code and what it printed.
fn process(args: &[String]) -> (i32, String) {
    god(|| {
        sim().stdout.clear();
        sim().exit_code = None;
        let mut a = vec!["pptcli".to_string()];
        a.extend(args.iter().cloned());
        crate::shim::set_args(&a);
    });
    let line: String = god(|| args.join(" "));
    #[cfg(not(no_cli))]
    let r = crashable(move || no_panic(&line, crate::cli_main::main));
    #[cfg(no_cli)]
    let r = {
        let a: Vec<String> = args.to_vec();
        crashable(move || no_panic(&line, || library(&a))).and_then(|r| if r.is_ok() { Some(()) } else { god(|| sim().exit_code = Some(1)); None })
    };
    let out = god(|| String::from_utf8_lossy(&sim().stdout).to_string());
    let code = god(|| sim().exit_code);
    match (r, code) {
        (Some(()), None) => (0, out),
        (None, Some(c)) => (c, out),
        x => viol!("panic", "the process neither ended nor exited: {:?}", x),
    }
}
#[cfg(no_cli)]
fn library(a: &[String]) -> Result<(), String> {
    use ppt_rs::cli::*;
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].as_str());
    let has = |n: &str| a.iter().any(|x| x == n);
    let pos: Vec<&str> = a.iter().skip(1).map(|s| s.as_str()).filter(|s| *s != "--json").collect();
    let o = pos.get(1).filter(|x| !x.starts_with("--")).map(|x| x.to_string()).unwrap_or_else(|| format!("{}.pptx", pos[0].rsplit_once('.').unwrap().0));
    match a[0].as_str() {
        "create" => CreateCommand::execute(pos[0], opt("--title"), opt("--slides").unwrap().parse().unwrap(), opt("--template")),
        "md2ppt" => FromMarkdownCommand::execute(pos[0], &o, opt("--title")),
        "html2ppt" => FromHtmlCommand::execute(pos[0], &o, opt("--title"), 1000, 1000, has("--no-images"), has("--no-tables"), has("--no-code")),
        "info" => InfoCommand::execute(pos[0]),
        _ => ValidateCommand::execute(pos[0], has("--json")),
    }
}

fn run() {
    freeze_clock();
    god(|| {
        for d in ["/tmp", "/work", "/in", "/out"] {
            sim().fs.mkdir_p(d);
        }
    });
    let mut c = case();
    if let (Some(o), None, false) = (&c.out, &c.bad, ["create", "create from template", "md2ppt", "html2ppt"].contains(&c.name)) {
        // these need not make the directory
        let up = god(|| o.rsplit_once('/').unwrap().0.to_string());
        if !exists(&up) {
            if wc(3, 4) {
                god(|| sim().fs.mkdir_p(&up));
            } else {
                c.may_fail = true;
            }
        }
    }
    let before = tree();
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    let faulty = c.bad.is_none() && !c.may_fail && wc(2, 3);
    let mut f: Vec<String> = vec![];
    let mut full = false;
    let mut clean = Default::default();
    let (code, text) = if faulty {
        let ((code, text), n) = measure(ALL, None, || process(&c.args));
        if code != 0 {
            viol!("unexpected-failure", "{:?} failed with code {} though nothing was wrong", c.args, code);
        }
        if let Err(e) = god(|| (c.check)(&text)) {
            viol!("false-success", "{:?} reported success but {}", c.args, e);
        }
        clean = tree();
        god(|| {
            let size = sim().fs.used - snap.used.min(sim().fs.used);
            sim().fs = snap.clone();
            full = fdraw(6) == 5;
            if full {
                sim().fs.capacity = Some(sim().fs.used + fdraw(size + size / 4 + 1));
            }
        });
        if !full {
            plan_snipe(ALL, n, false);
        }
        set_benign(benign_rates());
        arm();
        let r = process(&c.args);
        disarm();
        f = fired();
        god(reset_faults);
        god(|| sim().fs.capacity = None);
        r
    } else {
        set_benign(benign_rates());
        arm();
        let r = process(&c.args);
        disarm();
        god(reset_faults);
        r
    };
    let hard = full || !f.is_empty();
    if hard || c.bad.is_some() {
        nontrivial();
    }
    state(&god(|| format!("{} {:?} {} {:?}", c.name, c.bad.as_deref().and_then(|x| x.rsplit(" is ").next()), code, f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()))));
    sample(god(|| format!("{:?} bad {:?} faults {:?} full {}: exit {}", c.args, c.bad, f, full, code)));
    let done = god(|| (c.check)(&text));
    if code == 0 {
        probe("success");
        if let Some(b) = &c.bad {
            if !(c.may_fail && done.is_ok() && c.out.is_none() && !c.name.starts_with("validate")) {
                viol!("false-success", "{:?} succeeded although {}", c.args, b);
            }
        }
        if let Err(e) = &done {
            viol!("false-success", "{:?} reported success but {} (faults {:?}, disk full {})", c.args, e, f, full);
        }
    } else {
        probe("failure");
        if c.bad.is_none() && !c.may_fail && !hard {
            viol!("unexpected-failure", "{:?} failed with code {} though nothing was wrong", c.args, code);
        }
        // a judgement is printed in full also when it is "invalid"
        if c.may_fail && c.name.starts_with("validate") {
            if let Err(e) = &done {
                viol!("wrong-report", "{:?}: {}", c.args, e);
            }
        }
    }
    let after = tree();
    if let (Some(o), false, true) = (&c.out, c.dir, code != 0) {
        let same = after.get(o) == before.get(o);
        if !same && done.is_err() {
            viol!("partial-output", "{:?} failed and left {} incomplete: {} (faults {:?}, disk full {})", c.args, o, done.unwrap_err(), f, full);
        }
    }
    if let (Some(o), true, true) = (&c.out, c.dir, code != 0) {
        for x in listing(&god(|| format!("{}/", o))) {
            if before.get(&x) != after.get(&x) && after.get(&x) != clean.get(&x) {
                viol!("partial-output", "{:?} failed and left {} incomplete (faults {:?}, disk full {})", c.args, x, f, full);
            }
        }
    }
    let mine = |k: &str| c.out.as_ref().map_or(false, |o| k == o || c.dir && k.starts_with(&format!("{}/", o)));
    for (k, v) in &before {
        if v.is_some() && !mine(k) && after.get(k) != Some(v) {
            viol!("clobbered", "{:?} changed or removed {} (faults {:?})", c.args, k, f);
        }
    }
    if !hard {
        for (k, v) in &after {
            if v.is_some() && !mine(k) && !before.contains_key(k) {
                viol!("extra-files", "{:?} also left {}", c.args, k);
            }
        }
    }
}

pub static P: Prop = Prop {
    id: "P22",
    run,
    rule: "a run counts if the input, the output place, the converter or the site did not allow success, or a system call failed or the disk was full",
    state_measure: "command x obstacle x exit code x first fault",
    stubs: "pdftoppm, web site, resolver and file system are models; the command-line tool (argument parsing, main, every command) and all of ppt-rs are real; the process boundary is a simulated thread whose exit() is intercepted",
    ..BASE
};
