//! P09: validation never passes a damaged package.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::rt::*;
use crate::xmlp;
use crate::zipr::{self, Parts};
use ppt_rs::core::{validate_package, validate_package_bytes, PackageValidationReport};

const REQUIRED: &[&str] = &[
    "[Content_Types].xml",
    "_rels/.rels",
    "ppt/presentation.xml",
    "ppt/_rels/presentation.xml.rels",
    "ppt/slideMasters/slideMaster1.xml",
    "ppt/slideLayouts/slideLayout1.xml",
    "ppt/theme/theme1.xml",
    "docProps/core.xml",
    "docProps/app.xml",
];

/// Every stored form of the same parts must get the same verdict.
fn store(p: &Parts) -> Vec<u8> {
    let mut v: Vec<(String, Vec<u8>)> = god(|| p.iter().map(|(k, d)| (k.clone(), d.clone())).collect());
    for i in (1..v.len()).rev() {
        let j = w(i as u64 + 1) as usize;
        god(|| v.swap(i, j));
    }
    let k = w(3);
    let names: Vec<String> = god(|| v.iter().map(|x| x.0.clone()).collect());
    god(|| zipr::write(&v, &mut |i| k == 1 || (k == 2 && !(names[i].ends_with(".xml") || names[i].ends_with(".rels")))))
}

fn nth(v: &[String]) -> String {
    god(|| v[w(v.len() as u64) as usize].clone())
}

/// Break one XML text; None if the result is still well-formed.
fn malform(b: &[u8]) -> Option<(Vec<u8>, &'static str)> {
    let s = String::from_utf8(b.to_vec()).ok()?;
    let at = |c: char| -> Option<usize> {
        let v: Vec<usize> = god(|| s.char_indices().filter(|x| x.1 == c).map(|x| x.0).collect());
        (!v.is_empty()).then(|| v[w(v.len() as u64) as usize])
    };
    let (out, what) = match w(7) {
        0 => (b[..w(b.len() as u64) as usize].to_vec(), "cut short"),
        1 => {
            let i = at('>')?;
            (god(|| format!("{}{}", &s[..i], &s[i + 1..])).into_bytes(), "a '>' lost")
        }
        2 => {
            let i = at('<')?;
            (god(|| format!("{}{}", &s[..i], &s[i + 1..])).into_bytes(), "a '<' lost")
        }
        3 => {
            let i = at('"')?;
            (god(|| format!("{}{}", &s[..i], &s[i + 1..])).into_bytes(), "a quote lost")
        }
        4 => {
            let i = at('>')? + 1;
            (god(|| format!("{}& <{}", &s[..i], &s[i..])).into_bytes(), "raw markup characters in text")
        }
        5 => {
            // an end tag lost or renamed
            let v: Vec<usize> = god(|| s.match_indices("</").map(|x| x.0).collect());
            if v.is_empty() {
                return None;
            }
            let i = v[w(v.len() as u64) as usize];
            let e = i + s[i..].find('>')?;
            if w(2) == 0 {
                (god(|| format!("{}{}", &s[..i], &s[e + 1..])).into_bytes(), "an end tag lost")
            } else {
                (god(|| format!("{}</p:other>{}", &s[..i], &s[e + 1..])).into_bytes(), "an end tag exchanged")
            }
        }
        _ => {
            // the second half written over by an older, longer file
            let mut v = b.to_vec();
            let k = w(b.len() as u64) as usize;
            god(|| v.extend_from_slice(&b[k..]));
            (v, "the tail of an older version left behind")
        }
    };
    if god(|| xmlp::parse(&out)).is_ok() {
        return None;
    }
    Some((out, what))
}

fn edit_tag(b: &[u8], el: &str, f: impl Fn(usize, &str) -> Option<String>) -> Vec<u8> {
    // textual edit of start tags <el ...>, numbered from 0
    god(|| {
        let s = String::from_utf8_lossy(b).to_string();
        let mut out = String::new();
        let mut pos = 0;
        let mut k = 0;
        let pat = format!("<{} ", el);
        while let Some(i) = s[pos..].find(&pat) {
            let i = pos + i;
            let e = i + s[i..].find('>').unwrap() + 1;
            out.push_str(&s[pos..i]);
            match f(k, &s[i..e]) {
                Some(x) => out.push_str(&x),
                None => out.push_str(&s[i..e]),
            }
            k += 1;
            pos = e;
        }
        out.push_str(&s[pos..]);
        out.into_bytes()
    })
}
fn attr(tag: &str, name: &str) -> String {
    let pat = format!(" {}=\"", name);
    match tag.find(&pat) {
        Some(i) => tag[i + pat.len()..].split('"').next().unwrap().to_string(),
        None => String::new(),
    }
}
fn with_attr(tag: &str, name: &str, v: &str) -> String {
    tag.replacen(&format!(" {}=\"{}\"", name, attr(tag, name)), &format!(" {}=\"{}\"", name, v), 1)
}

/// One structural damage of the parts, or None.
fn damage(p: &mut Parts) -> Option<(&'static str, String)> {
    let names: Vec<String> = god(|| p.keys().cloned().collect());
    match w(7) {
        0 => {
            let n = REQUIRED[w(REQUIRED.len() as u64) as usize];
            p.remove(n)?;
            Some(("missing required part", n.to_string()))
        }
        1 => {
            // the target of an internal relationship is gone
            let mut t: Vec<String> = god(|| {
                let mut v = vec![];
                for n in names.iter().filter(|n| n.ends_with(".rels")) {
                    let src = crate::pkg::rels_source(n).unwrap_or_default();
                    for r in crate::pkg::parse_rels(&src, &p[n]).unwrap_or_default() {
                        if !r.external && p.contains_key(&r.target) {
                            v.push(r.target);
                        }
                    }
                }
                v
            });
            god(|| {
                t.sort();
                t.dedup()
            });
            let n = nth(&t);
            p.remove(&n);
            Some(("relationship to a missing part", n))
        }
        2 | 3 => {
            // a relationship redirected or an id repeated
            let rels: Vec<String> = god(|| names.iter().filter(|n| n.ends_with(".rels")).cloned().collect());
            let n = nth(&rels);
            let v = god(|| {
                let src = crate::pkg::rels_source(&n).unwrap_or_default();
                crate::pkg::parse_rels(&src, &p[&n]).unwrap_or_default()
            });
            if v.is_empty() {
                return None;
            }
            let k = w(v.len() as u64) as usize;
            if v.len() > 1 && w(2) == 0 {
                let mut j = w(v.len() as u64) as usize;
                if j == k {
                    j = (k + 1) % v.len();
                }
                let id = god(|| v[j].id.clone());
                let b = edit_tag(&p[&n], "Relationship", |i, t| (i == k).then(|| with_attr(t, "Id", &id)));
                god(|| p.insert(n.clone(), b));
                return Some(("duplicate relationship id", god(|| format!("{} {}", n, id))));
            }
            if v[k].external {
                return None;
            }
            let to = ["gone.xml", "/ppt/none.xml", "../nowhere/x.bin"][w(3) as usize];
            let style = w(3);
            let b = edit_tag(&p[&n], "Relationship", |i, t| {
                (i == k).then(|| match style {
                    0 => with_attr(t, "Target", to),
                    // other programs order and quote attributes otherwise
                    1 => format!("<Relationship Target=\"{}\" Type=\"{}\" Id=\"{}\"/>", to, attr(t, "Type"), attr(t, "Id")),
                    _ => format!("<Relationship Id='{}' Type='{}' Target='{}' />", attr(t, "Id"), attr(t, "Type"), to),
                })
            });
            god(|| p.insert(n.clone(), b));
            Some(("relationship to a missing part", god(|| format!("{} {} -> {}", n, v[k].id, to))))
        }
        4 => {
            let n = "ppt/presentation.xml";
            let v = god(|| crate::pkg::slide_order(p).unwrap_or_default().len());
            if v < 2 {
                return None;
            }
            let (k, mut j) = (w(v as u64) as usize, w(v as u64) as usize);
            if k == j {
                j = (k + 1) % v;
            }
            let which = if w(2) == 0 { "id" } else { "r:id" };
            let cell = std::cell::RefCell::new(String::new());
            edit_tag(&p[n], "p:sldId", |i, t| {
                if i == j {
                    *cell.borrow_mut() = attr(t, which);
                }
                None
            });
            let val = cell.borrow().clone();
            if val.is_empty() {
                return None;
            }
            let b = edit_tag(&p[n], "p:sldId", |i, t| (i == k).then(|| with_attr(t, which, &val)));
            god(|| p.insert(n.into(), b));
            Some(("duplicate slide identifier", god(|| format!("{} {} twice", which, val))))
        }
        _ => {
            let xml: Vec<String> = god(|| names.iter().filter(|n| n.ends_with(".xml") || n.ends_with(".rels")).cloned().collect());
            let n = nth(&xml);
            let (b, what) = malform(&p[&n])?;
            god(|| p.insert(n.clone(), b));
            Some(("malformed XML", god(|| format!("{} in {}", what, n))))
        }
    }
}

fn show(r: &PackageValidationReport) -> String {
    god(|| format!("{:?}", r.issues.iter().take(4).collect::<Vec<_>>()))
}
fn bytes_report(b: &[u8]) -> PackageValidationReport {
    no_panic("validate_package_bytes", || validate_package_bytes(b))
}

fn run() {
    freeze_clock();
    god(|| {
        sim().fs.mkdir_p("/work");
        let l = crate::shim::LIVE.load(std::sync::atomic::Ordering::Relaxed);
        crate::shim::CAP.store(l + (600 << 20), std::sync::atomic::Ordering::Relaxed);
    });
    let (parts, own) = {
        let d = gen::deck(&gen::FULL);
        let b = must("build", d.build());
        (read_parts("build", "in-memory build", &b), b)
    };
    // a program may store the parts in another order or uncompressed
    let good = if w(3) == 0 { god(|| own.clone()) } else { store(&parts) };
    let r0 = bytes_report(&good);
    if !r0.is_valid() {
        viol!("false-alarm", "a generated package is reported as damaged: {}", show(&r0));
    }
    // not a matter of hash seeds or thread identity
    let g2 = god(|| good.clone());
    let r1 = std::thread::spawn(move || validate_package_bytes(&g2)).join();
    match r1 {
        Ok(r1) if r1 == r0 => {}
        Ok(r1) => viol!("unstable", "the same bytes are judged differently by another thread: {} / {}", show(&r0), show(&r1)),
        Err(_) => viol!("panic", "validate_package_bytes panicked on a thread"),
    }
    match wweighted(&[3, 3, 3, 2]) {
        0 => {
            // structural damage
            let mut p = god(|| parts.clone());
            let (kind, what) = match damage(&mut p) {
                Some(x) => x,
                None => return,
            };
            nontrivial();
            let b = store(&p);
            let r = bytes_report(&b);
            state(&god(|| format!("structure {} {}", kind, what.split(|c: char| c.is_ascii_digit()).next().unwrap_or(""))));
            sample(god(|| format!("{}: {} -> {} errors", kind, what, r.error_count())));
            god(|| count("damage_structure"));
            if r.is_valid() {
                viol!("passed", "{} ({}) is not reported", kind, what);
            }
            let r2 = bytes_report(&b);
            if r2 != r {
                viol!("unstable", "{} ({}): two validations of the same bytes differ: {} / {}", kind, what, show(&r), show(&r2));
            }
            // the same parts stored otherwise get the same verdict
            let r3 = bytes_report(&store(&p));
            if r3 != r {
                viol!("unstable", "{} ({}): the verdict depends on how the parts are stored: {} / {}", kind, what, show(&r), show(&r3));
            }
            put("/work/d.pptx", &b);
            if no_panic("ValidateCommand", || ppt_rs::cli::ValidateCommand::execute("/work/d.pptx", true)).is_ok() {
                viol!("passed", "the validate command accepts a package with {} ({})", kind, what);
            }
        }
        1 => {
            // damaged bytes of the container
            let mut bad = god(|| good.clone());
            let what = match fdraw(3) {
                0 => {
                    let e = god(|| zipr::read_entries(&good).unwrap_or_default());
                    let x = &e[fdraw(e.len() as u64) as usize];
                    let n = match fdraw(3) {
                        0 => fdraw(good.len() as u64) as usize,
                        1 => [x.header_off, x.data_off, x.data_off + x.comp_len, x.cd_off][fdraw(4) as usize],
                        _ => good.len() - 1 - fdraw(60) as usize,
                    };
                    bad.truncate(n);
                    god(|| count("damage_truncated"));
                    god(|| format!("truncated to {} of {} bytes", n, good.len()))
                }
                _ => {
                    let e = god(|| zipr::read_entries(&good).unwrap_or_default());
                    let x = &e[fdraw(e.len() as u64) as usize];
                    if x.comp_len == 0 {
                        return;
                    }
                    let at = x.data_off + fdraw(x.comp_len as u64) as usize;
                    if fdraw(3) == 0 {
                        let n = (1 + fdraw(600) as usize).min(x.data_off + x.comp_len - at);
                        for i in at..at + n {
                            bad[i] = 0;
                        }
                        god(|| count("damage_zeroed_block"));
                    } else {
                        bad[at] ^= 1 << fdraw(8);
                        god(|| count("damage_flipped_bytes"));
                    }
                    // damage in the unused tail of a deflate stream loses nothing
                    if god(|| zipr::read(&bad).map_or(false, |p| p == parts)) {
                        return;
                    }
                    god(|| format!("damaged at {} in {}", at - x.data_off, x.name))
                }
            };
            god(|| sim().faults.fired.push(what.clone()));
            nontrivial();
            let r = bytes_report(&bad);
            state(&god(|| format!("bytes {}", what.split(|c: char| c.is_ascii_digit()).next_back().unwrap_or(""))));
            sample(god(|| format!("{} -> {} errors", what, r.error_count())));
            if r.is_valid() {
                viol!("passed", "a package {} is reported as valid", what);
            }
            if bytes_report(&bad) != r {
                viol!("unstable", "{}: two validations of the same bytes differ", what);
            }
        }
        2 => {
            // a reader that splits, interrupts, fails or ends early
            let plan = io_plan();
            plan_benign(&plan);
            let probe_plan = god(|| plan.borrow().ops);
            let mut a = match zip::ZipArchive::new(FaultyReader::new(&good, &plan)) {
                Ok(a) => a,
                Err(e) => viol!("unexpected-error", "the archive of split reads cannot be opened: {}", e),
            };
            let r = no_panic("validate_package", || validate_package(&mut a));
            if r != r0 {
                viol!("unstable", "with short and interrupted reads the verdict is {} instead of {}", show(&r), show(&r0));
            }
            let n = god(|| plan.borrow().ops) - probe_plan;
            let plan = io_plan();
            plan_benign(&plan);
            if !plan_hard(&plan, n) {
                return;
            }
            let r = no_panic("validate_package", || match zip::ZipArchive::new(FaultyReader::new(&good, &plan)) {
                Ok(mut a) => Some(validate_package(&mut a)),
                Err(_) => None,
            });
            if god(|| plan.borrow().fired.is_empty()) {
                return;
            }
            nontrivial();
            state(&god(|| format!("reader {}", r.is_some())));
            if let Some(r) = r {
                probe("failed-during-validation");
                if r.is_valid() {
                    viol!("passed", "a read failed during validation ({}) and the package is reported as valid", god(|| plan.borrow().fired.join("; ")));
                }
            }
        }
        _ => {
            // the command on failing storage
            put("/work/d.pptx", &good);
            let (r, n) = measure(READS, Some(Box::new(|_, p| p.contains("/work/"))), || no_panic("ValidateCommand", || ppt_rs::cli::ValidateCommand::execute("/work/d.pptx", true)));
            if let Err(e) = r {
                viol!("false-alarm", "the validate command rejects a generated package: {}", e);
            }
            god(|| sim().faults.filter = Some(Box::new(|_, p: &str| p.contains("/work/"))));
            plan_snipe(READS, n, false);
            set_benign(benign_rates());
            arm();
            let r = no_panic("ValidateCommand", || ppt_rs::cli::ValidateCommand::execute("/work/d.pptx", true));
            disarm();
            let f = fired();
            god(reset_faults);
            state(&god(|| format!("command {} {:?}", r.is_ok(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()))));
            if f.is_empty() {
                if let Err(e) = r {
                    viol!("false-alarm", "the validate command fails with only short or interrupted reads: {}", e);
                }
            } else {
                nontrivial();
                // a failed size hint does not keep the file from being read
                if r.is_ok() && god(|| f.iter().any(|x| !x.contains("stat"))) {
                    viol!("passed", "the validate command accepts a file it could not read: {:?}", f);
                }
            }
        }
    }
}

pub static P: Prop = Prop {
    id: "P09",
    run,
    rule: "a run counts if the package was damaged (parts, container bytes) or a read of it was failed or ended early",
    state_measure: "kind of damage x part family x outcome",
    stubs: "file system behind the libc boundary; damaged packages are made by the harness; all of ppt-rs, zip, flate2 and xml-rs is real",
    ..BASE
};
