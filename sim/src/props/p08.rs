//! P08: repair yields a valid package, keeps good parts and is stable.
use super::edits::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::pkg;
use crate::rt::*;
use crate::xmlp;
use crate::zipr::{self, Parts};
use ppt_rs::oxml::repair::{PptxRepair, RepairIssue, RepairResult};
use std::collections::{BTreeMap, BTreeSet};

const REQUIRED: [&str; 4] = [TYPES, "_rels/.rels", PRES, PRES_RELS];
const TYPES: &str = "[Content_Types].xml";

fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}
fn key(i: &RepairIssue) -> String {
    match i {
        RepairIssue::MissingPart { path, .. } => format!("missing {}", path),
        RepairIssue::InvalidXml { path, .. } => format!("xml {}", path),
        RepairIssue::BrokenRelationship { source, rel_id, .. } => format!("broken {} {}", source, rel_id),
        RepairIssue::MissingSlideReference { slide_path } => format!("unlisted {}", slide_path),
        RepairIssue::OrphanSlide { slide_path } => format!("orphan {}", slide_path),
        RepairIssue::InvalidContentType { path } => format!("type {}", path),
        other => format!("other {:?}", other),
    }
}
fn keys(v: &[RepairIssue]) -> BTreeSet<String> {
    v.iter().map(key).collect()
}
/// The issues a package has: those that have to be reported, and those that may be.
fn expected(p: &Parts, types0: &BTreeMap<String, Option<String>>) -> (BTreeSet<String>, BTreeSet<String>) {
    let mut must = BTreeSet::new();
    let mut may = BTreeSet::new();
    for n in REQUIRED {
        if !p.contains_key(n) {
            must.insert(format!("missing {}", n));
        }
    }
    let ok = |n: &str| p.get(n).map_or(false, |b| xmlp::parse(b).is_ok());
    for n in p.keys() {
        if is_xml(n) && !ok(n) {
            must.insert(format!("xml {}", n));
        }
    }
    for n in p.keys().filter(|n| n.ends_with(".rels")) {
        let Some(src) = pkg::rels_source(n) else { continue };
        let used = src.is_empty() || p.contains_key(&src);
        for r in pkg::rels_of(p, &src) {
            if !r.external && !r.target.contains(':') && !p.contains_key(&r.target) {
                if used {
                    must.insert(format!("broken {} {}", n, r.id));
                }
                if n == PRES_RELS && r.kind() == "slide" {
                    must.insert(format!("orphan {}", r.target));
                }
            }
        }
    }
    if ok("_rels/.rels") && p.contains_key(PRES) && !pkg::rels_of(p, "").iter().any(|r| r.target == PRES) {
        must.insert("broken _rels/.rels ".into());
    }
    for n in p.keys().filter(|n| n.starts_with("ppt/") && n.ends_with(".xml")) {
        let rn = pkg::rels_name(n);
        if p.contains_key(&rn) && !ok(&rn) {
            continue;
        }
        let ids: BTreeSet<String> = pkg::rels_of(p, n).into_iter().map(|r| r.id).collect();
        if let Ok(e) = xmlp::parse(&p[n]) {
            e.walk(&mut |x| {
                for (k, v) in &x.attrs {
                    if k.starts_with("r:") && !v.is_empty() && !ids.contains(v) {
                        must.insert(format!("broken {} {}", n, v));
                    }
                }
            });
        }
    }
    if ok(PRES) && ok(PRES_RELS) {
        let listed = partial_order(p);
        for n in p.keys().filter(|n| pkg::is_slide(n)) {
            if !listed.contains(n) {
                must.insert(format!("unlisted {}", n));
            }
        }
    }
    if ok(TYPES) {
        if let Ok(t) = pkg::types(p) {
            for n in p.keys().filter(|n| *n != TYPES) {
                let now = pkg::content_type(&t, n);
                if now.is_none() {
                    must.insert(format!("type {}", n));
                } else if let Some(was) = types0.get(n) {
                    if *was != now && now.as_deref() == Some("application/xml") {
                        must.insert(format!("type {}", n));
                    }
                }
            }
        }
    }
    may.extend(must.iter().cloned());
    (must, may)
}
/// Slides whose place in the list can be told, in order.
fn partial_order(p: &Parts) -> Vec<String> {
    let rels = pkg::rels_of(p, PRES);
    let Some(Ok(e)) = p.get(PRES).map(|b| xmlp::parse(b)) else { return vec![] };
    let Some(l) = e.find("sldIdLst") else { return vec![] };
    l.els()
        .filter_map(|s| rels.iter().find(|r| s.attrs.iter().any(|(k, v)| k == "r:id" && v == &r.id)).map(|r| r.target.clone()))
        .collect()
}

pub struct Damage {
    what: String,
    /// parts with text damage and the bytes a faithful repair gives them
    mended: BTreeMap<String, Vec<u8>>,
    /// parts damaged otherwise
    hit: BTreeSet<String>,
}
fn choose(p: &Parts, f: &dyn Fn(&str) -> bool) -> Option<String> {
    let v: Vec<&String> = p.keys().filter(|n| f(n)).collect();
    if v.is_empty() {
        return None;
    }
    // often a large one, as there are few of them
    if w(5) == 4 {
        return v.iter().max_by_key(|n| p[**n].len()).map(|n| n.to_string());
    }
    Some(v[w(v.len() as u64) as usize].clone())
}
pub fn damage(p: &mut Parts) -> Damage {
    let mut d = Damage { what: String::new(), mended: BTreeMap::new(), hit: BTreeSet::new() };
    let n = if wc(1, 10) { 0 } else { 1 + w(4) };
    for _ in 0..n {
        let focus = w(3);
        let pick = |p: &Parts| choose(p, &|n: &str| match focus {
            0 => REQUIRED.contains(&n),
            1 => n.starts_with("ppt/slides/"),
            _ => true,
        });
        let k = w(13);
        match k {
            0 | 1 => {
                if let Some(n) = pick(p) {
                    p.remove(&n);
                    d.mended.remove(&n);
                    d.what.push_str(&format!("lost {}; ", n));
                }
            }
            2 | 3 => {
                if let Some(n) = choose(p, &|n: &str| is_xml(n) && (focus != 0 || REQUIRED.contains(&n))) {
                    let b = p.get_mut(&n).unwrap();
                    let len = if k == 3 || b.len() < 2 { 0 } else { w(b.len() as u64 - 1) as usize };
                    b.truncate(len);
                    d.mended.remove(&n);
                    d.hit.insert(n.clone());
                    d.what.push_str(&format!("{} cut to {} bytes; ", n, len));
                }
            }
            4 | 5 => {
                // unescaped text
                let f = |n: &str| n.starts_with("ppt/slides/slide") || n.starts_with("ppt/notesSlides/notes") || n.starts_with("docProps/");
                if let Some(n) = choose(p, &f) {
                    let style = w(6);
                    god(|| {
                        let s = text(p, &n);
                        let (bad, good) = [
                            ("R&D ", "R&amp;D "),
                            ("a && b &amp; c", "a &amp;&amp; b &amp; c"),
                            ("x&nbsp;y &#65;&#x42; &#; &lt;", "x&amp;nbsp;y &#65;&#x42; &amp;#; &lt;"),
                            ("<!-- p & q --> & ", "<!-- p & q --> &amp; "),
                            ("<![CDATA[1 < 2 & 3]]> Q&A", "<![CDATA[1 < 2 & 3]]> Q&amp;A"),
                            ("& Grüße & 日本 &averyveryverylongname;", "&amp; Grüße &amp; 日本 &amp;averyveryverylongname;"),
                        ][style as usize];
                        let mark = if n.starts_with("docProps/") { "</" } else { "</a:t>" };
                        if let (Some(a), true) = (s.find(mark), !d.hit.contains(&n)) {
                            let orig = d.mended.get(&n).map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or(s.clone());
                            let a2 = orig.find(mark).unwrap_or(a);
                            let fixed = format!("{}{}{}", &orig[..a2], good, &orig[a2..]);
                            set(p, &n, format!("{}{}{}", &s[..a], bad, &s[a..]));
                            d.mended.insert(n.clone(), fixed.into_bytes());
                            d.what.push_str(&format!("{} has {:?}; ", n, bad));
                        }
                    });
                }
            }
            6 => {
                // something in front of the declaration
                if let Some(n) = choose(p, &|n: &str| is_xml(n)) {
                    god(|| {
                        if p[&n].starts_with(b"<?xml") && !d.hit.contains(&n) {
                            let was = d.mended.get(&n).cloned().unwrap_or(p[&n].clone());
                            d.mended.insert(n.clone(), was);
                            let s = text(p, &n);
                            set(p, &n, format!("\n  {}", s));
                            d.what.push_str(&format!("{} starts with a blank line; ", n));
                        }
                    });
                }
            }
            7 => {
                // a relationship to a part that does not exist
                if let Some(n) = choose(p, &|n: &str| n.ends_with(".rels")) {
                    let id = ["rId4294967295", "rId900", "dang", "rId18446744073709551615"][w(4) as usize];
                    let kind = ["image", "slide", "notesSlide", "hyperlink", "chart"][w(5) as usize];
                    let t = ["../nowhere/x.png", "slides/slide77.xml", "/ppt/gone.xml", "a b &amp; c.xml"][w(4) as usize];
                    let style = w(3);
                    let used = wc(1, 2);
                    god(|| {
                        let s = text(p, &n);
                        if d.hit.contains(&n) || !s.contains("</Relationships>") || s.contains(&format!("{}\"", id)) || s.contains(&format!("{}'", id)) {
                            return;
                        }
                        let src = pkg::rels_source(&n).unwrap();
                        let ty = format!("http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}", kind);
                        let e = match style {
                            0 => format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"/>", id, ty, t),
                            1 => format!("<Relationship Target='{}'\n Type='{}'\n Id='{}'></Relationship>", t, ty, id),
                            _ => format!("\n<Relationship Type=\"{}\" Target=\"{}\" Id=\"{}\" />\n", ty, t, id),
                        };
                        let add = |s: &str, e: &str| insert_before(s, "</Relationships>", e);
                        set(p, &n, add(&s, &e));
                        if let Some(m) = d.mended.get_mut(&n) {
                            *m = add(&String::from_utf8_lossy(m), &e).into_bytes();
                        }
                        d.what.push_str(&format!("{} gets {} {} -> {}; ", n, kind, id, t));
                        if used && src.starts_with("ppt/slides/slide") && p.contains_key(&src) && !d.hit.contains(&src) && !d.mended.contains_key(&src) {
                            let x = text(p, &src);
                            let r = format!("<p:sp><p:nvSpPr><p:cNvPr id=\"70\" name=\"u\"><a:hlinkClick r:id=\"{}\"><a:snd r:embed=\"{}\"/></a:hlinkClick></p:cNvPr></p:nvSpPr></p:sp><p:pic><p:blipFill><a:blip r:embed='{}' cstate=\"print\"/></p:blipFill></p:pic></p:spTree>", id, id, id);
                            set(p, &src, x.replacen("</p:spTree>", &r, 1));
                            d.what.push_str(&format!("{} uses it; ", src));
                        }
                    });
                }
            }
            8 => {
                // a relationship is lost
                if let Some(n) = choose(p, &|n: &str| n.ends_with(".rels") && (focus == 0) == (n == PRES_RELS)) {
                    let r = w(64) as usize;
                    god(|| {
                        let s = text(p, &n);
                        let v: Vec<&str> = s.split("<Relationship ").collect();
                        if v.len() > 1 && !d.hit.contains(&n) && !d.mended.contains_key(&n) {
                            let j = 1 + r % (v.len() - 1);
                            let end = v[j].find("/>").map(|x| x + 2).into_iter().chain(v[j].find("</Relationship>").map(|x| x + 15)).min();
                            if let Some(end) = end {
                                let mut out = v[0].to_string();
                                for (i, x) in v.iter().enumerate().skip(1) {
                                    if i == j {
                                        out.push_str(&x[end..]);
                                    } else {
                                        out.push_str("<Relationship ");
                                        out.push_str(x);
                                    }
                                }
                                let lost = v[j][..end].to_string();
                                set(p, &n, out);
                                d.what.push_str(&format!("{} loses {}; ", n, lost));
                            }
                        }
                    });
                }
            }
            9 => {
                // a slide leaves the list
                let r = w(64) as usize;
                god(|| {
                    if d.hit.contains(PRES) || d.mended.contains_key(PRES) || !p.contains_key(PRES) {
                        return;
                    }
                    let s = text(p, PRES);
                    let (Some(a), Some(z)) = (s.find("<p:sldIdLst>"), s.find("</p:sldIdLst>")) else { return };
                    let list = &s[a + 12..z];
                    let starts: Vec<usize> = list.match_indices("<p:sldId ").map(|x| x.0).collect();
                    if starts.is_empty() || list.contains("<!--") || list.contains("</p:sldId>") {
                        return;
                    }
                    let j = r % starts.len();
                    let end = starts[j] + list[starts[j]..].find("/>").unwrap() + 2;
                    let gone = list[starts[j]..end].to_string();
                    let all = r & 32 != 0;
                    let new = if all { String::new() } else { format!("{}{}", &list[..starts[j]], &list[end..]) };
                    let new = if all { format!("{}{}", &s[..a], &s[z + 13..]) } else { format!("{}{}{}", &s[..a + 12], new, &s[z..]) };
                    set(p, PRES, new);
                    d.what.push_str(&format!("list loses {}; ", if all { "everything" } else { &gone }));
                });
            }
            10 | 11 => {
                // a content type is lost, or has become generic
                let r = w(256) as usize;
                god(|| {
                    if d.hit.contains(TYPES) || d.mended.contains_key(TYPES) || !p.contains_key(TYPES) {
                        return;
                    }
                    let s = text(p, TYPES);
                    let starts: Vec<usize> = s.match_indices('<').map(|x| x.0).filter(|i| s[*i..].starts_with("<Override ") || s[*i..].starts_with("<Default ")).collect();
                    if starts.is_empty() {
                        return;
                    }
                    let j = starts[r % starts.len()];
                    let end = j + s[j..].find("/>").unwrap() + 2;
                    let e = s[j..end].to_string();
                    let new = if r & 128 != 0 && e.starts_with("<Override ") {
                        let c = e.find("ContentType=\"").unwrap();
                        format!("{}ContentType=\"application/xml\"/>", &e[..c])
                    } else {
                        String::new()
                    };
                    set(p, TYPES, format!("{}{}{}", &s[..j], new, &s[end..]));
                    d.what.push_str(&format!("{} becomes {:?}; ", e, new));
                });
            }
            _ => {
                // bytes that are no text
                if let Some(n) = choose(p, &|n: &str| n.starts_with("ppt/slides/slide")) {
                    god(|| {
                        let b = p.get_mut(&n).unwrap();
                        if let Some(a) = String::from_utf8_lossy(b).find("</a:t>") {
                            if b.is_ascii() {
                                b.insert(a, 0xC3);
                                b.insert(a, b'!');
                                d.mended.remove(&n);
                                d.hit.insert(n.clone());
                                d.what.push_str(&format!("{} is not UTF-8; ", n));
                            }
                        }
                    });
                }
            }
        }
    }
    d.mended.retain(|n, _| p.contains_key(n));
    d
}

fn check_result(r: &RepairResult, h: &str) {
    let (f, a, u) = (keys(&r.issues_found), keys(&r.issues_repaired), keys(&r.issues_unrepaired));
    if r.is_valid != r.issues_unrepaired.is_empty() || r.fully_repaired() != r.is_valid {
        viol!("result", "{}: is_valid is {}, issues left are {:?}", h, r.is_valid, u);
    }
    if r.issues_found.len() != r.issues_repaired.len() + r.issues_unrepaired.len() || r.issues_found.iter().any(|i| r.issues_repaired.contains(i) == r.issues_unrepaired.contains(i)) {
        viol!("result", "{}: {:?} found, {:?} repaired, {:?} left", h, f, a, u);
    }
}
fn load(b: &[u8], h: &str) -> PptxRepair {
    put("/work/d.pptx", b);
    let r = if wc(1, 2) {
        set_benign(benign_rates());
        arm();
        let r = no_panic("open", || PptxRepair::open("/work/d.pptx"));
        disarm();
        reset_faults();
        r
    } else {
        no_panic("from_bytes", || PptxRepair::from_bytes(b))
    };
    match r {
        Ok(r) => r,
        Err(e) => viol!("open", "{}: a readable container is refused: {}", h, e),
    }
}
pub fn pack(p: &Parts) -> Vec<u8> {
    let v: Vec<(String, Vec<u8>)> = god(|| p.iter().map(|(n, d)| (n.clone(), d.clone())).collect());
    god(|| zipr::write(&v, &mut |_| false))
}

fn run() {
    freeze_clock();
    god(|| sim().fs.mkdir_p("/work"));
    let (mut p, what) = start_deck(true);
    let p0 = god(|| p.clone());
    let types0: BTreeMap<String, Option<String>> = god(|| {
        let t = pkg::types(&p0).unwrap_or_else(|e| viol!("start", "{}", e));
        p0.keys().map(|n| (n.clone(), pkg::content_type(&t, n))).collect()
    });
    let d = damage(&mut p);
    let mut h = String::new();
    god(|| h = format!("[{}] {}", what.trim(), d.what.trim_end_matches("; ")));
    // 1. what is wrong is reported, and nothing else
    let b = pack(&p);
    let mut r = load(&b, &h);
    let v = no_panic("validate", || r.validate());
    let (must_, may) = god(|| expected(&p, &types0));
    let got = god(|| keys(&v));
    if let Some(x) = god(|| must_.difference(&got).next().cloned()) {
        viol!("undetected", "{}: {} is not reported; reported: {:?}", h, x, got);
    }
    if let Some(x) = god(|| got.difference(&may).next().cloned()) {
        viol!("false-report", "{}: {} is reported without reason", h, x);
    }
    // 2. the repair
    let res = no_panic("repair", || r.repair());
    god(|| check_result(&res, &h));
    if let Some(x) = god(|| got.difference(&keys(&res.issues_found)).next().cloned()) {
        viol!("result", "{}: {} is not among the issues found", h, x);
    }
    let left = god(|| keys(&res.issues_unrepaired));
    // 3. saving it
    let out = "/work/out.pptx";
    let q = if wc(1, 2) {
        put(out, b"before");
        set_benign(benign_rates());
        let trouble = wc(1, 2);
        if trouble {
            plan_snipe(WRITES, 1 + fdraw(60), wc(1, 2));
        }
        arm();
        let s = no_panic("save", || r.save(out));
        disarm();
        reset_faults();
        if let Err(e) = s {
            if !trouble {
                viol!("save", "{}: saving fails: {}", h, e);
            }
            probe("save_failed");
            if get(out).as_deref() != Some(b"before") {
                viol!("save", "{}: a save that fails changes the file", h);
            }
            must("save", r.save(out));
        }
        god(|| get(out).unwrap_or_default())
    } else {
        must("to_bytes", r.to_bytes())
    };
    let q0 = q;
    let q = read_parts("saved", &h, &q0);
    // 4. validating and repairing the result
    let mut r2 = load(&q0, &h);
    let v2 = no_panic("validate", || r2.validate());
    let k2 = god(|| keys(&v2));
    if k2 != left {
        viol!("unstable", "{}: the repaired file has issues {:?}, the repair said {:?} are left", h, k2, left);
    }
    let res2 = no_panic("repair", || r2.repair());
    god(|| check_result(&res2, &h));
    let q2b = must("to_bytes", r2.to_bytes());
    let q2 = read_parts("saved", &h, &q2b);
    if let Some(x) = god(|| diff_parts(&q, &q2)) {
        viol!("unstable", "{}: repairing the repaired file changes it: {}", h, x);
    }
    if !god(|| keys(&res2.issues_repaired)).is_empty() {
        viol!("unstable", "{}: the second repair repairs {:?}", h, god(|| keys(&res2.issues_repaired)));
    }
    // 5. the result, seen independently
    let (must2, _) = god(|| expected(&q, &types0));
    if let Some(x) = god(|| must2.difference(&left).next().cloned()) {
        viol!("not-repaired", "{}: {} is still there, but not reported", h, x);
    }
    if let Some(x) = god(|| left.iter().find(|x| !x.starts_with("xml ")).cloned()) {
        viol!("not-repaired", "{}: {} could be repaired", h, x);
    }
    if let Some(x) = god(|| left.iter().find(|x| REQUIRED.iter().any(|n| **x == format!("xml {}", n))).cloned()) {
        viol!("not-repaired", "{}: {}, which can be made anew, is left", h, x);
    }
    god(|| {
        for e in pkg::check(&q) {
            let class = e.split(':').next().unwrap();
            let bad = match class {
                "slide-unlisted" | "slide-dup" | "slide-id" | "slide-rel" | "untyped" | "type" | "types" | "types-dup" | "root" | "master-id" | "notes-master" | "handout-master" | "order" => true,
                "master" => e.contains("refers to"),
                _ => false,
            };
            if bad && !pkg::check(&p0).contains(&e) {
                viol!("inconsistent", "{}: the repaired file: {}", h, e);
            }
        }
    });
    // 6. what was good is kept
    god(|| {
        for (n, was) in &p {
            let Some(now) = q.get(n) else {
                viol!("lost", "{}: part {} is gone", h, n)
            };
            if now == was {
                if d.mended.contains_key(n) {
                    viol!("not-repaired", "{}: {} is as damaged as before", h, n);
                }
                continue;
            }
            if [TYPES, PRES, PRES_RELS].contains(&n.as_str()) || must_.contains(&format!("xml {}", n)) {
                continue;
            }
            let src = pkg::rels_source(n);
            let owner = src.clone().unwrap_or(n.clone());
            let rels = pkg::rels_name(&owner);
            let rels = if owner.is_empty() { "_rels/.rels".into() } else { rels };
            if must_.iter().any(|k| k.starts_with(&format!("broken {} ", rels)) || (src.is_none() && k.starts_with(&format!("broken {} ", n)))) {
                continue;
            }
            // what only shows once other damage is repaired
            let later = keys(&res.issues_repaired);
            let mended = d.mended.contains_key(&rels) && later.iter().any(|k| k.starts_with(&format!("broken {} ", rels)) || k.starts_with(&format!("broken {} ", n)));
            if mended || (n == "_rels/.rels" && !p.contains_key(PRES) && later.contains("broken _rels/.rels ")) {
                continue;
            }
            viol!("changed", "{}: part {} was not damaged and is changed: {}", h, n, diff_bytes(was, now));
        }
        for (n, want) in &d.mended {
            let touched = keys(&res.issues_found).iter().any(|k| k.starts_with(&format!("broken {} ", n)) || k.starts_with(&format!("broken {} ", pkg::rels_name(n))));
            let lists = [TYPES, PRES, PRES_RELS].contains(&n.as_str());
            if !touched && !lists && q.get(n) != Some(want) {
                viol!("mended", "{}: {} is not repaired faithfully: {}", h, n, diff_bytes(want, q.get(n).unwrap_or(&vec![])));
            }
        }
    });
    // 7. the slides
    god(|| {
        let order = match pkg::slide_order(&q) {
            Ok(o) => o,
            Err(e) => viol!("slides", "{}: {}", h, e),
        };
        let mut known = partial_order(&p);
        if d.mended.contains_key(PRES) || d.mended.contains_key(PRES_RELS) {
            known.clear();
        }
        known.retain(|n| p.contains_key(n));
        let mut got: Vec<String> = order.iter().filter(|n| known.contains(n)).cloned().collect();
        got.dedup();
        if got != known {
            viol!("slides", "{}: the slides {:?} come in the order {:?}", h, known, got);
        }
        let survivors: BTreeSet<&String> = p0.keys().filter(|n| pkg::is_slide(n) && p.contains_key(*n)).collect();
        let listed: BTreeSet<&String> = order.iter().collect();
        if survivors != listed || order.len() != listed.len() {
            viol!("slides", "{}: slides {:?} are listed, {:?} exist", h, order, survivors);
        }
        // the original order where something still tells it
        let o0 = pkg::slide_order(&p0).unwrap_or_default();
        let mut natural = o0.clone();
        natural.sort_by_key(|n| n.trim_start_matches("ppt/slides/slide").trim_end_matches(".xml").parse::<u64>().unwrap_or(0));
        let by_rels: Vec<String> = pkg::rels_of(&p0, PRES).into_iter().filter(|r| r.kind() == "slide").map(|r| r.target).collect();
        let intact = |n: &str| p.get(n) == p0.get(n);
        let gone = |n: &str| !p.get(n).map_or(false, |b| xmlp::parse(b).is_ok()) && !d.mended.contains_key(n);
        let tells = (intact(PRES) && gone(PRES_RELS) && natural == o0) || (gone(PRES) && intact(PRES_RELS) && by_rels == o0) || (gone(PRES) && gone(PRES_RELS) && natural == o0) || (intact(PRES) && intact(PRES_RELS));
        if tells && survivors.len() == o0.len() && order != o0 {
            viol!("slides", "{}: the slides come in the order {:?} instead of {:?}", h, order, o0);
        }
        if tells {
            probe("order_known");
        }
        // what the presentation needs besides slides
        if gone(PRES_RELS) && !gone(PRES) {
            for r in pkg::rels_of(&p0, PRES) {
                let plain = ["slideMaster", "theme", "presProps", "viewProps", "tableStyles", "notesMaster", "handoutMaster", "commentAuthors"].contains(&r.kind());
                if plain && p.contains_key(&r.target) && !pkg::rels_of(&q, PRES).iter().any(|x| x.kind() == r.kind() && x.target == r.target) {
                    viol!("relations", "{}: the presentation is not related to its {} {} any more", h, r.kind(), r.target);
                }
            }
        }
        let t = pkg::types(&q).unwrap_or_else(|e| viol!("types", "{}: {}", h, e));
        for n in q.keys().filter(|n| *n != TYPES && !n.ends_with(".rels")) {
            let now = pkg::content_type(&t, n);
            if let Some(was) = types0.get(n) {
                if *was != now {
                    viol!("types", "{}: {} has content type {:?} instead of {:?}", h, n, now, was);
                }
            }
        }
    });
    if !left.is_empty() {
        probe("issues_left");
    }
    if !god(|| keys(&res.issues_repaired)).is_empty() {
        nontrivial();
    }
    state(&god(|| {
        let mut v: Vec<String> = keys(&res.issues_found).iter().map(|k| k.split_whitespace().take(2).map(|x| x.trim_end_matches(|c: char| !c.is_alphabetic()).to_string()).collect::<Vec<_>>().join(" ")).collect();
        v.dedup();
        format!("{} {}", left.len(), v.join(","))
    }));
    sample(h);
}

pub static P: Prop = Prop {
    id: "P08",
    run,
    secs: 70,
    rule: "a run counts if the repair found and repaired at least one issue",
    state_measure: "set of issues found (kind and part family) x number of issues left",
    stubs: "file system behind the libc boundary; the repair, the generator and the ZIP code of ppt-rs are real",
    ..BASE
};
