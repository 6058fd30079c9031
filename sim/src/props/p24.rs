//! P24: templates are applied identically and completely every time.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr::{self, Parts};
use ppt_rs::generator::*;
use std::collections::BTreeSet;

const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";

fn text(p: &Parts, n: &str) -> String {
    String::from_utf8_lossy(p.get(n).map(|v| v.as_slice()).unwrap_or(b"")).to_string()
}
fn set(p: &mut Parts, n: &str, t: String) {
    p.insert(n.to_string(), t.into_bytes());
}
fn insert_before(s: &str, mark: &str, what: &str) -> String {
    match s.rfind(mark) {
        Some(i) => format!("{}{}{}", &s[..i], what, &s[i..]),
        None => s.to_string(),
    }
}
fn declare(p: &mut Parts, entry: &str) {
    let t = insert_before(&text(p, "[Content_Types].xml"), "</Types>", entry);
    set(p, "[Content_Types].xml", t);
}
/// Give a part another name everywhere.
fn rename(p: &mut Parts, from: &str, to: &str) {
    let (fd, ff) = from.rsplit_once('/').unwrap();
    let (td, tf) = to.rsplit_once('/').unwrap();
    if let Some(d) = p.remove(from) {
        p.insert(to.to_string(), d);
    }
    if let Some(d) = p.remove(&format!("{}/_rels/{}.rels", fd, ff)) {
        p.insert(format!("{}/_rels/{}.rels", td, tf), d);
    }
    let dir = fd.rsplit('/').next().unwrap();
    for (_, d) in p.iter_mut().filter(|(n, _)| n.ends_with(".rels") || n.as_str() == "[Content_Types].xml") {
        let s = String::from_utf8_lossy(d).to_string();
        *d = s.replace(&format!("{}/{}\"", dir, ff), &format!("{}/{}\"", dir, tf)).into_bytes();
    }
}

/// A template as another program may have made it.
pub fn template() -> (Parts, String) {
    let (_, b) = super::ops::deck_bytes(&gen::FULL);
    let mut p = read_parts("package", "template deck", &b);
    let mut what = String::new();
    for step in 0..w(5) {
        let which = w(9);
        let r = w(1_000_000);
        god(|| {
            what.push_str(&format!("{} ", which));
            match which {
                0 | 1 | 2 => {
                    // a picture used by a master or layout
                    let ext = ["png", "jpeg", "PNG", "emf"][(r % 4) as usize];
                    let name = format!("image{}.{}", [1, 2, 9, 40 + step][(r / 4 % 4) as usize], ext);
                    let path = format!("ppt/media/{}", name);
                    if p.keys().any(|k| k.eq_ignore_ascii_case(&path)) {
                        return;
                    }
                    let owner = if which == 0 {
                        "ppt/slideMasters/slideMaster1.xml".to_string()
                    } else {
                        format!("ppt/slideLayouts/slideLayout{}.xml", 1 + r % 7)
                    };
                    let rn = pkg::rels_name(&owner);
                    if !p.contains_key(&owner) || !p.contains_key(&rn) {
                        return;
                    }
                    p.insert(path, gen::image_of("PNG", r, 500 + (r % 4000) as usize));
                    let t = insert_before(
                        &text(&p, &rn),
                        "</Relationships>",
                        &format!("<Relationship Id=\"rIdPic{}\" Type=\"{}/image\" Target=\"{}{}\"/>", step, REL, if r % 3 == 0 { "/ppt/media/" } else { "../media/" }, name),
                    );
                    set(&mut p, &rn, t);
                    let t = text(&p, &owner).replacen(
                        "</p:spTree>",
                        &format!("<p:pic><p:nvPicPr><p:cNvPr id=\"9{}\" name=\"logo\"/><p:cNvPicPr/><p:nvPr/></p:nvPicPr><p:blipFill><a:blip r:embed=\"rIdPic{}\"/><a:stretch><a:fillRect/></a:stretch></p:blipFill><p:spPr/></p:pic></p:spTree>", step, step),
                        1,
                    );
                    set(&mut p, &owner, t);
                    let ty = pkg::types(&p).map(|t| t.defaults.contains_key(&ext.to_lowercase())).unwrap_or(false);
                    if !ty {
                        declare(&mut p, &format!("<Default Extension=\"{}\" ContentType=\"image/{}\"/>", ext, if ext == "emf" { "x-emf" } else { "png" }));
                    }
                }
                3 => rename(&mut p, "ppt/theme/theme1.xml", &format!("ppt/theme/theme{}.xml", 5 + r % 4)),
                4 => {
                    let from = format!("ppt/slideLayouts/slideLayout{}.xml", 1 + r / 8 % 7);
                    let to = format!("ppt/slideLayouts/slideLayout{}.xml", 8 + r % 8);
                    if p.contains_key(&from) && !p.contains_key(&to) {
                        rename(&mut p, &from, &to);
                    }
                }
                5 => {
                    // a second master with its own layout and theme
                    if p.contains_key("ppt/slideMasters/slideMaster2.xml") {
                        return;
                    }
                    let theme = match p.keys().find(|k| k.starts_with("ppt/theme/theme")) {
                        Some(k) => p[k].clone(),
                        None => return,
                    };
                    p.insert("ppt/theme/theme21.xml".into(), theme);
                    let m = text(&p, "ppt/slideMasters/slideMaster1.xml");
                    let mut m2 = m.clone();
                    // one layout only, no pictures
                    if let (Some(a), Some(z)) = (m2.find("<p:sldLayoutIdLst>"), m2.find("</p:sldLayoutIdLst>")) {
                        m2 = format!("{}<p:sldLayoutIdLst><p:sldLayoutId id=\"2147483900\" r:id=\"rId1\"/>{}", &m2[..a], &m2[z..]);
                    } else {
                        return;
                    }
                    while let (Some(a), Some(z)) = (m2.find("<p:pic>"), m2.find("</p:pic>")) {
                        m2.replace_range(a..z + 8, "");
                    }
                    set(&mut p, "ppt/slideMasters/slideMaster2.xml", m2);
                    set(&mut p, "ppt/slideMasters/_rels/slideMaster2.xml.rels", format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{R}/slideLayout\" Target=\"../slideLayouts/slideLayout31.xml\"/><Relationship Id=\"rId2\" Type=\"{R}/theme\" Target=\"../theme/theme21.xml\"/></Relationships>", R = REL));
                    let l1 = match p.keys().find(|k| k.starts_with("ppt/slideLayouts/slideLayout")) {
                        Some(k) => k.clone(),
                        None => return,
                    };
                    let mut l = text(&p, &l1);
                    while let (Some(a), Some(z)) = (l.find("<p:pic>"), l.find("</p:pic>")) {
                        l.replace_range(a..z + 8, "");
                    }
                    set(&mut p, "ppt/slideLayouts/slideLayout31.xml", l);
                    set(&mut p, "ppt/slideLayouts/_rels/slideLayout31.xml.rels", format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{R}/slideMaster\" Target=\"../slideMasters/slideMaster2.xml\"/></Relationships>", R = REL));
                    for (n, t) in [("slideMasters/slideMaster2", "slideMaster"), ("slideLayouts/slideLayout31", "slideLayout")] {
                        declare(&mut p, &format!("<Override PartName=\"/ppt/{}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.{}+xml\"/>", n, t));
                    }
                    declare(&mut p, "<Override PartName=\"/ppt/theme/theme21.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
                    let t = insert_before(&text(&p, "ppt/_rels/presentation.xml.rels"), "</Relationships>", &format!("<Relationship Id=\"rId901\" Type=\"{}/slideMaster\" Target=\"slideMasters/slideMaster2.xml\"/>", REL));
                    set(&mut p, "ppt/_rels/presentation.xml.rels", t);
                    let t = insert_before(&text(&p, "ppt/presentation.xml"), "</p:sldMasterIdLst>", "<p:sldMasterId id=\"2147483800\" r:id=\"rId901\"/>");
                    set(&mut p, "ppt/presentation.xml", t);
                }
                6 => {
                    // an external link of the master
                    let rn = "ppt/slideMasters/_rels/slideMaster1.xml.rels";
                    let t = insert_before(&text(&p, rn), "</Relationships>", &format!("<Relationship Id=\"rIdX{}\" Type=\"{}/hyperlink\" Target=\"https://example.test/a?b&amp;c\" TargetMode=\"External\"/>", step, REL));
                    set(&mut p, rn, t);
                }
                7 => {
                    let t = text(&p, "ppt/slideMasters/slideMaster1.xml").replace("Click to edit", "Firmenvorlage &amp; Co");
                    set(&mut p, "ppt/slideMasters/slideMaster1.xml", t);
                }
                _ => {
                    if p.contains_key("ppt/tableStyles.xml") {
                        let t = text(&p, "ppt/tableStyles.xml").replacen("<a:tblStyleLst ", &format!("<!-- house style {} --><a:tblStyleLst ", r), 1);
                        set(&mut p, "ppt/tableStyles.xml", t);
                    }
                }
            }
        });
    }
    (p, what)
}

/// Everything reachable from the template's masters.
fn carried(p: &Parts) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<String> = pkg::rels_of(p, "ppt/presentation.xml").into_iter().filter(|r| r.kind() == "slideMaster").map(|r| r.target).collect();
    while let Some(n) = todo.pop() {
        if !out.insert(n.clone()) {
            continue;
        }
        for r in pkg::rels_of(p, &n) {
            if !r.external {
                todo.push(r.target);
            }
        }
        if p.contains_key(&pkg::rels_name(&n)) {
            out.insert(pkg::rels_name(&n));
        }
    }
    out
}

struct Lazy(Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}

fn verify(b: &[u8], tpl: &Parts, own_theme: bool, plain: &[pkg::SlideView], what: &str) -> Parts {
    let parts = read_parts("package", "deck from a template", b);
    // no part is stored twice
    let names: Vec<String> = god(|| zipr::read_entries(b).unwrap_or_default().into_iter().map(|e| e.name.to_lowercase()).collect());
    let set: BTreeSet<&String> = names.iter().collect();
    if set.len() != names.len() {
        viol!("twice", "a part is stored twice {:?}", what);
    }
    if let Some(e) = god(|| pkg::check(&parts)).first() {
        viol!("inconsistent", "deck from template [{}]: {}", what, e);
    }
    let want = god(|| carried(tpl));
    let first_theme = god(|| {
        let m = pkg::rels_of(tpl, "ppt/presentation.xml");
        let pres = text(tpl, "ppt/presentation.xml");
        // the first master listed
        let id = crate::xmlp::parse(pres.as_bytes()).ok().and_then(|e| e.all("sldMasterId").first().and_then(|x| x.attr("r:id").map(|s| s.to_string())));
        m.iter().find(|r| Some(&r.id) == id.as_ref()).and_then(|r| pkg::rels_of(tpl, &r.target).into_iter().find(|r| r.kind() == "theme").map(|r| r.target))
    });
    let (tt, gt) = god(|| (pkg::types(tpl).unwrap(), pkg::types(&parts).unwrap()));
    for n in &want {
        let t = match tpl.get(n) {
            Some(t) => t,
            None => continue,
        };
        match parts.get(n) {
            None => viol!("lost", "template part {} is missing from the deck [{}]", n, what),
            Some(d) if d != t => {
                if own_theme && Some(n) == first_theme.as_ref() {
                    continue;
                }
                viol!("changed", "template part {} is not byte-identical in the deck [{}]: {}", n, what, diff_bytes(t, d))
            }
            _ => {}
        }
        if !n.ends_with(".rels") {
            let (a, b) = god(|| (pkg::content_type(&tt, n), pkg::content_type(&gt, n)));
            if a != b {
                viol!("type", "template part {} is declared {:?}, in the template {:?}", n, b, a);
            }
        }
    }
    // the presentation leads to every master
    let ms = |p: &Parts| -> Vec<String> { god(|| pkg::rels_of(p, "ppt/presentation.xml").into_iter().filter(|r| r.kind() == "slideMaster").map(|r| r.target).collect()) };
    let (mut a, mut c) = (ms(tpl), ms(&parts));
    a.sort();
    c.sort();
    if a != c {
        viol!("unlinked", "masters {:?} instead of {:?} [{}]", c, a, what);
    }
    // no other master, layout or picture appears
    for n in parts.keys() {
        if (n.starts_with("ppt/slideMasters/") || n.starts_with("ppt/slideLayouts/")) && !want.contains(n) {
            viol!("foreign", "{} is not part of the template [{}]", n, what);
        }
    }
    if let (Some(t), Some(d)) = (tpl.get("ppt/tableStyles.xml"), parts.get("ppt/tableStyles.xml")) {
        if t != d {
            viol!("changed", "the template's table styles are not carried [{}]", what);
        }
    }
    // the slides are the given ones
    let got = match god(|| pkg::deck_view(&parts)) {
        Ok(v) => v,
        Err(e) => viol!("inconsistent", "{} [{}]", e, what),
    };
    if got.len() != plain.len() {
        viol!("slides", "{} of {} slides [{}]", got.len(), plain.len(), what);
    }
    for (i, (g, p)) in got.iter().zip(plain).enumerate() {
        if g != p {
            viol!("slides", "slide {} differs from the one built without a template: {:?} / {:?} [{}]", i + 1, g, p, what);
        }
    }
    // every slide uses a layout of the template
    for s in god(|| pkg::slide_order(&parts)).unwrap_or_default() {
        let l: Vec<String> = god(|| pkg::rels_of(&parts, &s).into_iter().filter(|r| r.kind() == "slideLayout").map(|r| r.target).collect());
        if l.len() != 1 || !want.contains(&l[0]) {
            viol!("unlinked", "{} uses the layouts {:?} [{}]", s, l, what);
        }
    }
    parts
}

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    god(|| {
        for d in ["/tmp", "/work", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let path = "/in/house.pptx";
    let (tpl, what) = template();
    if let Some(e) = god(|| pkg::check(&tpl)).first() {
        viol!("start", "the generated template is inconsistent: {} [{}]", e, what);
    }
    let file = {
        let mut v: Vec<(String, Vec<u8>)> = god(|| tpl.iter().map(|(k, d)| (k.clone(), d.clone())).collect());
        for i in (1..v.len()).rev() {
            let j = w(i as u64 + 1) as usize;
            god(|| v.swap(i, j));
        }
        let m = w(2) == 0;
        god(|| zipr::write(&v, &mut |_| m))
    };
    put(path, &file);
    let o = gen::Opt { max_slides: 3, ..gen::FULL };
    let deck = gen::deck(&o);
    let own_theme = deck.settings.as_ref().is_some_and(|s| s.theme.is_some());
    let plain = must("build without a template", deck.build());
    let plain = match god(|| pkg::deck_view(&read_parts("package", "plain deck", &plain))) {
        Ok(v) => v,
        Err(e) => viol!("slides", "{}", e),
    };
    let mut with = deck.settings.clone().unwrap_or_default();
    with.template_path = Some(path.into());
    let route = w(4);
    let go = || -> Result<Vec<u8>, String> {
        match route {
            0 => e2s(create_pptx_with_template(&deck.title, &deck.slides, path, deck.settings.clone())),
            1 => e2s(create_pptx_with_settings(&deck.title, &deck.slides, Some(with.clone()))),
            2 => e2s(create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), &deck.title, Box::new(Lazy(deck.slides.clone())), Some(with.clone()))).map(|c| c.into_inner()),
            _ => e2s(create_pptx_with_content_to_writer(std::io::Cursor::new(vec![]), &deck.title, &deck.slides, Some(with.clone()))).map(|c| c.into_inner()),
        }
    };
    let (r, n) = measure(READS, None, || no_panic("build from template", go));
    let b = match r {
        Ok(b) => b,
        Err(e) => viol!("unexpected-error", "a readable template [{}] is rejected: {}", what, e),
    };
    let first = verify(&b, &tpl, own_theme, &plain, &what);
    // again, with the storage failing or changing
    let mut other: Option<(Parts, Vec<u8>)> = None;
    let mode = w(4);
    let mut damaged = false;
    let r = match mode {
        0 | 1 => {
            plan_snipe(READS, n, wc(1, 5));
            set_benign(benign_rates());
            arm();
            let r = no_panic("build from template", go);
            disarm();
            r
        }
        2 => {
            // another process replaces the template in one step
            let (t2, w2) = template();
            if let Some(e) = god(|| pkg::check(&t2)).first() {
                viol!("start", "the second template is inconsistent: {} [{}]", e, w2);
            }
            let v: Vec<(String, Vec<u8>)> = god(|| t2.iter().map(|(k, d)| (k.clone(), d.clone())).collect());
            let f2 = god(|| zipr::write(&v, &mut |_| true));
            other = Some((t2, f2.clone()));
            let steps = fdraw(200);
            let c = super::p11::Ptr((f2, path));
            let h = std::thread::Builder::new()
                .spawn(move || {
                    let c = c;
                    for _ in 0..steps {
                        god(|| sched_yield_now());
                    }
                    god(|| {
                        sim().fs.remove(c.0 .1);
                        sim().fs.put(c.0 .1, &c.0 .0);
                        count("source_changed");
                    });
                })
                .unwrap();
            super::p11::schedule();
            let r = no_panic("build from template", go);
            super::p11::unschedule();
            let _ = h.join();
            r
        }
        _ => {
            // truncated or damaged on disk
            let mut d = file.clone();
            let at = fdraw(d.len() as u64) as usize;
            god(|| {
                if fdraw(2) == 0 {
                    count("damage_truncated");
                    d.truncate(at);
                } else {
                    // inside stored data: names in the directory carry no checksum
                    count("damage_flipped");
                    let e = zipr::read_entries(&d).unwrap_or_default();
                    let v: Vec<_> = e.iter().filter(|e| e.comp_len > 0).collect();
                    let e = v[at % v.len()];
                    let o = e.data_off + fdraw(e.comp_len as u64) as usize;
                    d[o] ^= 1 << fdraw(8);
                }
            });
            damaged = true;
            put(path, &d);
            let r = no_panic("build from template", go);
            r
        }
    };
    let f = fired();
    god(reset_faults);
    if !f.is_empty() || other.is_some() || damaged {
        nontrivial();
    }
    state(&god(|| format!("{} {} {} {} {:?} {:x}", what, route, mode, r.is_ok(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()), if mode == 2 { sim().sched_hash } else { 0 })));
    sample(god(|| format!("template [{}] {} parts route {} mode {} faults {:?}: {}", what, tpl.len(), route, mode, f, match &r { Ok(_) => "ok".into(), Err(e) => short(e.as_bytes()) })));
    match r {
        Err(e) => {
            probe("error");
            if f.is_empty() && !damaged {
                viol!("unexpected-error", "mode {}: building again from the same template failed: {}", mode, e);
            }
        }
        Ok(b) => {
            probe("success");
            let again = read_parts("package", "deck from a template", &b);
            match &other {
                Some((t2, _)) => {
                    // one template or the other, never a mixture
                    if diff_parts(&first, &again).is_some() {
                        verify(&b, t2, own_theme, &plain, "the other template");
                        probe("other template");
                    }
                }
                None => {
                    if let Some(d) = diff_parts(&first, &again) {
                        viol!("repeat", "building again from one template gives another deck (faults {:?}, damaged {}): {}", f, damaged, d);
                    }
                }
            }
        }
    }
    // once more, after the fault; the file may be another one by now
    put(path, &file);
    match w(4) {
        0 => {
            let (t2, w2) = template();
            if let Some(e) = god(|| pkg::check(&t2)).first() {
                viol!("start", "the second template is inconsistent: {} [{}]", e, w2);
            }
            let v: Vec<(String, Vec<u8>)> = god(|| t2.iter().map(|(k, d)| (k.clone(), d.clone())).collect());
            put(path, &god(|| zipr::write(&v, &mut |_| true)));
            let want: Result<Vec<u8>, String> = twin(|| no_panic("build from the new template", go));
            let r = no_panic("build from the new template", go);
            match (want, r) {
                (Ok(x), Ok(y)) => {
                    let p = verify(&y, &t2, own_theme, &plain, &w2);
                    if let Some(d) = diff_parts(&read_parts("package", "deck from the new template", &x), &p) {
                        viol!("stale", "after the template file was replaced, another deck than in a new process: {}", d);
                    }
                }
                (Err(e), _) | (_, Err(e)) => viol!("unexpected-error", "a readable template [{}] is rejected: {}", w2, e),
            }
            probe("replaced between builds");
        }
        1 => {
            god(|| {
                sim().fs.remove(path);
            });
            if no_panic("build without the template", go).is_ok() {
                viol!("stale", "the template file is gone, yet building from it succeeded");
            }
            probe("removed between builds");
        }
        _ => match no_panic("build from template", go) {
            Err(e) => viol!("unexpected-error", "building again after the fault failed: {}", e),
            Ok(b) => {
                if let Some(d) = diff_parts(&first, &read_parts("package", "deck from a template", &b)) {
                    viol!("repeat", "building again after the fault gives another deck: {}", d);
                }
            }
        },
    }
}

pub static P: Prop = Prop {
    id: "P24",
    run,
    rule: "a run counts if the template was damaged, replaced during the build, or a system call reading it was failed",
    state_measure: "features of the template x route x fault mode x first fault x interleaving hash x outcome",
    stubs: "file system behind the libc boundary; all of ppt-rs is real",
    ..BASE
};
