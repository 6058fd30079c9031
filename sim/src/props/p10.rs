//! P10: compression keeps the deck's content and is safe when it fails.
use super::edits::{declare, insert_before, relate, set, start_deck, text, PRES};
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::xmlp::{self, El, Node};
use crate::zipr::{self, Parts};
use ppt_rs::opc::compress::*;
use std::collections::BTreeSet;

const DECL: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";

/// Whitespace between the elements of a text that has none there.
fn pretty(s: &str, every: u64, r: u64) -> String {
    let mut out = String::new();
    let mut depth = 0usize;
    let mut n = 0u64;
    let pieces: Vec<&str> = s.split_inclusive('>').collect();
    for (k, p) in pieces.iter().enumerate() {
        out.push_str(p);
        let tag = &p[p.rfind('<').unwrap_or(0)..];
        let start = !tag.starts_with("</") && !tag.starts_with("<?") && !tag.starts_with("<!") && !tag.ends_with("/>");
        if tag.starts_with("</") {
            depth = depth.saturating_sub(1);
        } else if start {
            depth += 1;
        }
        // not inside an element without child elements
        match pieces.get(k + 1) {
            Some(q) if q.starts_with('<') && !(start && q.starts_with("</")) => {
                n += 1;
                if (n + r) % every == 0 {
                    match (n / every + r) % 4 {
                        0 => out.push_str(&format!("\r\n{}", "\t".repeat(depth % 9))),
                        3 if k > 3 && !tag.starts_with("<?") => out.push_str("\n <!-- a <b> -->\n"),
                        _ => out.push_str(&format!("\n{}", "  ".repeat(depth % 9))),
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn decorate(p: &mut Parts) -> String {
    let mut what = String::new();
    for step in 0..w(7) {
        let k = w(12);
        let r = w(1 << 30);
        god(|| {
            let order = pkg::slide_order(p).unwrap_or_default();
            let slide = order.get(r as usize % order.len().max(1)).cloned();
            match k {
                0 | 1 => {
                    // a media file nobody uses
                    let ext = ["png", "PNG", "mp4", "wav", "svg", "emf"][(r % 6) as usize];
                    let dir = if r & 64 == 0 { "ppt/media/" } else { "ppt/media/old/" };
                    let n = format!("{}unused{}.{}", dir, step, ext);
                    p.insert(n.clone(), gen::image_of("PNG", r, 200 + (r % 3000) as usize));
                    declare(p, &format!("<Override PartName=\"/{}\" ContentType=\"image/{}\"/>", n, ext));
                    if r & 256 != 0 && !order.is_empty() {
                        let s = &order[r as usize / 512 % order.len()];
                        if r & 512 != 0 {
                            relate(p, s, &format!("rIdNow{}", step), "image", &format!("/{}", n));
                        }
                    }
                    if r & 128 != 0 {
                        // which has relationships of its own
                        set(p, &pkg::rels_name(&n), format!("{}<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"/>", DECL));
                    }
                }
                2 | 3 => {
                    // a picture used elsewhere than on a slide
                    let owners: Vec<String> = p
                        .keys()
                        .filter(|n| n.ends_with(".xml") && !n.contains("_rels"))
                        .filter(|n| ["ppt/notesSlides/", "ppt/slideMasters/", "ppt/slideLayouts/", "ppt/theme/", "ppt/charts/", "ppt/notesMasters/", "ppt/presentation.xml", "customXml/"].iter().any(|d| n.starts_with(d)))
                        .cloned()
                        .collect();
                    let o = owners[r as usize % owners.len()].clone();
                    let n = format!("ppt/media/used{}.{}", step, ["png", "Png", "wdp"][(r / 7 % 3) as usize]);
                    p.insert(n.clone(), gen::image_of("PNG", r, 200 + (r % 3000) as usize));
                    declare(p, &format!("<Override PartName=\"/{}\" ContentType=\"image/png\"/>", n));
                    let up = "../".repeat(o.matches('/').count());
                    let t = match r % 4 {
                        0 => format!("/{}", n),
                        1 => format!("{}{}", up, n),
                        2 => format!("{}x/../{}", up, n),
                        _ => format!("./{}{}", up, n),
                    };
                    relate(p, &o, &format!("rIdU{}", step), ["image", "video", "blip"][(r / 5 % 3) as usize], &t);
                }
                4 | 5 => {
                    // written with whitespace between elements
                    let every = 1 + r % 5;
                    let which = r / 5 % 3;
                    let names: Vec<String> = p.keys().filter(|n| n.ends_with(".xml") || n.ends_with(".rels")).filter(|n| which == 0 || pkg::hash(n.as_bytes()).wrapping_add(r) % 3 == 0).cloned().collect();
                    for n in names {
                        // texts with a comment or character data of their own stay as they are
                        let t = text(p, &n);
                        if !t.contains("<![CDATA[") && !t.contains("<!--") && !t.contains("xml:space") && !n.starts_with("customXml/") {
                            set(p, &n, pretty(&t, every, r));
                        }
                    }
                }
                6 => {
                    // spaces that are text
                    if let Some(s) = slide {
                        let t = [" ", "\t", "  \n ", " a ", "<!-- c --> <!-- d -->", " <!-- only -->", "  <![CDATA[ ]]> ", "&#32;&#160;", "<?x y?>  "][(r / 3 % 9) as usize];
                        let x = format!("<p:sp><p:nvSpPr><p:cNvPr id=\"7{}\" name=\"  spaced  name \"/><p:cNvSpPr/><p:nvPr/></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/><a:p><a:r><a:t>one</a:t></a:r><a:r><a:t>{}</a:t></a:r><a:r><a:t>two</a:t></a:r></a:p></p:txBody></p:sp>", 10 + step, t);
                        let t = insert_before(&text(p, &s), "</p:spTree>", &x);
                        set(p, &s, t);
                    }
                }
                7 => {
                    // threaded comments
                    if let Some(s) = slide {
                        if p.contains_key("ppt/authors.xml") {
                            return;
                        }
                        set(p, "ppt/authors.xml", format!("{}<p188:authorLst xmlns:p188=\"http://schemas.microsoft.com/office/powerpoint/2018/8/main\"><p188:author id=\"{{1}}\" name=\"Ann\" initials=\"A\" userId=\"a\" providerId=\"None\"/></p188:authorLst>", DECL));
                        declare(p, "<Override PartName=\"/ppt/authors.xml\" ContentType=\"application/vnd.ms-powerpoint.authors+xml\"/>");
                        relate(p, PRES, "rIdAuthors2", "authors", "authors.xml");
                        set(p, "ppt/comments/modernComment_100_0.xml", format!("{}<p188:cmLst xmlns:p188=\"http://schemas.microsoft.com/office/powerpoint/2018/8/main\"><p188:cm id=\"{{2}}\" authorId=\"{{1}}\" created=\"2026-01-01T00:00:00\"/></p188:cmLst>", DECL));
                        declare(p, "<Override PartName=\"/ppt/comments/modernComment_100_0.xml\" ContentType=\"application/vnd.ms-powerpoint.comments+xml\"/>");
                        relate(p, &s, "rIdModern", "comments", "../comments/modernComment_100_0.xml");
                        let x = "<p:ext uri=\"{6950BFC3-D8DA-4A85-94F7-54DA5524770B}\"><p188:commentRel xmlns:p188=\"http://schemas.microsoft.com/office/powerpoint/2018/8/main\" r:id=\"rIdModern\"/></p:ext>";
                        let t = text(p, &s);
                        if !t.contains("<p:extLst>") {
                            let t = insert_before(&t, "</p:sld>", &format!("<p:extLst>{}</p:extLst>", x));
                            set(p, &s, t);
                        }
                    }
                }
                8 => {
                    // data in which spaces count
                    let x = ["<d>a <b>x</b> <c>y</c></d>", "<d xml:space=\"preserve\"> <b/> <c> </c> </d>", "<d>\n <b/>\n <c/>\n</d>", "<d><b xml:space=\"preserve\"> <i/> </b> <c/></d>", "<d><b/> &#32; <c/></d>", "<d><b/> <![CDATA[ ]]><c/> </d>"][(r % 6) as usize];
                    set(p, "customXml/item7.xml", format!("{}{}", DECL, x));
                    let t = insert_before(&text(p, "_rels/.rels"), "</Relationships>", "<Relationship Id=\"rIdItem7\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml\" Target=\"customXml/item7.xml\"/>");
                    if !text(p, "_rels/.rels").contains("rIdItem7") {
                        set(p, "_rels/.rels", t);
                    }
                }
                9 => {
                    if p.contains_key("docProps/custom.xml") {
                        return;
                    }
                    set(p, "docProps/custom.xml", format!("{}<Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/custom-properties\"/>", DECL));
                    declare(p, "<Override PartName=\"/docProps/custom.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.custom-properties+xml\"/>");
                    let t = insert_before(&text(p, "_rels/.rels"), "</Relationships>", "<Relationship Id=\"rIdCustomP\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/custom-properties\" Target=\"docProps/custom.xml\"/>");
                    set(p, "_rels/.rels", t);
                }
                10 => {
                    // a linked, not embedded picture next to an unused file of that name
                    if let Some(s) = slide {
                        let n = pkg::rels_name(&s);
                        let t = insert_before(&text(p, &n), "</Relationships>", "<Relationship Id=\"rIdExt\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"../media/linked.png\" TargetMode=\"External\"/>");
                        if !text(p, &n).contains("rIdExt\"") {
                            set(p, &n, t);
                        }
                        if !p.contains_key("ppt/media/linked.png") {
                            p.insert("ppt/media/linked.png".into(), gen::image_of("PNG", r, 400));
                            declare(p, "<Override PartName=\"/ppt/media/linked.png\" ContentType=\"image/png\"/>");
                        }
                    }
                }
                _ => {
                    // two slides that share their notes' picture or one picture
                    let img: Option<String> = p.keys().find(|n| n.starts_with("ppt/media/") && !n.ends_with(".rels")).cloned();
                    if let (Some(s), Some(i)) = (slide, img) {
                        if !text(p, &pkg::rels_name(&s)).contains("rIdShared") {
                            relate(p, &s, "rIdShared", "image", &format!("/{}", i));
                        }
                    }
                }
            }
            what.push_str(&format!("{} ", k));
        });
    }
    what
}

/// What an XML text says, without the whitespace that only separates elements.
fn normal(e: &El, preserve: bool, out: &mut String) {
    let preserve = match e.attr("xml:space") {
        Some("preserve") => true,
        Some(_) => false,
        None => preserve,
    };
    // text is content where an element holds no others or holds other text
    let blank = |s: &str| s.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
    let kids = e.els().next().is_some() || e.local() == "ext";
    let mixed = e.kids.iter().any(|k| matches!(k, Node::T(t) if !blank(t)));
    let mut a = e.attrs.clone();
    a.sort();
    out.push_str(&format!("<{} {:?}>", e.name, a));
    for k in &e.kids {
        match k {
            Node::E(x) => normal(x, preserve, out),
            Node::T(t) if !kids || mixed || preserve => out.push_str(t),
            _ => {}
        }
    }
    out.push_str("</>");
}
fn norm(b: &[u8]) -> Result<String, String> {
    let mut s = String::new();
    normal(&xmlp::parse(b)?, false, &mut s);
    Ok(s)
}

/// Removed parts are those the options name, and nothing else changed.
fn compare(p: &Parts, q: &Parts, o: &CompressionOptions, removed_media: usize) -> Result<(), (&'static str, String)> {
    let t = pkg::types(p).map_err(|e| ("harness", e))?;
    let is = |n: &str, kinds: &[&str]| pkg::content_type(&t, n).map_or(false, |c| kinds.iter().any(|k| c.ends_with(k)));
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for n in p.keys() {
        if n.ends_with(".rels") {
            continue;
        }
        let named = (o.remove_properties && ["docProps/core.xml", "docProps/app.xml", "docProps/custom.xml", "docProps/thumbnail.jpeg"].contains(&n.as_str()))
            || (o.remove_notes && is(n, &["presentationml.notesSlide+xml"]))
            || (o.remove_comments && is(n, &["presentationml.comments+xml", "presentationml.commentAuthors+xml", "ms-powerpoint.comments+xml", "ms-powerpoint.authors+xml"]));
        if named {
            gone.insert(n.clone());
        }
    }
    let mut media = 0;
    if o.remove_unused_media {
        let mut used = BTreeSet::new();
        for n in p.keys() {
            if let Some(s) = pkg::rels_source(n) {
                if !gone.contains(&s) {
                    used.extend(pkg::parse_rels(&s, &p[n]).map_err(|e| ("harness", e))?.into_iter().filter(|r| !r.external).map(|r| r.target));
                }
            }
        }
        for n in p.keys().filter(|n| n.starts_with("ppt/media/") && !n.ends_with(".rels") && !used.contains(*n)) {
            media += 1;
            gone.insert(n.clone());
        }
    }
    let all: Vec<&String> = p.keys().chain(q.keys()).collect();
    for n in all {
        let g = gone.contains(n) || pkg::rels_source(n).map_or(false, |s| gone.contains(&s));
        match (p.get(n), q.get(n)) {
            (Some(_), None) if g => {}
            (Some(_), None) => return Err(("lost", format!("{} was removed", n))),
            (None, Some(_)) => return Err(("appeared", format!("{} appeared", n))),
            (Some(_), Some(_)) if g => return Err(("kept", format!("{} is still there", n))),
            (Some(a), Some(b)) => {
                let xml = n.ends_with(".xml") || n.ends_with(".rels");
                if n == "[Content_Types].xml" {
                    let (x, y) = (pkg::types(p).map_err(|e| ("harness", e))?, pkg::types(q).map_err(|e| ("types", e))?);
                    let ox: Vec<_> = x.overrides.iter().filter(|(k, _)| !gone.contains(*k)).collect();
                    let oy: Vec<_> = y.overrides.iter().collect();
                    if x.defaults != y.defaults || ox != oy {
                        return Err(("types", format!("the declared types changed: {:?} / {:?}", ox.iter().find(|k| !oy.contains(k)), oy.iter().find(|k| !ox.contains(k)))));
                    }
                } else if let Some(s) = pkg::rels_source(n) {
                    let x: Vec<_> = pkg::parse_rels(&s, a).map_err(|e| ("harness", e))?.into_iter().filter(|r| r.external || !gone.contains(&r.target)).collect();
                    let y = pkg::parse_rels(&s, b).map_err(|e| ("xml", format!("{}: {}", n, e)))?;
                    if format!("{:?}", x) != format!("{:?}", y) {
                        return Err(("rels", format!("{} is now {:?} instead of {:?}", n, y, x)));
                    }
                } else if a != b {
                    if !xml {
                        return Err(("bytes", format!("{} differs: {}", n, diff_bytes(a, b))));
                    }
                    let mut x = norm(a).map_err(|e| ("harness", format!("{}: {}", n, e)))?;
                    let y = norm(b).map_err(|e| ("xml", format!("{}: {}", n, e)))?;
                    if o.remove_comments {
                        // the mark that a slide has threaded comments
                        if let Some(i) = x.find("<p188:commentRel ") {
                            let j = i + x[i..].find("</>").unwrap_or(0) + 3;
                            x.replace_range(i..j, "");
                        }
                    }
                    if x != y {
                        return Err(("xml", format!("{} says something else: {}", n, diff_bytes(x.as_bytes(), y.as_bytes()))));
                    }
                    if !o.optimize_xml && !x.is_empty() && a != b && !text(p, n).contains("commentRel") {
                        return Err(("bytes", format!("{} was rewritten although that was not asked for", n)));
                    }
                }
            }
            (None, None) => {}
        }
    }
    if media != removed_media {
        return Err(("report", format!("{} unused media files are reported as removed, and {} are", removed_media, media)));
    }
    if let Some(e) = pkg::check(q).first() {
        return Err(("inconsistent", e.clone()));
    }
    Ok(())
}
fn report(r: &CompressionResult, input: usize, output: usize, o: &CompressionOptions) -> Option<String> {
    let pc = (input as f64 - output as f64) / (input.max(1)) as f64 * 100.0;
    if r.original_size != input {
        Some(format!("the original size is reported as {} and is {}", r.original_size, input))
    } else if r.compressed_size != output {
        Some(format!("the compressed size is reported as {} and is {}", r.compressed_size, output))
    } else if (r.reduction_percent - pc).abs() > 1e-6 {
        Some(format!("a reduction of {} % is reported instead of {} %", r.reduction_percent, pc))
    } else if r.target_achieved != (o.target_size == 0 || output <= o.target_size) {
        Some(format!("target_achieved is {} for {} bytes with a target of {}", r.target_achieved, output, o.target_size))
    } else if r.images_compressed != 0 {
        Some(format!("{} images are reported as compressed, and every image is as before", r.images_compressed))
    } else {
        None
    }
}
fn analysis(a: &PptxAnalysis, p: &Parts, file: usize) -> Option<String> {
    let media: Vec<_> = p.iter().filter(|(n, _)| n.starts_with("ppt/media/") && !n.ends_with(".rels")).collect();
    let all: usize = p.values().map(|v| v.len()).sum();
    let slides = pkg::slide_order(p).map(|o| o.len()).unwrap_or(0);
    let img: usize = media.iter().filter(|(n, _)| [".png", ".jpg", ".jpeg", ".gif", ".bmp", ".tiff", ".tif", ".svg", ".emf", ".wmf", ".webp"].iter().any(|e| n.to_lowercase().ends_with(e))).map(|m| m.1.len()).sum();
    if a.total_size != file {
        Some(format!("total size {} of a file of {}", a.total_size, file))
    } else if a.images_size + a.xml_size + a.other_size != all {
        Some(format!("the shares add up to {} and the parts to {}", a.images_size + a.xml_size + a.other_size, all))
    } else if a.slide_count != slides {
        Some(format!("{} slides of {}", a.slide_count, slides))
    } else if a.image_count + a.media_count != media.len() {
        Some(format!("{} images and {} other media files of {}", a.image_count, a.media_count, media.len()))
    } else if a.images_size != img {
        Some(format!("images of {} bytes that have {}", a.images_size, img))
    } else {
        None
    }
}

fn run() {
    freeze_clock();
    god(|| {
        for d in ["/work", "/tmp", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let (mut p, f) = start_deck(true);
    let what = decorate(&mut p);
    if let Some(e) = god(|| pkg::check(&p)).first() {
        viol!("start", "the deck [{} / {}] is inconsistent: {}", f, what, e);
    }
    let v: Vec<(String, Vec<u8>)> = god(|| p.clone().into_iter().collect());
    let input = god(|| zipr::write(&v, &mut |n| w(n.max(1) as u64) == 1));
    let o = super::ops::comp_options();
    put("/in/d.pptx", &input);
    let out: &'static str = ["/work/out.pptx", "/in/d.pptx", "/work/out.pptx", "/work/old.pptx"][w(4) as usize];
    if out == "/work/old.pptx" {
        put(out, b"something that was there before");
    }
    let old = get(out);
    god(|| sim().fs.sync_all());

    // in memory, without the file system
    let (b, r) = match call(|| compress_pptx_in_memory(&input, &o)) {
        Ok(x) => must("compress_pptx_in_memory", x),
        Err(m) => viol!("panic", "compress_pptx_in_memory panicked: {}", m),
    };
    let q = read_parts("package", "the compressed deck", &b);
    god(|| {
        if let Err((c, m)) = compare(&p, &q, &o, r.unused_media_removed) {
            if c == "harness" {
                viol!("start", "{}", m);
            }
            viol!(c, "compressing [{} / {}] with {:?}: {}", f, what, o, m);
        }
        if let Some(m) = report(&r, input.len(), b.len(), &o) {
            viol!("report", "{}", m);
        }
    });
    // the same with files and faults
    let which = w(4);
    let snap = god(|| sim().fs.clone());
    let o2 = o.clone();
    let media = r.unused_media_removed;
    let size = input.len();
    let src0 = god(|| input.clone());
    let go = move || -> Result<String, String> {
        match which {
            0 => {
                let a = e2s(analyze_pptx("/in/d.pptx"))?;
                god(|| match analysis(&a, &p, size) {
                    Some(m) => Err(format!("!{}", m)),
                    None => Ok(String::new()),
                })
            }
            _ => {
                let r = e2s(compress_pptx("/in/d.pptx", out, &o2))?;
                let now = get(out).unwrap_or_default();
                god(|| {
                    if r.unused_media_removed != media {
                        return Err(format!("!{} unused media files reported, {} in memory", r.unused_media_removed, media));
                    }
                    match report(&r, size, now.len(), &o2) {
                        Some(m) => Err(format!("!{}", m)),
                        None => Ok(String::new()),
                    }
                })
            }
        }
    };
    let (_, n) = measure(READS | WRITES, None, || call(|| go()));
    god(|| sim().fs = snap.clone());
    let br = benign_rates();
    set_benign(br);
    let hard = fdraw(4) != 0;
    if hard {
        let sticky = fdraw(2) == 1;
        plan_snipe(READS | WRITES, n, sticky);
    }
    arm();
    let res = call(|| go());
    disarm();
    let fl = fired();
    nontrivial();
    let name = if which == 0 { "analyze_pptx" } else { "compress_pptx" };
    state(&god(|| format!("{} {:?} {} {} {:?} {:?}", name, (o.level, o.remove_unused_media, o.remove_properties, o.remove_notes, o.remove_comments, o.optimize_xml), what, f, out, fl)));
    sample(god(|| format!("{} of a deck [{} / {}] to {} under {:?}", name, f, what, out, fl)));
    let now = get(out);
    let src = get("/in/d.pptx");
    match res {
        Err(m) => viol!("panic", "{} under {:?} panicked: {}", name, fl, m),
        Ok(Err(m)) if m.starts_with('!') => viol!("report", "{}: {}", name, &m[1..]),
        Ok(Err(m)) => {
            if !fired_any() {
                viol!("unexpected-error", "{} failed without any fault: {}", name, m);
            }
            if now != old {
                viol!("output", "{} failed under {:?} ({}) and changed {}", name, fl, m, out);
            }
        }
        Ok(Ok(_)) => {
            probe(if which == 0 { "analysed" } else { "compressed" });
            if which != 0 {
                let b2 = now.clone().unwrap_or_default();
                let q2 = read_parts("package", "the compressed file", &b2);
                let qm = read_parts("package", "the compressed deck", &b);
                if let Some(d) = diff_parts(&qm, &q2) {
                    viol!("output", "compress_pptx under {:?} differs from compression in memory: {}", fl, d);
                }
            } else if now != old {
                viol!("output", "analyze_pptx changed {}", out);
            }
        }
    }
    if out != "/in/d.pptx" && god(|| src.as_ref() != Some(&src0)) {
        viol!("input", "{} under {:?} changed its input", name, fl);
    }
}
pub static P: Prop = Prop {
    id: "P10",
    run,
    rule: "every run compresses one deck with one combination of options, in memory and through files",
    state_measure: "operation x options x structure of the deck x fault sites",
    stubs: "disk is simulated; all of ppt-rs is real; independent XML comparison and package checker",
    ..BASE
};
