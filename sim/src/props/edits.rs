//! Decks as other programs write them, and edit histories on a list of slides.
//! Shared by P06 and P07.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr::Parts;
use ppt_rs::generator::*;
use std::collections::{BTreeMap, BTreeSet};

pub const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const PRES: &str = "ppt/presentation.xml";
pub const PRES_RELS: &str = "ppt/_rels/presentation.xml.rels";
const TYPES: &str = "[Content_Types].xml";

pub fn text(p: &Parts, n: &str) -> String {
    String::from_utf8_lossy(p.get(n).map(|v| v.as_slice()).unwrap_or(b"")).to_string()
}
pub fn set(p: &mut Parts, n: &str, t: String) {
    p.insert(n.to_string(), t.into_bytes());
}
pub fn insert_before(s: &str, mark: &str, what: &str) -> String {
    match s.rfind(mark) {
        Some(i) => format!("{}{}{}", &s[..i], what, &s[i..]),
        None => s.to_string(),
    }
}
pub fn declare(p: &mut Parts, entry: &str) {
    let t = insert_before(&text(p, TYPES), "</Types>", entry);
    set(p, TYPES, t);
}
pub fn relate(p: &mut Parts, part: &str, id: &str, kind: &str, target: &str) {
    let n = pkg::rels_name(part);
    if !p.contains_key(&n) {
        set(p, &n, "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"></Relationships>".into());
    }
    let t = insert_before(&text(p, &n), "</Relationships>", &format!("<Relationship Id=\"{}\" Type=\"{}/{}\" Target=\"{}\"/>", id, REL, kind, target));
    set(p, &n, t);
}
pub fn rename(p: &mut Parts, from: &str, to: &str) {
    let (fd, ff) = from.rsplit_once('/').unwrap();
    let (td, tf) = to.rsplit_once('/').unwrap();
    if let Some(d) = p.remove(from) {
        p.insert(to.to_string(), d);
    }
    if let Some(d) = p.remove(&format!("{}/_rels/{}.rels", fd, ff)) {
        p.insert(format!("{}/_rels/{}.rels", td, tf), d);
    }
    let dir = fd.rsplit('/').next().unwrap();
    for (_, d) in p.iter_mut().filter(|(n, _)| n.ends_with(".rels") || n.as_str() == TYPES) {
        let s = String::from_utf8_lossy(d).to_string();
        *d = s.replace(&format!("{}/{}\"", dir, ff), &format!("{}/{}\"", dir, tf)).into_bytes();
    }
}
fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<(usize, usize)> {
    let i = s.find(a)? + a.len();
    Some((i, i + s[i..].find(b)?))
}
/// The entries of the slide list, in order.
fn entries(pres: &str) -> Vec<String> {
    match between(pres, "<p:sldIdLst>", "</p:sldIdLst>") {
        Some((a, b)) => pres[a..b].split("<p:sldId ").skip(1).map(|x| format!("<p:sldId {}", x.trim_end())).collect(),
        None => vec![],
    }
}
fn set_entries(p: &mut Parts, e: &[String]) {
    let s = text(p, PRES);
    if let Some((a, b)) = between(&s, "<p:sldIdLst>", "</p:sldIdLst>") {
        set(p, PRES, format!("{}{}{}", &s[..a], e.concat(), &s[b..]));
    }
}
fn attr(s: &str, a: &str) -> String {
    between(s, &format!(" {}=\"", a), "\"").map(|(x, y)| s[x..y].to_string()).unwrap_or_default()
}

/// Make a generated deck look as if another program had written it.
pub fn foreign(p: &mut Parts) -> String {
    let mut what = String::new();
    let steps = w(7);
    let mut done: BTreeSet<u64> = BTreeSet::new();
    let mut todo: Vec<(u64, u64)> = vec![];
    for _ in 0..steps {
        let k = w(16);
        let r = w(1 << 30);
        if done.insert(k) {
            todo.push((k, r));
        }
    }
    god(|| {
        todo.sort();
        for (k, r) in todo {
            let order = pkg::slide_order(p).unwrap_or_default();
            if order.is_empty() {
                continue;
            }
            let n = order.len() as u64;
            let mut did = true;
            match k {
                0 => {
                    // slide files numbered in another way
                    for s in &order {
                        rename(p, s, &s.replace("slides/slide", "slides/slideTMP"));
                    }
                    let base = [1, 2, 9, 100][(r % 4) as usize];
                    for (i, s) in order.iter().enumerate() {
                        let t = s.replace("slides/slide", "slides/slideTMP");
                        let num = if r & 16 == 0 { base + n - 1 - i as u64 } else { base + (i as u64 * 3 + r) % (3 * n + 1) };
                        let mut to = format!("ppt/slides/slide{}.xml", num);
                        let mut q = 1;
                        while p.contains_key(&to) {
                            to = format!("ppt/slides/slide{}.xml", 500 + q);
                            q += 1;
                        }
                        rename(p, &t, &to);
                    }
                }
                1 => {
                    // another order of the list than that of the relationship ids
                    let s = text(p, PRES);
                    let mut e = entries(&s);
                    let m = e.len();
                    if m > 0 {
                        if r & 1 == 0 {
                            e.reverse()
                        } else {
                            e.rotate_left(1 + (r as usize / 2) % m);
                        }
                    }
                    set_entries(p, &e);
                }
                2 => {
                    // identifiers with gaps, up to the limit
                    let s = text(p, PRES);
                    let mut e = entries(&s);
                    let m = e.len();
                    for (i, x) in e.iter_mut().enumerate() {
                        let id = attr(x, "id");
                        let to = match r % 3 {
                            0 if i == (r as usize / 3) % m => 2147483647u64,
                            0 => 300 + i as u64,
                            1 => 256 + 7 * i as u64,
                            _ => 2147483647 - i as u64,
                        };
                        *x = x.replace(&format!(" id=\"{}\"", id), &format!(" id=\"{}\"", to));
                    }
                    set_entries(p, &e);
                }
                3 => {
                    // other relationship names
                    let mut s = text(p, PRES);
                    let mut t = text(p, PRES_RELS);
                    let style = r % 3;
                    for rel in pkg::rels_of(p, PRES) {
                        if r & 64 != 0 && rel.kind() != "slide" {
                            continue;
                        }
                        let to = match style {
                            0 => format!("R{:x}", pkg::hash(rel.id.as_bytes()) as u32),
                            1 => format!("slideRel_{}", rel.id),
                            _ => format!("rId10{}", &rel.id[3.min(rel.id.len())..]),
                        };
                        s = s.replace(&format!("\"{}\"", rel.id), &format!("\"{}\"", to));
                        t = t.replace(&format!("\"{}\"", rel.id), &format!("\"{}\"", to));
                    }
                    set(p, PRES, s);
                    set(p, PRES_RELS, t);
                }
                4 => {
                    let s = text(p, PRES_RELS).replace("Target=\"slides/", "Target=\"/ppt/slides/");
                    set(p, PRES_RELS, s);
                }
                5 => {
                    // sections
                    let s = text(p, PRES);
                    let ids: Vec<String> = entries(&s).iter().map(|x| attr(x, "id")).collect();
                    let cut = (r % (n + 1)) as usize;
                    let sec = |name: &str, v: &[String]| format!("<p14:section name=\"{}\" id=\"{{00000000-0000-0000-0000-00000000000{}}}\"><p14:sldIdLst>{}</p14:sldIdLst></p14:section>", name, name.len(), v.iter().map(|i| format!("<p14:sldId id=\"{}\"/>", i)).collect::<String>());
                    let x = format!("<p:ext uri=\"{{521415D9-36F7-43E2-AB2F-B90AF26B5E84}}\"><p14:sectionLst xmlns:p14=\"http://schemas.microsoft.com/office/powerpoint/2010/main\">{}{}</p14:sectionLst></p:ext>", sec("A", &ids[..cut]), sec("Bb", &ids[cut..]));
                    let new = if s.contains("<p:extLst>") { s.replacen("<p:extLst>", &format!("<p:extLst>{}", x), 1) } else { insert_before(&s, "</p:presentation>", &format!("<p:extLst>{}</p:extLst>", x)) };
                    set(p, PRES, new);
                }
                6 => {
                    // a custom show
                    let s = text(p, PRES);
                    let e = entries(&s);
                    let v: String = e.iter().skip((r % n) as usize).map(|x| format!("<p:sld r:id=\"{}\"/>", attr(x, "r:id"))).collect();
                    let x = format!("<p:custShowLst><p:custShow name=\"Show\" id=\"0\"><p:sldLst>{}</p:sldLst></p:custShow></p:custShowLst>", v);
                    // after notesSz and the fonts
                    if let Some(a) = s.find("<p:defaultTextStyle") {
                        set(p, PRES, format!("{}{}{}", &s[..a], x, &s[a..]));
                    }
                }
                7 => {
                    // entries written in another style
                    let s = text(p, PRES);
                    let mut e = entries(&s);
                    for (i, x) in e.iter_mut().enumerate() {
                        let (id, rid) = (attr(x, "id"), attr(x, "r:id"));
                        *x = match (r as usize + i) % 4 {
                            0 => format!("<p:sldId r:id='{}' id='{}'/>", rid, id),
                            1 => format!("\n  <p:sldId\n id=\"{}\" r:id=\"{}\" />", id, rid),
                            2 => format!("<p:sldId id=\"{}\" r:id=\"{}\"><p:extLst/></p:sldId>", id, rid),
                            _ => format!("<!-- <p:sldId id=\"9999\" r:id=\"rId9999\"/> --><p:sldId id=\"{}\" r:id=\"{}\"></p:sldId>", id, rid),
                        };
                    }
                    // in a form `entries` need not understand any more: last of the kinds that edit the list
                    set_entries(p, &e);
                }
                8 => {
                    // jumps from slide to slide
                    for j in 0..1 + r % 3 {
                        let a = &order[((r >> 4) + j) as usize % n as usize];
                        let b = &order[((r >> 12) + 2 * j) as usize % n as usize];
                        if a == b {
                            continue;
                        }
                        let id = format!("rIdJ{}", j);
                        let kind = if (r >> j) & 1 == 0 { "slide" } else { "hyperlink" };
                        relate(p, a, &id, kind, b.rsplit('/').next().unwrap());
                        let s = text(p, a).replacen(
                            "</p:spTree>",
                            &format!("<p:sp><p:nvSpPr><p:cNvPr id=\"80{}\" name=\"jump\"><a:hlinkClick r:id=\"{}\" action=\"ppaction://hlinksldjump\"/></p:cNvPr><p:cNvSpPr/><p:nvPr/></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/><a:p><a:r><a:rPr><a:hlinkHover r:id=\"{}\"/></a:rPr><a:t>jump {}</a:t></a:r></a:p></p:txBody></p:sp></p:spTree>", j, id, id, j),
                            1,
                        );
                        set(p, a, s);
                    }
                }
                9 => {
                    // a video that two slides share
                    p.insert("ppt/media/media1.mp4".into(), gen::image_of("PNG", r, 700));
                    declare(p, "<Default Extension=\"mp4\" ContentType=\"video/mp4\"/>");
                    let mut used = BTreeSet::new();
                    for j in 0..2u64 {
                        let a = &order[((r >> 4) + j) as usize % n as usize];
                        if !used.insert(a.clone()) {
                            continue;
                        }
                        relate(p, a, "rIdV", "video", "../media/media1.mp4");
                        let s = text(p, a).replacen("</p:spTree>", "<p:pic><p:nvPicPr><p:cNvPr id=\"890\" name=\"film\"/><p:cNvPicPr/><p:nvPr><a:videoFile r:link=\"rIdV\"/></p:nvPr></p:nvPicPr><p:blipFill/><p:spPr/></p:pic></p:spTree>", 1);
                        set(p, a, s);
                    }
                }
                10 => {
                    // comments
                    set(p, "ppt/commentAuthors.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><p:cmAuthorLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:cmAuthor id=\"0\" name=\"Ann &amp; Bob\" initials=\"A\" lastIdx=\"1\" clrIdx=\"0\"/></p:cmAuthorLst>".into());
                    declare(p, "<Override PartName=\"/ppt/commentAuthors.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml\"/>");
                    relate(p, PRES, "rIdAuthors", "commentAuthors", "commentAuthors.xml");
                    for (i, a) in order.iter().enumerate() {
                        if (r >> i) & 1 == 1 {
                            let nm = format!("comment{}.xml", i + 1);
                            set(p, &format!("ppt/comments/{}", nm), format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><p:cmLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:cm authorId=\"0\" idx=\"1\"><p:pos x=\"1\" y=\"2\"/><p:text>remark {} {}</p:text></p:cm></p:cmLst>", i, r % 1000));
                            declare(p, &format!("<Override PartName=\"/ppt/comments/{}\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.comments+xml\"/>", nm));
                            relate(p, a, "rIdC", "comments", &format!("../comments/{}", nm));
                        }
                    }
                }
                11 => {
                    // parts of unknown kinds
                    set(p, "customXml/item1.xml", format!("<?xml version=\"1.0\"?><data n=\"{}\">Grüße</data>", r % 99));
                    let t = insert_before(&text(p, "_rels/.rels"), "</Relationships>", &format!("<Relationship Id=\"rIdCustom\" Type=\"{}/customXml\" Target=\"/customXml/item1.xml\"/>", REL));
                    set(p, "_rels/.rels", t);
                    p.insert("docProps/thumbnail.jpeg".into(), gen::image_of("JPG", r, 300));
                    if !pkg::types(p).map(|t| t.defaults.contains_key("jpeg")).unwrap_or(true) {
                        declare(p, "<Default Extension=\"jpeg\" ContentType=\"image/jpeg\"/>");
                    }
                    let t = insert_before(&text(p, "_rels/.rels"), "</Relationships>", "<Relationship Id=\"rIdThumb\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail\" Target=\"docProps/thumbnail.jpeg\"/>");
                    set(p, "_rels/.rels", t);
                }
                12 => {
                    // slide tags: a part only one slide needs
                    let a = &order[(r % n) as usize];
                    set(p, "ppt/tags/tag1.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><p:tagLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:tag name=\"K\" val=\"v\"/></p:tagLst>".into());
                    declare(p, "<Override PartName=\"/ppt/tags/tag1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.tags+xml\"/>");
                    relate(p, a, "rIdT", "tags", "../tags/tag1.xml");
                }
                13 => {
                    // wide screen
                    let s = text(p, PRES);
                    if let Some((a, z)) = between(&s, "<p:sldSz ", "/>") {
                        set(p, PRES, format!("{}cx=\"12192000\" cy=\"6858000\"{}", &s[..a], &s[z..]));
                    }
                }
                14 => {
                    if p.contains_key("ppt/slideLayouts/slideLayout2.xml") && !p.contains_key("ppt/slideLayouts/slideLayout42.xml") {
                        rename(p, "ppt/slideLayouts/slideLayout2.xml", "ppt/slideLayouts/slideLayout42.xml");
                    }
                }
                _ => {
                    // relationships with the attributes in another order and single quotes
                    for (_, d) in p.iter_mut().filter(|(n, _)| n.starts_with("ppt/slides/_rels/") || n.as_str() == PRES_RELS) {
                        let s = String::from_utf8_lossy(d).to_string();
                        let mut out = String::new();
                        for (i, piece) in s.split("<Relationship ").enumerate() {
                            if i == 0 {
                                out.push_str(piece);
                                continue;
                            }
                            let piece = format!(" {}", piece);
                            let (id, ty, ta, mode) = (attr(&piece, "Id"), attr(&piece, "Type"), attr(&piece, "Target"), attr(&piece, "TargetMode"));
                            let rest = &piece[piece.find("/>").map(|x| x + 2).unwrap_or(piece.len())..];
                            let mode = if mode.is_empty() { String::new() } else { format!("TargetMode='{}' ", mode) };
                            out.push_str(&format!("<Relationship {}Target='{}' Type='{}' Id='{}'></Relationship>{}", mode, ta, ty, id, rest));
                        }
                        *d = out.into_bytes();
                    }
                }
            }
            if did {
                what.push_str(&format!("{} ", k));
            }
            did = false;
            let _ = did;
        }
    });
    what
}

/// A deck to start from.
pub fn start_deck(rich: bool) -> (Parts, String) {
    if wc(1, 14) {
        // no slide at all
        let mut t = PresentationSettings::new();
        if wc(1, 2) {
            t = t.print(PrintSettings::new().handout_layout([HandoutLayout::SlidesPerPage3, HandoutLayout::SlidesPerPage9][w(2) as usize]));
        }
        let b = must("build", create_pptx_with_settings("Empty", &[], Some(t)));
        let mut p = read_parts("build", "empty deck", &b);
        let form = w(3);
        god(|| {
            let s = text(&p, PRES);
            if let (Some(a), Some(z)) = (s.find("<p:sldIdLst>"), s.find("</p:sldIdLst>")) {
                let new = ["<p:sldIdLst></p:sldIdLst>", "<p:sldIdLst/>", ""][form as usize];
                set(&mut p, PRES, format!("{}{}{}", &s[..a], new, &s[z + 13..]));
            }
        });
        return (p, format!("empty{}", form));
    }
    let o = gen::Opt { max_slides: [5, 2, 3, 2][w(4) as usize], ..if rich { gen::FULL } else { gen::TEXT } };
    let (_, b) = super::ops::deck_bytes(&o);
    let mut p = read_parts("build", "start deck", &b);
    let what = foreign(&mut p);
    if let Some(e) = god(|| pkg::check(&p)).first() {
        viol!("start", "the start deck [{}] is inconsistent: {}", what, e);
    }
    (p, what)
}

// -------------------------------------------------------------------- model

pub type Uid = u64;
#[derive(Clone, Debug)]
pub struct Item {
    pub uid: Uid,
    pub view: pkg::SlideView,
    /// slides it links to, in order of appearance
    pub jumps: Vec<Uid>,
    /// what hangs on the slide: kind of relationship, content type, hash
    pub needs: Vec<(String, String, u64)>,
    /// layout part, if it must stay that one
    pub layout: Option<String>,
}
/// The view without links to other slides, and those links.
fn view_of(p: &Parts, slide: &str, order: &[String]) -> Result<(pkg::SlideView, Vec<String>), String> {
    let mut v = pkg::slide_view(p, slide)?;
    v.links.retain(|l| !order.contains(l));
    if let Some(n) = &mut v.notes {
        // the slide number field
        n.retain(|t| !t.chars().all(|c| c.is_ascii_digit()));
    }
    let rv = pkg::rels_of(p, slide);
    let e = crate::xmlp::parse(p.get(slide).map(|v| v.as_slice()).unwrap_or(b""))?;
    let mut jumps = vec![];
    e.walk(&mut |el| {
        for (a, v) in &el.attrs {
            if a.starts_with("r:") {
                if let Some(r) = rv.iter().find(|r| &r.id == v && !r.external && order.contains(&r.target)) {
                    jumps.push(r.target.clone());
                }
            }
        }
    });
    Ok((v, jumps))
}
const CROSS: &[&str] = &["slide", "slideLayout", "slideMaster", "notesMaster", "handoutMaster", "theme", "hyperlink"];
fn needs_of(p: &Parts, slide: &str) -> Vec<(String, String, u64)> {
    let t = match pkg::types(p) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    let mut todo = vec![(slide.to_string(), String::new())];
    while let Some((n, chain)) = todo.pop() {
        for r in pkg::rels_of(p, &n) {
            if r.external || CROSS.contains(&r.kind()) || !seen.insert(r.target.clone()) {
                continue;
            }
            let c = format!("{}/{}", chain, r.kind());
            let h = match p.get(&r.target) {
                // generated notes show the number of the slide
                Some(d) if r.kind() == "notesSlide" => pkg::hash(format!("{:?}", pkg::paragraphs(d).map(|v| v.into_iter().filter(|t| !t.chars().all(|c| c.is_ascii_digit())).collect::<Vec<_>>())).as_bytes()),
                Some(d) => pkg::hash(d),
                None => 0,
            };
            out.push((c.clone(), pkg::content_type(&t, &r.target).unwrap_or_default(), h));
            todo.push((r.target, c));
        }
    }
    out.sort();
    out
}
fn layout_of(p: &Parts, slide: &str) -> Option<String> {
    pkg::rels_of(p, slide).into_iter().find(|r| r.kind() == "slideLayout").map(|r| r.target)
}
/// The model of a stored deck.
pub fn model_of(p: &Parts, next: &mut Uid) -> Result<Vec<Item>, String> {
    let order = pkg::slide_order(p)?;
    let base = *next;
    *next += order.len() as u64;
    let mut out = vec![];
    for (i, s) in order.iter().enumerate() {
        let (view, jumps) = view_of(p, s, &order)?;
        out.push(Item {
            uid: base + i as u64,
            view,
            jumps: jumps.iter().map(|j| base + order.iter().position(|o| o == j).unwrap() as u64).collect(),
            needs: needs_of(p, s),
            layout: layout_of(p, s),
        });
    }
    Ok(out)
}
/// The model of a slide made from content: `jumps` are the uids behind its links.
pub fn item_of(c: &SlideContent, uid: Uid, jumps: Vec<Uid>) -> Item {
    // links between slides are checked separately
    let mut c = c.clone();
    for s in &mut c.shapes {
        if matches!(s.hyperlink.as_ref().map(|h| &h.action), Some(HyperlinkAction::Slide(_))) {
            s.hyperlink = None;
        }
    }
    let b = must("build", create_pptx_with_content("x", vec![c]));
    let p = read_parts("build", "one slide", &b);
    match god(|| model_of(&p, &mut 0)) {
        Ok(mut v) if v.len() == 1 => {
            let mut i = v.remove(0);
            i.uid = uid;
            i.jumps = jumps;
            i.layout = None;
            i
        }
        x => viol!("build", "a deck of one slide cannot be understood: {:?}", x.map(|v| v.len())),
    }
}
pub struct Checks {
    /// texts, notes, pictures, charts, order
    pub content: bool,
    /// links between slides, dependent parts, layouts
    pub structure: bool,
}
/// Compare a stored deck with the model; the class of the first difference.
pub fn compare(p: &Parts, m: &[Item], c: &Checks) -> Option<(&'static str, String)> {
    let order = match pkg::slide_order(p) {
        Ok(o) => o,
        Err(e) => return Some(("unreadable", e)),
    };
    if order.len() != m.len() {
        return Some(("count", format!("{} slides, the list has {}", order.len(), m.len())));
    }
    let place: BTreeMap<&String, Uid> = order.iter().zip(m).map(|(o, i)| (o, i.uid)).collect();
    for (i, (s, want)) in order.iter().zip(m).enumerate() {
        let (v, jumps) = match view_of(p, s, &order) {
            Ok(x) => x,
            Err(e) => return Some(("unreadable", format!("slide {}: {}", i + 1, e))),
        };
        if c.content && v != want.view {
            let elsewhere = m.iter().position(|x| x.view == v);
            return Some(("content", format!("slide {} ({}) shows {:?} instead of {:?} (which is slide {:?} of the list)", i + 1, s, v, want.view, elsewhere.map(|x| x + 1))));
        }
        if c.structure {
            let uids: Vec<Uid> = jumps.iter().map(|j| place[j]).collect();
            if uids != want.jumps {
                return Some(("links", format!("slide {} links to {:?} instead of {:?} (slide identities)", i + 1, uids, want.jumps)));
            }
            let n = needs_of(p, s);
            if n != want.needs {
                let lost: Vec<_> = want.needs.iter().filter(|x| !n.contains(x)).collect();
                let more: Vec<_> = n.iter().filter(|x| !want.needs.contains(x)).collect();
                return Some(("needs", format!("slide {} ({}): parts lost {:?}, parts gained {:?}, {} for {}", i + 1, s, lost, more, n.len(), want.needs.len())));
            }
            if want.layout.is_some() && layout_of(p, s) != want.layout {
                return Some(("layout", format!("slide {} has layout {:?} instead of {:?}", i + 1, layout_of(p, s), want.layout)));
            }
        }
    }
    None
}

/// Content for a new slide; sometimes with a link to another one.
pub fn content(i: usize, rich: bool, slides_after: usize, own: usize) -> (SlideContent, Option<u32>) {
    let mut c = gen::slide(i, if rich { &gen::FULL } else { &gen::TEXT });
    let mut link = None;
    if rich && slides_after > 1 && wc(1, 4) {
        let mut k = if wc(1, 8) { [0, slides_after as u32 + 1, 4000][w(3) as usize] } else { 1 + w(slides_after as u64) as u32 };
        if k as usize == own.saturating_add(1) {
            // which slide a copy of a link to itself leads to is left open
            k = if own == 0 { 2 } else { own as u32 };
        }
        let sh = Shape::new(ShapeType::Rectangle, 5000, 5000, 400000, 400000).with_text("go").with_hyperlink(Hyperlink::slide(k).with_r_id("rId78"));
        c = c.add_shape(sh);
        link = Some(k);
    }
    (c, link)
}
