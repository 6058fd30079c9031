//! P21: a saved deck imports back with its content.
use super::edits::{rename, set, text as part_text, PRES};
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr::{self, Parts};
use ppt_rs::api::Presentation;
use ppt_rs::generator::*;
use ppt_rs::oxml::presentation::PresentationReader;

#[derive(Clone, Debug, PartialEq)]
struct Sl {
    title: String,
    bullets: Vec<String>,
    shapes: Vec<(String, String, [u32; 4])>,
    table: Vec<Vec<String>>,
}
#[derive(Clone, Debug, PartialEq)]
struct Model {
    title: String,
    slides: Vec<Sl>,
}
fn table_of(t: &Table) -> Vec<Vec<String>> {
    t.rows.iter().map(|r| r.cells.iter().map(|c| c.text.clone()).collect()).collect()
}
fn slide_of(s: &SlideContent) -> Sl {
    Sl {
        title: s.title.clone(),
        bullets: if s.bullets.is_empty() { s.content.clone() } else { s.bullets.iter().map(|b| b.text.clone()).collect() },
        shapes: s.shapes.iter().map(|x| (format!("{:?}", x.shape_type), x.text.clone().unwrap_or_default(), [x.x, x.y, x.width, x.height])).collect(),
        table: s.table.as_ref().map(table_of).unwrap_or_default(),
    }
}
fn model(title: &str, s: &[SlideContent]) -> Model {
    god(|| Model { title: title.to_string(), slides: s.iter().map(slide_of).collect() })
}

const TRICKY: &[&str] = &[
    " leading", "trailing ", "a\tb", "  ", "x", "&lt;", "]]>", "<a:t>", "&#10;", "\u{a0}nbsp\u{a0}", "Title", "Content", "a  b", "é\u{301}", "\u{200b}", "𝒳", "-", "•", "&amp;amp;", "{x}", "line one\nline two",
];
fn txt(tag: &str) -> String {
    if wc(1, 5) {
        let t = pick(TRICKY).to_string();
        let long = wc(1, 6);
        god(|| if long { t.repeat(3000) } else { t })
    } else {
        gen::text(tag, false)
    }
}
fn slide(i: usize) -> SlideContent {
    let mut s = SlideContent::new(&txt("T"));
    if wc(1, 3) {
        s = s.layout(
            [
                SlideLayout::TitleAndContent,
                SlideLayout::CenteredTitle,
                SlideLayout::TwoColumn,
                SlideLayout::SectionHeader,
                SlideLayout::Blank,
                SlideLayout::TitleOnly,
                SlideLayout::TitleAndBigContent,
            ][w(7) as usize],
        );
    }
    for _ in 0..w(5) {
        let t = txt("b");
        s = match w(8) {
            1 => s.add_numbered(&t),
            2 => s.add_sub_bullet(&t),
            _ => s.add_bullet(&t),
        };
    }
    for _ in 0..[0, 0, 1, 3][w(4) as usize] {
        let k = [
            ShapeType::Rectangle,
            ShapeType::RoundedRectangle,
            ShapeType::Ellipse,
            ShapeType::Triangle,
            ShapeType::RightTriangle,
            ShapeType::Diamond,
            ShapeType::Pentagon,
            ShapeType::Hexagon,
            ShapeType::Octagon,
            ShapeType::Star5,
            ShapeType::RightArrow,
        ][w(11) as usize];
        let mut x = Shape::new(k, w(9_000_000) as u32, w(6_000_000) as u32, 1 + w(3_000_000) as u32, 1 + w(3_000_000) as u32);
        if wc(3, 4) {
            x = x.with_text(&txt("shape"));
        }
        if wc(1, 4) {
            x = x.with_hyperlink(Hyperlink::url("https://example.test/?a=1&b=2").with_r_id("rId77"));
        }
        s = s.add_shape(x);
    }
    if wc(1, 4) {
        let (r, c) = (1 + w(4), 1 + w(3));
        let mut b = TableBuilder::new(vec![1_000_000; c as usize]);
        for _ in 0..r {
            let cells: Vec<String> = (0..c).map(|_| txt("cell")).collect();
            b = b.add_simple_row(cells.iter().map(|x| x.as_str()).collect());
        }
        s = s.table(b.build());
    }
    // things an import does not bring back, which must not disturb the rest
    if wc(1, 4) {
        s = s.notes(&gen::text("notes", false));
    }
    if wc(1, 4) {
        s = s.add_image(gen::image());
    }
    if wc(1, 5) {
        s = s.add_chart(gen::chart());
    }
    if wc(1, 8) {
        s = s.add_connector(Connector::straight(0, 0, 100000, 100000));
    }
    let _ = i;
    s
}

/// The content the saved deck holds: what its layouts have no place for is not in it.
fn saved(m: &Model, p: &Parts, given: &[SlideContent]) -> Result<Model, String> {
    let mut out = m.clone();
    let order = pkg::slide_order(p)?;
    for (i, s) in out.slides.iter_mut().enumerate() {
        let b = p.get(&order[i]).map(|v| v.as_slice()).unwrap_or(b"");
        let layout = given[i].layout;
        if layout == SlideLayout::Blank {
            s.title = String::new();
        }
        let room = matches!(layout, SlideLayout::TitleAndContent | SlideLayout::TwoColumn | SlideLayout::TitleAndBigContent);
        if (!room || given[i].has_table) && !crate::xmlp::parse(b)?.all("cNvPr").iter().any(|e| e.attr("name").map_or(false, |n| n.contains("Content"))) {
            s.bullets.clear();
        }
        if layout != SlideLayout::TitleAndContent && crate::xmlp::parse(b)?.all("tbl").is_empty() {
            s.table.clear();
        }
    }
    Ok(out)
}

fn first_difference(a: &Model, b: &Model) -> Option<String> {
    let short = |s: String| -> String { s.chars().take(300).collect() };
    if a.slides.len() != b.slides.len() {
        return Some(format!("{} slides instead of {}", b.slides.len(), a.slides.len()));
    }
    if a.title != b.title {
        return Some(format!("the title of the deck is {:?} instead of {:?}", b.title, a.title));
    }
    for (i, (x, y)) in a.slides.iter().zip(&b.slides).enumerate() {
        if x.title != y.title {
            return Some(short(format!("the title of slide {} is {:?} instead of {:?}", i + 1, y.title, x.title)));
        }
        if x.bullets != y.bullets {
            return Some(short(format!("the bullets of slide {} are {:?} instead of {:?}", i + 1, y.bullets, x.bullets)));
        }
        if x.shapes != y.shapes {
            return Some(short(format!("the shapes of slide {} are {:?} instead of {:?}", i + 1, y.shapes, x.shapes)));
        }
        if x.table != y.table {
            return Some(short(format!("the table of slide {} is {:?} instead of {:?}", i + 1, y.table, x.table)));
        }
    }
    None
}

fn import(how: u64, path: &str) -> Result<Presentation, String> {
    match how {
        0 => e2s(ppt_rs::import::import_pptx(path)),
        _ => e2s(Presentation::from_path(path)),
    }
}
fn save(how: u64, p: &Presentation, path: &str) -> Result<(), String> {
    match how {
        0 => e2s(p.save(path)),
        1 => {
            let b = e2s(p.build())?;
            e2s(std::fs::write(path, b))
        }
        2 => e2s(p.compress(path, &ppt_rs::opc::compress::CompressionOptions::new())).map(|_| ()),
        _ => {
            let f = e2s(std::fs::File::create(path))?;
            e2s(create_pptx_with_content_to_writer(f, p.get_title(), p.slides(), None)).map(|_| ())
        }
    }
}

fn run() {
    freeze_clock();
    god(|| {
        for d in ["/work", "/tmp", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let n = if wc(1, 12) { 10 + w(4) } else { 1 + w(5) } as usize;
    let slides: Vec<SlideContent> = (0..n).map(slide).collect();
    let title = txt("Deck");
    let mut p = Presentation::with_title(&title);
    for s in &slides {
        p = p.add_slide(s.clone());
    }
    let mut want = model(&title, &slides);
    let gens = 1 + w(4);
    let mut trail: Vec<String> = vec![];
    nontrivial();
    for g in 0..gens {
        let path: String = god(|| format!("/work/g{}.pptx", g));
        let (hs, hi, edit) = (w(4), w(2), w(8));
        let br = benign_rates();
        set_benign(br);
        arm();
        let r = call(|| save(hs, &p, &path));
        disarm();
        match r {
            Err(m) => viol!("panic", "saving panicked: {}", m),
            Ok(Err(e)) => viol!("unexpected-error", "saving without any fault failed: {}", e),
            Ok(Ok(())) => {}
        }
        let b = get(&path).unwrap_or_default();
        let mut parts = read_parts("package", "the saved deck", &b);
        if g == 0 {
            want = god(|| match saved(&want, &parts, &slides) {
                Ok(m) => m,
                Err(e) => viol!("package", "the saved deck cannot be read: {}", e),
            });
        }
        // as other programs store it
        let r = w(1 << 20);
        let did = god(|| match edit {
            0 => {
                let order = pkg::slide_order(&parts).unwrap_or_default();
                let k = order.len();
                for s in &order {
                    rename(&mut parts, s, &s.replace("slides/slide", "slides/slideTMP"));
                }
                for (i, s) in order.iter().enumerate() {
                    rename(&mut parts, &s.replace("slides/slide", "slides/slideTMP"), &format!("ppt/slides/slide{}.xml", 3 + k - i));
                }
                "other part names"
            }
            1 => {
                for s in pkg::slide_order(&parts).unwrap_or_default() {
                    let t = part_text(&parts, &s).replace("\n<", "<");
                    set(&mut parts, &s, t);
                }
                "no line breaks"
            }
            2 => {
                let t = part_text(&parts, PRES).replace("<p:sldId ", "\n  <p:sldId ").replace("r:id=\"", "r:id = \"");
                set(&mut parts, PRES, t);
                "another style"
            }
            3 => {
                // texts in several runs, as editing leaves them behind
                for s in pkg::slide_order(&parts).unwrap_or_default() {
                    let t = part_text(&parts, &s);
                    let mut out = String::new();
                    for (i, x) in t.split("<a:r>").enumerate() {
                        if i == 0 {
                            out.push_str(x);
                            continue;
                        }
                        let (Some(a), Some(z)) = (x.find("<a:t>"), x.find("</a:t>")) else {
                            out.push_str(&format!("<a:r>{}", x));
                            continue;
                        };
                        let (head, body, tail) = (&x[..a + 5], &x[a + 5..z], &x[z..]);
                        let mut cut = (r as usize).wrapping_mul(i) % (body.len() + 1);
                        while !body.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        // not inside a character reference
                        if let Some(k) = body[..cut].rfind('&') {
                            if !body[k..cut].contains(';') {
                                cut = k;
                            }
                        }
                        // nor inside "]]>"
                        if body[..cut].ends_with(']') {
                            cut = 0;
                        }
                        out.push_str(&format!("<a:r>{}{}</a:t></a:r><a:r>{}{}{}", head, &body[..cut], head, &body[cut..], tail));
                    }
                    set(&mut parts, &s, out);
                }
                "split runs"
            }
            _ => "",
        });
        if !did.is_empty() {
            let v: Vec<(String, Vec<u8>)> = god(|| parts.clone().into_iter().collect());
            let nb = god(|| zipr::write(&v, &mut |i| (r >> (i % 20)) & 1 == 1));
            put(&path, &nb);
        }
        let br = benign_rates();
        set_benign(br);
        arm();
        let r = call(|| import(hi, &path));
        let rd = call(|| e2s(PresentationReader::open(&path)).and_then(|r| Ok((r.slide_count(), e2s(r.get_all_slides())?))));
        disarm();
        let q = match r {
            Err(m) => viol!("panic", "importing panicked: {}", m),
            Ok(Err(e)) => viol!("unexpected-error", "importing a saved deck failed: {}", e),
            Ok(Ok(q)) => q,
        };
        let got = model(q.get_title(), q.slides());
        god(|| trail.push(format!("save {} {} import {}", hs, did, hi)));
        if let Some(d) = god(|| first_difference(&want, &got)) {
            viol!("content", "generation {} ({:?}): {}", g + 1, trail, d);
        }
        match rd {
            Ok(Ok((k, v))) => {
                if k != want.slides.len() || v.len() != k {
                    viol!("reader", "the reader counts {} slides and gives {} of {}", k, v.len(), want.slides.len());
                }
                for (i, (s, x)) in v.iter().zip(&want.slides).enumerate() {
                    if s.title.as_deref().unwrap_or("") != x.title || s.body_text != x.bullets {
                        viol!("reader", "the reader finds {:?} {:?} on slide {} instead of {:?} {:?}", s.title, s.body_text, i + 1, x.title, x.bullets);
                    }
                }
            }
            Ok(Err(e)) => viol!("unexpected-error", "reading a saved deck failed: {}", e),
            Err(m) => viol!("panic", "reading panicked: {}", m),
        }
        p = q;
    }
    state(&god(|| format!("{:?} {:?}", trail, slides.iter().map(|s| (s.layout, s.bullets.len(), s.shapes.len(), s.has_table)).collect::<Vec<_>>())));
    sample(god(|| format!("{} slides, {:?}", n, trail)));
}

pub static P: Prop = Prop {
    id: "P21",
    run,
    rule: "every run saves and imports a deck at least once",
    state_measure: "ways of saving and importing x structure of the slides",
    stubs: "disk is simulated (short reads and writes, interruptions); all of ppt-rs is real",
    ..BASE
};
