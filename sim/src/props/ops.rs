//! The operations that write a presentation or an export to a path.
use super::util::*;
use crate::ctx::*;
use crate::gen;
use crate::zipr::Parts;
use ppt_rs::api::Presentation;
use ppt_rs::opc::compress::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Pptx,
    Bytes,
}
pub struct Op {
    pub name: &'static str,
    pub kind: Kind,
    /// creates missing parent directories
    pub makes_dirs: bool,
    /// the input file, if the operation reads one
    pub input: Option<&'static str>,
    pub go: Rc<dyn Fn(&str) -> Result<(), String>>,
}
pub struct Send_<T>(pub T);
unsafe impl<T> Send for Send_<T> {}
impl<T> Send_<T> {
    pub fn get(self) -> T {
        self.0
    }
}

const MD: &[&str] = &[
    "# One\n\n- a\n- b\n\n## Two\n\ntext **bold** `code`\n\n| x | y |\n|---|---|\n| 1 | 2 |\n\n---\n\n# Three\n\n> note\n",
    "# Umsatz & Gewinn\n\n1. first\n2. second <tag>\n\n```rust\nfn main() {}\n```\n",
    "# Only a title\n",
];
const HTML: &[&str] = &[
    "<html><head><title>T</title></head><body><h1>One</h1><p>para &amp; more</p><ul><li>a</li><li>b</li></ul><h2>Two</h2><table><tr><th>x</th></tr><tr><td>1</td></tr></table></body></html>",
    "<h1>Alpha</h1><p>beta</p><pre><code>let x = 1;</code></pre><h1>Gamma</h1><ol><li>d</li></ol>",
];
pub fn markdown() -> String {
    let t = w(1000);
    let b = *pick(MD);
    god(|| format!("{}\n# Extra {}\n\n- item {}\n", b, t, t * 7))
}
pub fn html() -> String {
    let t = w(1000);
    let b = *pick(HTML);
    god(|| format!("{}<h1>Extra {}</h1><p>item {}</p>", b, t, t * 7))
}

pub fn comp_options() -> CompressionOptions {
    match w(5) {
        0 => CompressionOptions::new(),
        1 => CompressionOptions::maximum(),
        2 => CompressionOptions::web(),
        3 => CompressionOptions::new()
            .with_level([CompressionLevel::Light, CompressionLevel::Aggressive, CompressionLevel::Custom(40)][w(3) as usize])
            .with_xml_optimization(wc(1, 2))
            .with_notes_removal(wc(1, 2))
            .with_target_size(w(100_000) as usize),
        _ => CompressionOptions::new()
            .with_unused_media_removal(wc(1, 2))
            .with_properties_removal(wc(1, 2))
            .with_notes_removal(wc(1, 2))
            .with_comments_removal(wc(1, 2))
            .with_xml_optimization(wc(1, 2)),
    }
}

pub fn pdf_options() -> ppt_rs::export::pdf_export::PdfExportOptions {
    use ppt_rs::export::pdf_export::*;
    match w(3) {
        0 => PdfExportOptions::landscape(),
        1 => PdfExportOptions::new(),
        _ => PdfExportOptions::new()
            .with_orientation(if wc(1, 2) { PdfOrientation::Landscape } else { PdfOrientation::Portrait })
            .with_font(["Helvetica", "Times-Roman", "Courier"][w(3) as usize])
            .with_font_size(6.0 + w(20) as f32)
            .with_frontmatter(wc(1, 2))
            .with_notes(wc(1, 2))
            .with_images(wc(1, 2)),
    }
}
pub fn md_options() -> ppt_rs::export::md::MarkdownOptions {
    let o = ppt_rs::export::md::MarkdownOptions::new();
    match w(3) {
        0 => o.with_frontmatter(false).with_separator("***"),
        _ => o
            .with_frontmatter(wc(1, 2))
            .with_separator(["---", "***", "<!-- slide -->"][w(3) as usize])
            .with_notes(wc(1, 2))
            .with_gfm_tables(wc(1, 2))
            .with_images(wc(1, 2))
            .with_slide_numbers(wc(1, 2)),
    }
}
pub fn image_options() -> ppt_rs::export::image_export::ImageExportOptions {
    use ppt_rs::export::image_export::*;
    match w(4) {
        0 => ImageExportOptions::high_quality(),
        1 => ImageExportOptions::web_optimized(),
        2 => ImageExportOptions::new(),
        _ => {
            let o = ImageExportOptions::new()
                .with_format(if wc(1, 3) { ImageFormat::Jpeg } else { ImageFormat::Png })
                .with_dpi(72 + w(200) as u32)
                .with_jpeg_quality(w(120) as u8);
            if wc(1, 3) {
                o.with_dimensions(w(2000) as u32, w(2000) as u32)
            } else {
                o
            }
        }
    }
}

/// An operation on a presentation that gives its result in memory.
#[derive(Clone)]
pub struct View {
    pub name: &'static str,
    pub go: Rc<dyn Fn(&Presentation) -> Result<String, String>>,
}
pub fn view() -> View {
    let v = |name, go: Rc<dyn Fn(&Presentation) -> Result<String, String>>| View { name, go };
    fn parts(b: Vec<u8>) -> String {
        let q = read_parts("package", "in-memory build", &b);
        god(|| q.iter().map(|(n, d)| format!("{} {:x};", n, crate::pkg::hash(d))).collect())
    }
    match w(8) {
        0 => v("export_to_html", Rc::new(|p| e2s(ppt_rs::export::html::export_to_html(p)))),
        1 => {
            let o = ppt_rs::export::html::HtmlExportOptions::new()
                .with_notes(wc(1, 2))
                .with_navigation(wc(1, 2))
                .with_syntax_highlight(wc(1, 2))
                .with_image_files(wc(1, 2), if wc(1, 2) { Some("pics") } else { None });
            v("export_to_html_with_options", Rc::new(move |p| e2s(ppt_rs::export::html::export_to_html_with_options(p, &o))))
        }
        2 => {
            let o = md_options();
            v("export_to_markdown_with_options", Rc::new(move |p| e2s(ppt_rs::export::md::export_to_markdown_with_options(p, &o))))
        }
        3 => {
            let o = pdf_options();
            v("to_pdf_bytes", Rc::new(move |p| e2s(p.to_pdf_bytes(&o)).map(|b| god(|| format!("{} {:x}", b.len(), crate::pkg::hash(&b))))))
        }
        4 => v(
            "analyze_size",
            Rc::new(|p| e2s(p.analyze_size()).map(|a| god(|| format!("{:?} {} {}", (a.images_size, a.xml_size, a.other_size), a.image_count, a.slide_count)))),
        ),
        5 => {
            let other = gen::deck(&gen::TEXT).presentation();
            v("add_presentation", Rc::new(move |p| e2s(p.clone().add_presentation(other.clone()).into_bytes()).map(parts)))
        }
        6 => {
            let t = ppt_rs::generator::PresentationTheme::carbon();
            let title = gen::text("Title", false);
            v("with_theme", Rc::new(move |p| e2s(p.clone().with_theme(t.clone()).title(&title).build()).map(parts)))
        }
        _ => v(
            "template of the deck",
            Rc::new(|p| {
                let b = e2s(p.build())?;
                let k = e2s(ppt_rs::opc::Package::open_reader(std::io::Cursor::new(b)))?;
                let t = e2s(ppt_rs::generator::PptxTemplate::from_package(&k))?;
                Ok(god(|| {
                    let mut v: Vec<String> = t.parts().iter().map(|(n, d)| format!("{}:{:x};", n, crate::pkg::hash(d))).collect();
                    v.sort();
                    format!("{} {:?}", t.layout_count(), v)
                }))
            }),
        ),
    }
}

pub const N_OPS: u64 = 15;
pub fn deck_bytes(o: &gen::Opt) -> (gen::Deck, Vec<u8>) {
    let d = gen::deck(o);
    match d.build() {
        Ok(b) => (d, b),
        Err(e) => crate::viol!("build", "a deck that only uses in-memory content does not build: {}", e),
    }
}
fn presentation(d: &gen::Deck) -> Presentation {
    let mut p = d.presentation();
    if let Some(s) = &d.settings {
        p = p.with_settings(s.clone());
    }
    p
}

std::thread_local! {
    static IN_DIR: std::cell::Cell<&'static str> = const { std::cell::Cell::new("/in") };
}
/// Directory the inputs of operations built from now on are placed in.
pub fn set_in_dir(d: &'static str) {
    IN_DIR.with(|x| x.set(d));
}
fn inp(name: &str) -> &'static str {
    god(|| Box::leak(format!("{}/{}", IN_DIR.with(|x| x.get()), name).into_boxed_str()))
}

/// Choose an operation; its input file (if any) is placed at /in/.
pub fn choose() -> Op {
    build(w(N_OPS))
}
pub fn build(k: u64) -> Op {
    let op = |name, kind, input, go: Rc<dyn Fn(&str) -> Result<(), String>>| Op { name, kind, makes_dirs: false, input, go };
    match k {
        0 => {
            let mut p = presentation(&gen::deck(&gen::FULL));
            match w(4) {
                0 => {
                    // from two presentations, with a theme and another title
                    use ppt_rs::generator::PresentationTheme;
                    p = p.add_presentation(gen::deck(&gen::TEXT).presentation());
                    p = p.with_theme([PresentationTheme::corporate(), PresentationTheme::dark(), PresentationTheme::carbon()][w(3) as usize].clone());
                    p = p.title(&gen::text("Title", false));
                }
                _ => {}
            }
            op("Presentation::save", Kind::Pptx, None, Rc::new(move |o| e2s(p.save(o))))
        }
        1 => {
            let p = presentation(&gen::deck(&gen::FULL));
            op("save_as_html", Kind::Bytes, None, Rc::new(move |o| e2s(p.save_as_html(o))))
        }
        2 => {
            let p = presentation(&gen::deck(&gen::FULL));
            op("save_as_pdf", Kind::Bytes, None, Rc::new(move |o| e2s(p.save_as_pdf(o))))
        }
        3 => {
            let p = presentation(&gen::deck(&gen::TEXT));
            let opt = pdf_options();
            op(
                "save_as_pdf_via_pdfrs",
                Kind::Bytes,
                None,
                Rc::new(move |o| e2s(p.save_as_pdf_via_pdfrs(o, &opt))),
            )
        }
        4 => {
            let p = presentation(&gen::deck(&gen::FULL));
            op("save_as_markdown", Kind::Bytes, None, Rc::new(move |o| e2s(p.save_as_markdown(o))))
        }
        5 => {
            let p = presentation(&gen::deck(&gen::FULL));
            let opt = md_options();
            op("save_as_markdown_with_options", Kind::Bytes, None, Rc::new(move |o| e2s(p.save_as_markdown_with_options(o, &opt))))
        }
        6 => {
            let (_, b) = deck_bytes(&gen::FULL);
            let mut k = must("Package::open_reader", ppt_rs::opc::Package::open_reader(std::io::Cursor::new(b)));
            if wc(1, 2) {
                k.add_part("custom/extra.bin".into(), gen::image_bytes("GIF"));
            }
            op("Package::save", Kind::Pptx, None, Rc::new(move |o| e2s(k.save(o))))
        }
        7 => {
            let (_, b) = deck_bytes(&gen::TEXT);
            put(inp("edit.pptx"), &b);
            let mut e = must("PresentationEditor::open", ppt_rs::oxml::editor::PresentationEditor::open(inp("edit.pptx")));
            match w(3) {
                0 => {}
                1 => {
                    let _ = e.add_slide(gen::slide(7, &gen::TEXT));
                }
                _ => {
                    let _ = e.duplicate_slide(0);
                }
            }
            op("PresentationEditor::save", Kind::Pptx, None, Rc::new(move |o| e2s(e.save(o))))
        }
        8 => {
            let (_, b) = deck_bytes(&gen::TEXT);
            let mut r = must("PptxRepair::from_bytes", ppt_rs::oxml::repair::PptxRepair::from_bytes(&b));
            if wc(1, 2) {
                r.package_mut().remove_part("ppt/slides/slide1.xml");
                let _ = r.repair();
            }
            op("PptxRepair::save", Kind::Pptx, None, Rc::new(move |o| e2s(r.save(o))))
        }
        9 => {
            let t = gen::text("Quick", false);
            let d = gen::deck(&gen::FULL);
            op(
                "QuickPptx::save",
                Kind::Pptx,
                None,
                Rc::new(move |o| {
                    let mut q = ppt_rs::prelude::QuickPptx::new(&t);
                    for s in &d.slides {
                        q = q.content_slide(s.clone());
                    }
                    e2s(q.save(o))
                }),
            )
        }
        10 => {
            let (_, b) = deck_bytes(&gen::FULL);
            put(inp("comp.pptx"), &b);
            let opt = comp_options();
            let i = inp("comp.pptx");
            op("compress_pptx", Kind::Pptx, Some(i), Rc::new(move |o| e2s(compress_pptx(i, o, &opt)).map(|_| ())))
        }
        11 => {
            let p = presentation(&gen::deck(&gen::FULL));
            let opt = comp_options();
            op("Presentation::compress", Kind::Pptx, None, Rc::new(move |o| e2s(p.compress(o, &opt)).map(|_| ())))
        }
        12 => {
            let n = w(5) as usize;
            let t = if wc(1, 2) { Some(gen::text("cli", false)) } else { None };
            let tpl = if wc(1, 4) {
                let (_, b) = deck_bytes(&gen::TEXT);
                put(inp("tpl.pptx"), &b);
                Some(inp("tpl.pptx"))
            } else {
                None
            };
            let mut o = op(
                "CreateCommand",
                Kind::Pptx,
                tpl,
                Rc::new(move |o| ppt_rs::cli::CreateCommand::execute(o, t.as_deref(), n, tpl)),
            );
            o.makes_dirs = true;
            o
        }
        13 => {
            let m = if wc(1, 2) { super::texts::rich_markdown(&[]) } else { markdown() };
            put(inp("doc.md"), m.as_bytes());
            let t = if wc(1, 2) { Some(gen::text("cli", false)) } else { None };
            let i = inp("doc.md");
            let mut o = op(
                "FromMarkdownCommand",
                Kind::Pptx,
                Some(i),
                Rc::new(move |o| ppt_rs::cli::FromMarkdownCommand::execute(i, o, t.as_deref())),
            );
            o.makes_dirs = true;
            o
        }
        _ => {
            let m = if wc(1, 2) { super::texts::rich_html(&[]) } else { html() };
            put(inp("doc.html"), m.as_bytes());
            let ms = [20usize, 2, 50][w(3) as usize];
            let i = inp("doc.html");
            let mut o = op(
                "FromHtmlCommand",
                Kind::Pptx,
                Some(i),
                Rc::new(move |o| ppt_rs::cli::FromHtmlCommand::execute(i, o, None, ms, 8, false, false, false)),
            );
            o.makes_dirs = true;
            o
        }
    }
}

/// Complete contents, comparable between runs.
#[derive(Clone, PartialEq)]
#[derive(serde::Serialize, serde::Deserialize)]
pub enum Content {
    Parts(Parts),
    Bytes(Vec<u8>),
}
pub fn content(kind: Kind, b: &[u8]) -> Result<Content, String> {
    god(|| match kind {
        Kind::Pptx => crate::zipr::read(b).map(Content::Parts),
        Kind::Bytes => Ok(Content::Bytes(b.to_vec())),
    })
}
pub fn diff(a: &Content, b: &Content) -> Option<String> {
    god(|| match (a, b) {
        (Content::Parts(x), Content::Parts(y)) => diff_parts(x, y),
        (Content::Bytes(x), Content::Bytes(y)) => {
            if x == y {
                None
            } else {
                Some(diff_bytes(x, y))
            }
        }
        _ => Some("different kinds".into()),
    })
}
