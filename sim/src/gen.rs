//! Generated decks (from the workload stream).
use crate::ctx::*;
use ppt_rs::generator::*;

/// What a generated deck may contain.
#[derive(Clone, Copy)]
pub struct Opt {
    pub max_slides: u64,
    pub images: bool,
    pub charts: bool,
    pub notes: bool,
    pub tables: bool,
    pub shapes: bool,
    pub settings: bool,
    pub layouts: bool,
    pub ink: bool,
    pub plain_text: bool,
}
pub const FULL: Opt = Opt {
    max_slides: 5,
    images: true,
    charts: true,
    notes: true,
    tables: true,
    shapes: true,
    settings: true,
    layouts: true,
    ink: true,
    plain_text: false,
};
pub const TEXT: Opt = Opt {
    max_slides: 5,
    images: false,
    charts: false,
    notes: true,
    tables: false,
    shapes: false,
    settings: false,
    layouts: false,
    ink: false,
    plain_text: false,
};

#[derive(Clone)]
pub struct Deck {
    pub title: String,
    pub slides: Vec<SlideContent>,
    pub settings: Option<PresentationSettings>,
}

const BITS: &[&str] = &[
    "alpha", "Umsatz & Gewinn", "<b>bold</b>", "\"quoted\"", "it's", "a > b", "naïve café", "日本語", "emoji 🎉", "tab",
    "x=1;y=2", "100%", "a  b", "]]>", "&amp;", "Ω≈ç√", "\\path\\to", "{brace}", "#hash", "- dash",
];

thread_local! {
    /// Some texts come again and again, in all decks.
    pub static REPEAT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Texts and attribute values no file format was made for.
const HOSTILE_BITS: &[&str] = &[
    "<&>\"'", "a\u{1}b", "]]>", "\u{fffe}", "\u{0}", "&#0;", "<!--", "-->", "<?xml", "\t", "\n", "\r\n", "", " ", "\u{202e}", "\u{7f}\u{85}", "%s", "../..", "\u{1b}[0m", "é\u{301}", "\u{10ffff}",
    "&amp;amp;", "x\u{b}", "#", "##AB", "\"/><a:x", "'", "\u{feff}",
];
thread_local! {
    /// Values of the kind above, and numbers at the limits, in all fields.
    pub static HOSTILE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
thread_local! {
    static RICH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn hostile() -> bool {
    HOSTILE.with(|h| h.get())
}
/// A value for a field that has a usual form: one of `usual`, or anything.
fn field(usual: &[&str]) -> String {
    if hostile() && wc(1, 2) {
        let a = w(HOSTILE_BITS.len() as u64) as usize;
        return god(|| HOSTILE_BITS[a].to_string());
    }
    pick(usual).to_string()
}
fn color() -> String {
    field(&["FF0000", "00b050", "#0000FF", "ABCDEF", "ffffff"])
}
fn font() -> String {
    field(&["Calibri", "Times New Roman", "Foo & Co", "Ünïcode"])
}
/// A number of 1 to `n`, or any at all.
fn number(n: u64) -> u32 {
    if hostile() && wc(1, 3) {
        return [0, 1, u32::MAX, u32::MAX / 100, i32::MAX as u32, 400_000][w(6) as usize];
    }
    1 + w(n) as u32
}
/// A text with a unique marker.
pub fn text(tag: &str, plain: bool) -> String {
    if hostile() && wc(1, 3) {
        let (a, n) = (w(HOSTILE_BITS.len() as u64) as usize, w(3));
        return god(|| match n {
            0 => HOSTILE_BITS[a].to_string(),
            1 => format!("{} {} {}", tag, HOSTILE_BITS[a], n),
            _ => format!("{}{}{}", HOSTILE_BITS[a], tag, HOSTILE_BITS[a]),
        });
    }
    if REPEAT.with(|r| r.get()) && wc(1, 2) {
        return god(|| BITS[1 + w(4) as usize].to_string());
    }
    let n = w(1000);
    let b = if plain { "text".to_string() } else { pick(BITS).to_string() };
    god(|| format!("{} {} {}", tag, b, n))
}

/// An image's bytes: a real header for the format, then unique payload.
pub fn image_bytes(fmt: &str) -> Vec<u8> {
    let uniq = w(1_000_000);
    let len = [40u64, 200, 3000, 20000, 40, 200, 1000, 70_000][w(8) as usize];
    god(|| image_of(fmt, uniq, len as usize))
}
pub fn image_of(fmt: &str, uniq: u64, len: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    match fmt {
        "PNG" => {
            v.extend([0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A, 0, 0, 0, 13]);
            v.extend(b"IHDR");
            v.extend(20u32.to_be_bytes());
            v.extend(10u32.to_be_bytes());
            v.extend([8, 2, 0, 0, 0, 1, 2, 3, 4]);
        }
        "GIF" => {
            v.extend(b"GIF89a");
            v.extend([20, 0, 10, 0, 0, 0, 0]);
        }
        "BMP" => {
            v.extend(b"BM");
            v.extend([0; 12]);
            v.extend(40u32.to_le_bytes());
            v.extend(20u32.to_le_bytes());
            v.extend(10u32.to_le_bytes());
        }
        _ => {
            v.extend([0xFF, 0xD8, 0xFF, 0xE0, 0, 16]);
            v.extend(b"JFIF\0");
            v.extend([1, 1, 0, 0, 1, 0, 1, 0, 0]);
            v.extend([0xFF, 0xC0, 0, 17, 8, 0, 10, 0, 20, 3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
        }
    }
    let mark = format!("uniq{}", uniq);
    if uniq % 3 == 0 && v.len() + mark.len() < len {
        // begins (and often ends) like others of its kind
        let mut r = crate::choice::Rng::new(78);
        let at = if uniq % 2 == 0 { len - mark.len() } else { v.len() + (len - mark.len() - v.len()) / 2 };
        while v.len() < at {
            v.push(r.next() as u8);
        }
        v.extend(mark.as_bytes());
        while v.len() < len {
            v.push(r.next() as u8);
        }
        return v;
    }
    v.extend(mark.as_bytes());
    let mut r = crate::choice::Rng::new(uniq ^ 77);
    while v.len() < len {
        v.push(r.next() as u8);
    }
    v
}
pub fn img_fmt() -> &'static str {
    ["PNG", "JPG", "GIF", "PNG", "JPEG", "BMP"][w(6) as usize]
}
/// The kinds every decoder-free path of the library fully supports.
pub fn img_fmt_common() -> &'static str {
    ["PNG", "JPG", "GIF"][w(3) as usize]
}

pub fn image() -> Image {
    let f = img_fmt();
    let b = image_bytes(f);
    let mut im = if wc(1, 4) {
        let s = god(|| b64(&b));
        Image::from_base64(&s, 914400, 914400, f)
    } else {
        Image::from_bytes(b, 914400, 914400, f)
    };
    if wc(1, 4) {
        im = im.with_alt_text(&text("alt", false));
    }
    if wc(1, 6) {
        im = im.with_crop(0.1, 0.2, w(5) as f64 / 10.0, 0.0);
    }
    if wc(1, 6) {
        im = im.with_effect(
            [ppt_rs::generator::images::ImageEffect::Shadow, ppt_rs::generator::images::ImageEffect::Reflection, ppt_rs::generator::images::ImageEffect::Glow, ppt_rs::generator::images::ImageEffect::SoftEdges, ppt_rs::generator::images::ImageEffect::InnerShadow, ppt_rs::generator::images::ImageEffect::Blur][w(6) as usize].clone(),
        );
    }
    im.position(w(1000) as u32 * 1000, w(1000) as u32 * 1000)
}

pub fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(T[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

pub fn chart() -> Chart {
    use ChartType::*;
    let t = [
        Bar, Line, Pie, Area, BarStacked, Scatter, BarHorizontal, BarStacked100, LineMarkers, LineStacked, Doughnut, AreaStacked, AreaStacked100,
        ScatterLines, ScatterSmooth, Bubble, Radar, RadarFilled, StockHLC, StockOHLC, Combo,
    ][w(21) as usize]
        .clone();
    let n = 1 + w(3);
    let cats: Vec<String> = (0..n).map(|i| text(&format!("cat{}", i), false)).collect();
    let mut c = Chart::new(&text("chart", false), t, cats, 100000, 100000, 4000000, 3000000);
    for s in 0..1 + w(2) {
        let vals = (0..n).map(|_| w(1000) as f64 / 4.0).collect();
        c = c.add_series(ChartSeries::new(&text(&format!("ser{}", s), false), vals));
    }
    c
}

pub fn table() -> Table {
    let cols = 1 + w(3);
    let rows = 1 + w(3);
    let mut b = TableBuilder::new(vec![1_000_000; cols as usize]);
    for r in 0..rows {
        let cells: Vec<String> = (0..cols).map(|c| text(&format!("cell{}x{}", r, c), false)).collect();
        b = b.add_simple_row(cells.iter().map(|s| s.as_str()).collect());
    }
    b.build()
}

/// More of what a slide can hold: formats, levels, spans, gradients, labels, every kind of link.
fn dress(i: usize, mut s: SlideContent, o: &Opt) -> SlideContent {
    for k in 0..w(3) {
        let mut f = BulletTextFormat::new().color(&color());
        for _ in 0..w(4) {
            f = match w(8) {
                0 => f.bold(),
                1 => f.italic(),
                2 => f.underline(),
                3 => f.strikethrough(),
                4 => f.subscript(),
                5 => f.superscript(),
                6 => f.highlight(&color()),
                _ => f.font_size(number(60)).font_family(&font()),
            };
        }
        let t = text(&format!("d{}.{}", i, k), o.plain_text);
        let st = match w(4) {
            0 => {
                let c = ['→', '*', '&', '<', '"', '✓'][w(6) as usize];
                BulletStyle::Custom(if hostile() { ['\u{0}', c, '\u{fffe}', '\n'][w(4) as usize] } else { c })
            }
            1 => BulletStyle::None,
            _ => BulletStyle::Bullet,
        };
        let b = BulletPoint::new(&t).with_level(if hostile() { number(9) } else { w(5) as u32 }).with_style(st).with_format(f);
        god(|| s.content.push(t.clone()));
        s.bullets.push(b);
    }
    if wc(1, 3) {
        let mut b = TableBuilder::new(vec![1_000_000; 3]);
        for r in 0..1 + w(2) {
            let mut cells = vec![];
            for c in 0..3 {
                let mut x = TableCell::new(&text(&format!("f{}x{}", r, c), false));
                for _ in 0..w(3) {
                    x = match w(8) {
                        0 => x.bold().italic(),
                        1 => x.underline().text_color(&color()),
                        2 => x.background_color(&color()),
                        3 => x.font_size(if hostile() { number(40).min(40_000_000) } else { 8 + w(30) as u32 }),
                        4 => x.font_family(&font()),
                        5 => x.align_center().valign_bottom(),
                        6 => x.wrap(false).align_right(),
                        _ => x.align_left().valign_top(),
                    };
                }
                cells.push(x);
            }
            if wc(1, 3) {
                cells[0] = cells[0].clone().grid_span(2);
                cells[1] = cells[1].clone().h_merge();
            }
            b = b.add_row(TableRow::new(cells));
        }
        s = s.table(b.position(w(100) as u32 * 1000, w(100) as u32 * 1000).build());
    }
    for _ in 0..w(3) {
        let kind = [ShapeType::Rectangle, ShapeType::Star5, ShapeType::RightArrow, ShapeType::Cloud, ShapeType::Heart][w(5) as usize].clone();
        let mut sh = Shape::new(kind, w(1000) as u32 * 1000, 1000, 500_000, 400_000);
        if wc(1, 2) {
            sh = sh.with_text(&text(&format!("dress{}", i), false));
        }
        sh = match w(4) {
            0 => sh.with_fill(ShapeFill::new(&color()).with_transparency(w(120) as u32)),
            1 => {
                use ppt_rs::generator::shapes::{GradientDirection, GradientFill};
                let d = [GradientDirection::Horizontal, GradientDirection::Vertical, GradientDirection::DiagonalUp, GradientDirection::Angle(number(359))][w(4) as usize].clone();
                sh.with_gradient(GradientFill::three_color(&color(), &color(), &color(), d))
            }
            _ => sh,
        };
        if wc(1, 3) {
            sh = sh.with_line(ShapeLine::new(&color(), number(50_000)));
        }
        if wc(1, 4) {
            sh = sh.with_rotation(if hostile() { number(359) as i32 } else { w(720) as i32 - 360 });
        }
        if wc(1, 3) {
            let (a, b) = (text("to", false), text("tip", false));
            let l = match w(5) {
                0 => Hyperlink::url(&god(|| format!("https://example.test/{}", a))),
                1 => Hyperlink::email(&a),
                2 => Hyperlink::new(HyperlinkAction::email_with_subject("a@example.test", &a)),
                3 => Hyperlink::new(HyperlinkAction::file(&a)),
                _ => Hyperlink::url("https://example.test/"),
            };
            let id = s.shapes.len();
            sh = sh.with_hyperlink(l.with_tooltip(&b).with_r_id(&god(|| format!("rIdLink{}", id))));
        }
        s = s.add_shape(sh);
    }
    for _ in 0..w(2) {
        let c = match w(3) {
            0 => Connector::straight(0, 0, 100_000, 100_000),
            1 => Connector::elbow(5000, 90_000, 100_000, 10),
            _ => Connector::curved(7, 8, 9, 10),
        };
        s = s.add_connector(c.with_color(&color()).with_width(number(30_000)).with_label(&text("label", false)).with_end_arrow(ArrowType::Triangle));
    }
    if o.ink && wc(1, 6) {
        let mut ink = InkAnnotations::new();
        ink.add_stroke(InkStroke::new(InkPen::new(&color(), number(20)).opacity(0.5)).add_point(1.5, 2.0).add_point(w(100) as f64, 3.0));
        s = s.with_ink(ink);
    }
    if wc(1, 4) {
        let (a, b) = (text("fn", false), ["rust", "python", "", "no such language", "<&>"][w(5) as usize]);
        s.code_blocks.push(CodeBlock::new(&a, b));
    }
    if wc(1, 3) {
        s = s.title_color(&color()).content_color(&color());
        s = s.title_size(number(60)).content_size(number(60));
    }
    s
}

pub fn slide(i: usize, o: &Opt) -> SlideContent {
    let mut s = SlideContent::new(&text(&format!("Title{}", i), o.plain_text));
    if o.layouts && wc(1, 3) {
        s = s.layout(
            [
                SlideLayout::TitleAndContent,
                SlideLayout::CenteredTitle,
                SlideLayout::TwoColumn,
                SlideLayout::SectionHeader,
                SlideLayout::Blank,
                SlideLayout::TitleOnly,
                SlideLayout::TitleAndBigContent,
            ][w(7) as usize],
        );
    }
    for k in 0..w(4) {
        let t = text(&format!("b{}.{}", i, k), o.plain_text);
        s = match w(8) {
            1 if o.shapes => s.add_numbered(&t),
            6 if o.shapes => s.add_styled_bullet(&t, [BulletStyle::LetterLower, BulletStyle::LetterUpper, BulletStyle::RomanLower, BulletStyle::RomanUpper][w(4) as usize].clone()),
            2 if o.shapes => s.add_sub_bullet(&t),
            _ => s.add_bullet(&t),
        };
    }
    // sometimes a part of many kilobytes
    if wc(1, 16) {
        let n = [30u64, 120, 400][w(3) as usize];
        if wc(1, 2) {
            let t = text(&format!("long{}", i), o.plain_text);
            s = s.add_bullet(&god(|| format!("{}{}", t, " and so on".repeat(n as usize * 20))));
        } else {
            for k in 0..n / 2 {
                s = s.add_bullet(&god(|| format!("many{}.{} {}", i, k, k * 7919)));
            }
        }
    }
    let rich = RICH.with(|r| r.get());
    let one_in = |n: u64| wc(1, if rich { 2 } else { n });
    if o.notes && wc(1, 3) {
        s = s.notes(&text(&format!("notes{}", i), o.plain_text));
    }
    if o.images {
        for _ in 0..if rich { w(5) } else { [0, 0, 1, 2][w(4) as usize] } {
            s = s.add_image(image());
        }
    }
    if o.charts && one_in(4) {
        for _ in 0..1 + w(if rich { 4 } else { 2 }) {
            s = s.add_chart(chart());
        }
    }
    if o.tables && one_in(4) {
        s = s.table(table());
    }
    if o.shapes {
        if wc(1, 4) {
            let kind = [ShapeType::Rectangle, ShapeType::Ellipse, ShapeType::RoundedRectangle, ShapeType::Triangle, ShapeType::Diamond, ShapeType::Hexagon][w(6) as usize].clone();
            let mut sh = Shape::new(kind, 1000, 1000, 500000, 500000).with_text(&text("shape", false));
            if wc(1, 2) {
                let l = match w(3) {
                    0 => Hyperlink::url("https://example.test/a?b=1&c=2"),
                    1 => Hyperlink::email("a@example.test"),
                    _ => Hyperlink::url("https://example.test/"),
                };
                sh = sh.with_hyperlink(l.with_r_id("rId77"));
            }
            s = s.add_shape(sh);
        }
        if wc(1, 8) {
            s = s.add_connector(Connector::straight(0, 0, 100000, 100000));
        }
        if wc(1, 8) {
            s = s.with_transition([TransitionType::Fade, TransitionType::Push, TransitionType::Zoom, TransitionType::Wipe, TransitionType::Split, TransitionType::Reveal, TransitionType::Cover, TransitionType::Cut][w(8) as usize]);
        }
        if wc(1, 8) {
            s = s.title_bold(true).title_color("FF0000").content_size(20);
        }
        if wc(1, 8) {
            s = s.title_size(30 + w(10) as u32).title_italic(wc(1, 2)).title_underline(wc(1, 2)).content_bold(wc(1, 2)).content_italic(wc(1, 2)).content_underline(wc(1, 2)).content_color("#00ff00");
        }
        if wc(1, 10) {
            let c = text("let x =", false);
            s.code_blocks.push(CodeBlock::new(&c, "rust"));
        }
    }
    if o.shapes && wc(1, if hostile() || rich { 2 } else { 8 }) {
        s = dress(i, s, o);
    }
    if o.ink && one_in(10) {
        let mut ink = InkAnnotations::new();
        ink.add_stroke(InkStroke::new(InkPen::red()).add_point(1.0, 2.0).add_point(3.0, w(100) as f64));
        s = s.with_ink(ink);
    }
    s
}

pub fn settings() -> Option<PresentationSettings> {
    if !wc(1, 3) {
        return None;
    }
    let mut s = PresentationSettings::new();
    if wc(1, 3) {
        s = s.theme([PresentationTheme::corporate(), PresentationTheme::dark(), PresentationTheme::carbon()][w(3) as usize].clone());
    }
    if hostile() && wc(1, 3) {
        let mut t = PresentationTheme::dark();
        t.name = text("theme", false);
        t.fonts.major = font();
        t.colors.hlink = color();
        s = s.theme(t);
    }
    if wc(1, 4) {
        let x = SlideShowSettings::new().loop_continuously(true).pen_color(PenColor::new(&color()));
        s = s.slide_show(match w(4) {
            0 => x.slide_range(SlideRange::Range { start: number(3), end: number(5) }),
            1 => SlideShowSettings::kiosk(),
            2 => x.use_timings(false).without_animation(true),
            _ => x,
        });
    }
    if wc(1, 3) {
        let p = PrintSettings::new();
        s = s.print(match w(3) {
            0 => p.print_what(PrintWhat::Handouts).handout_layout([HandoutLayout::SlidesPerPage1, HandoutLayout::SlidesPerPage6][w(2) as usize]).footer(&text("foot", false)),
            1 => p.header(&text("head", false)).print_date(true),
            _ => p.print_what(PrintWhat::Notes),
        });
    }
    if wc(1, 6) {
        let mut l = EmbeddedFontList::new();
        let data = if wc(1, 3) { image_bytes("PNG") } else { vec![1, 2, 3, w(200) as u8, 5] };
        l.add(EmbeddedFont::new("Foo Sans", FontStyle::Regular, data, ""));
        if hostile() {
            l.add(EmbeddedFont::new(&font(), FontStyle::Italic, vec![4, 4], "").panose(&color()));
        }
        if wc(1, 2) {
            l.add(EmbeddedFont::new("Foo Sans", FontStyle::Bold, vec![9, 8, 7], ""));
        }
        s = s.embedded_fonts(l);
    }
    if wc(1, 6) {
        let mut g = SignerInfo::new(&text("signer", false));
        if wc(1, 2) {
            g = g.email(&text("mail", false)).organization(&text("org", false)).title(&text("role", false));
        }
        let mut d = DigitalSignature::new(g);
        if wc(1, 2) {
            d = d.comments(&text("why", false)).sign_date(&field(&["2024-01-02T03:04:05Z", "2023-12-31T23:59:59Z"]));
        }
        s = s.digital_signature(d);
    }
    Some(s)
}

pub fn deck(o: &Opt) -> Deck {
    // sometimes enough slides for two-digit part and relationship numbers
    let n = if o.max_slides >= 5 && wc(1, 12) { 10 + w(3) } else { 1 + w(o.max_slides) };
    // sometimes slides with a lot on them
    let rich = wc(1, 6);
    RICH.with(|r| r.set(rich));
    let title = text("Deck", o.plain_text);
    let mut slides: Vec<SlideContent> = (0..n as usize).map(|i| slide(i, o)).collect();
    // sometimes two slides share one picture
    if o.images && slides.len() > 1 && wc(1, 4) {
        if let Some(im) = slides[0].images.first().cloned() {
            // and sometimes only its bytes
            let im = match im.get_bytes() {
                Some(b) if wc(1, 3) => Image::from_bytes(b, 914400, 914400, img_fmt()),
                // or all but one of them
                Some(mut b) if wc(1, 2) => {
                    let k = b.len() / 2;
                    if let Some(x) = b.get_mut(k) {
                        *x ^= 0x55;
                    }
                    Image::from_bytes(b, 914400, 914400, img_fmt_common())
                }
                _ => im,
            };
            slides[1] = slides[1].clone().add_image(im);
        }
    }
    let settings = if o.settings { settings() } else { None };
    Deck { title, slides, settings }
}

/// What a package lacks of the deck it was built from: pictures, charts and notes, slide by slide.
pub fn lacks(d: &Deck, p: &crate::zipr::Parts) -> Option<String> {
    god(|| {
        let v = match crate::pkg::deck_view(p) {
            Ok(v) => v,
            Err(e) => return Some(e),
        };
        if v.len() != d.slides.len() {
            return Some(format!("{} slides of {}", v.len(), d.slides.len()));
        }
        for (i, (s, v)) in d.slides.iter().zip(&v).enumerate() {
            let want: Vec<(u64, usize)> = s.images.iter().filter_map(|m| m.get_bytes()).map(|b| (crate::pkg::hash(&b), b.len())).collect();
            let got: Vec<(u64, usize)> = v.media.iter().map(|m| (m.1, m.2)).collect();
            if want != got {
                return Some(format!("slide {} shows the pictures {:x?} instead of {:x?}", i + 1, got, want));
            }
            if v.charts.len() != s.charts.len() {
                return Some(format!("slide {} shows {} charts of {}", i + 1, v.charts.len(), s.charts.len()));
            }
            if v.notes.is_some() != s.notes.is_some() {
                return Some(format!("slide {}: notes {:?} from {:?}", i + 1, v.notes, s.notes));
            }
            if hostile() {
                continue;
            }
            for (k, (c, x)) in s.charts.iter().zip(&v.charts).enumerate() {
                let values = c.series.first().map(|m| m.values.as_slice()).unwrap_or_default();
                if let Some(m) = values.iter().find(|m| !x.iter().any(|y| y.parse() == Ok(**m))) {
                    return Some(format!("chart {} of slide {} holds {:?} without the value {:?}", k + 1, i + 1, x, m));
                }
            }
            if let (Some(n), Some(x)) = (&s.notes, &v.notes) {
                if !x.join("\n").contains(n.lines().next().unwrap_or("")) {
                    return Some(format!("slide {}: notes {:?} from {:?}", i + 1, x, n));
                }
            }
        }
        None
    })
}

impl Deck {
    pub fn build(&self) -> Result<Vec<u8>, String> {
        create_pptx_with_settings(&self.title, &self.slides, self.settings.clone()).map_err(|e| e.to_string())
    }
    pub fn describe(&self) -> String {
        god(|| {
            format!(
                "{} slides, {} images, {} charts, {} notes, settings {}",
                self.slides.len(),
                self.slides.iter().map(|s| s.images.len()).sum::<usize>(),
                self.slides.iter().map(|s| s.charts.len()).sum::<usize>(),
                self.slides.iter().filter(|s| s.notes.is_some()).count(),
                self.settings.is_some()
            )
        })
    }
    pub fn presentation(&self) -> ppt_rs::api::Presentation {
        let mut p = ppt_rs::api::Presentation::with_title(&self.title);
        for s in &self.slides {
            p = p.add_slide(s.clone());
        }
        p
    }
}
