//! Markdown and HTML documents as people write them.
use crate::ctx::*;

const WORDS: &[&str] = &["Plan", "Umsatz & Gewinn", "日本語", "x < y", "\"quoted\"", "naïve café", "Q3 2024", "a*b", "über", "end"];
fn word() -> String {
    let (a, n) = (*pick(WORDS), w(1000));
    if crate::gen::hostile() && wc(1, 3) {
        const ODD: &[&str] = &["a\u{1}b", "\u{fffe}", "&#0;", "&#x1;", "&#xFFFE;", "&#99999999999;", "&nosuch;", "]]>", "<!--", "</p>", "<![CDATA[", "|", "\\", "```", "\t", "é\u{301}", "\u{0}", "[x](", "![", "<br", "**", "$$"];
        let b = *pick(ODD);
        return god(|| format!("{} {} {}", a, b, n));
    }
    god(|| format!("{} {}", a, n))
}
fn ids(n: usize) -> Vec<String> {
    let style = w(3);
    god(|| {
        (0..n)
            .map(|i| match style {
                0 => ((b'A' + (i % 26) as u8) as char).to_string() + &"x".repeat(i / 26),
                1 => format!("node{}", i * 7 % 11 + i * 11),
                _ => format!("{}{}", ["Customer", "Order", "Item", "Address"][i % 4], i),
            })
            .collect()
    })
}
/// A Mermaid diagram.
pub fn diagram() -> String {
    let n = 2 + w(8) as usize;
    let v = ids(n);
    let kind = w(13);
    let e = 1 + w(9) as usize;
    let pairs: Vec<(usize, usize)> = (0..e).map(|_| (w(n as u64) as usize, w(n as u64) as usize)).collect();
    let x = w(1000);
    god(|| {
        let mut s = String::new();
        match kind {
            0..=2 => {
                s.push_str(&format!("{} {}\n", ["graph", "flowchart"][x as usize % 2], ["TD", "LR", "RL", "BT"][x as usize / 2 % 4]));
                let sub = kind == 2;
                for (k, (a, b)) in pairs.iter().enumerate() {
                    if sub && k % 3 == 0 {
                        if k > 0 {
                            s.push_str("  end\n");
                        }
                        s.push_str(&format!("  subgraph Group{}\n", k));
                    }
                    let form = |i: usize| match (i + x as usize) % 5 {
                        0 => v[i].clone(),
                        1 => format!("{}[Text {}]", v[i], i),
                        2 => format!("{}(Round {})", v[i], i),
                        3 => format!("{}{{Choice {}}}", v[i], i),
                        _ => format!("{}((Circle {}))", v[i], i),
                    };
                    s.push_str(&format!("  {} {} {}\n", form(*a), ["-->", "-.->", "==>", "-->|yes|"][(a + b) % 4], form(*b)));
                }
                if sub {
                    s.push_str("  end\n");
                }
            }
            3 | 4 => {
                s.push_str("erDiagram\n");
                for (k, (a, b)) in pairs.iter().enumerate() {
                    s.push_str(&format!("    {} ||--o{{ {} : rel{}\n", v[*a].to_uppercase(), v[*b].to_uppercase(), k));
                }
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&format!("    {} {{\n        string name{}\n        int id\n    }}\n", y.to_uppercase(), i));
                }
            }
            5 => {
                s.push_str("sequenceDiagram\n");
                for y in v.iter().take(x as usize % n) {
                    s.push_str(&format!("    participant {} as {} long\n", y, y));
                }
                for (k, (a, b)) in pairs.iter().enumerate() {
                    s.push_str(&format!("    {}->>{}: message {}\n", v[*a], v[*b], k));
                }
            }
            6 => {
                s.push_str("classDiagram\n");
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&format!("    class {} {{\n        +int f{}\n        +run()\n    }}\n", y, i));
                }
                for (a, b) in &pairs {
                    s.push_str(&format!("    {} <|-- {}\n", v[*a], v[*b]));
                }
            }
            7 => {
                s.push_str("stateDiagram-v2\n    [*] --> S0\n");
                for (k, (a, b)) in pairs.iter().enumerate() {
                    s.push_str(&format!("    {} --> {} : on{}\n", v[*a], v[*b], k));
                }
            }
            8 => {
                s.push_str("pie title Shares\n");
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&format!("    \"{}\" : {}\n", y, 1 + i * 3));
                }
            }
            9 => {
                s.push_str("gantt\n    title Work\n    dateFormat YYYY-MM-DD\n    section One\n");
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&format!("    {} :a{}, 2024-01-0{}, {}d\n", y, i, 1 + i % 9, 1 + i));
                }
            }
            10 => {
                s.push_str("mindmap\n  root((Centre))\n");
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&format!("{}{}\n", " ".repeat(4 + 2 * (i % 3)), y));
                }
            }
            11 => {
                s.push_str("timeline\n    title History\n");
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&format!("    {} : {}\n", 2000 + i, y));
                }
            }
            _ => {
                s.push_str(["journey\n    title Day\n    section Go\n", "quadrantChart\n    title Reach\n", "gitGraph\n"][x as usize % 3]);
                for (i, y) in v.iter().enumerate() {
                    s.push_str(&match x % 3 {
                        0 => format!("      {}: {}: Me\n", y, 1 + i % 5),
                        1 => format!("    {}: [0.{}, 0.{}]\n", y, 1 + i % 8, 9 - i % 8),
                        _ => ["    commit\n", "    branch dev\n", "    checkout dev\n", "    merge dev\n"][i % 4].to_string(),
                    });
                }
            }
        }
        s
    })
}
/// One block of a document.
fn block(images: &[String]) -> String {
    let k = w(17);
    let (a, b, c) = (word(), word(), word());
    let d = if (11..14).contains(&k) { diagram() } else { String::new() };
    let im = if images.is_empty() { String::new() } else { images[w(images.len() as u64) as usize].clone() };
    god(|| match k {
        0 => format!("- {}\n- **{}**\n- {}\n", a, b, c),
        1 => format!("1. {}\n2. *{}*\n", a, b),
        2 => format!("{} with `code` and ~~{}~~\n", a, b),
        3 => format!("| {} | y |\n|---|---|\n| {} | 2 |\n| {} | 3 |\n", a.replace('|', ""), b, c),
        4 => format!("> {}\n> {}\n", a, b),
        5 => format!("```rust\nfn main() {{ let s = \"{}\"; }} // {}\n```\n", a.replace('"', ""), b),
        6 => format!("```\n{}\n```\n", a),
        7 => format!("- [ ] {}\n- [x] {}\n", a, b),
        8 => format!("### {}\n\n{}\n", a, b),
        9 => "---\n".into(),
        10 => format!("```python\nprint('{}')\n```\n", c.replace('\'', "")),
        14 => format!("- {}\n  - {}\n    - {}\n  1. x\n     continued\n", a, b, c),
        15 => format!("{} H<sub>2</sub>O <sup>2</sup> <mark>{}</mark> ==hi== <https://example.com> [l](http://a/ \"{}\")\\\nnext\n", a, b, c.replace('"', "")),
        16 => format!("## {}\n\n{}\n===\n\n<div>{}</div>\n\n[^1]: note\n", a, b, c),
        _ if k == 11 && !im.is_empty() => format!("![{}]({})\n", a.replace(['[', ']'], ""), im),
        _ => format!("```mermaid\n{}```\n", d),
    })
}
/// A Markdown document of some slides; `images` are what it may refer to.
pub fn rich_markdown(images: &[String]) -> String {
    let n = 1 + w(4);
    let mut s = String::new();
    for _ in 0..n {
        let t = word();
        let m = w(4);
        // sometimes blocks come before the first heading
        let mark = if s.is_empty() && wc(1, 8) { "-" } else { "#" };
        god(|| s.push_str(&format!("{} {}\n\n", mark, t)));
        for _ in 0..m {
            let b = block(images);
            god(|| {
                s.push_str(&b);
                s.push('\n')
            });
        }
    }
    s
}
fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}
/// An HTML page of some slides.
pub fn rich_html(images: &[String]) -> String {
    let n = 1 + w(4);
    let mut s = String::new();
    let t = word();
    god(|| s.push_str(&format!("<!DOCTYPE html><html><head><title>{}</title><style>p {{ color: red }}</style></head><body>", esc(&t))));
    for i in 0..n {
        let t = word();
        god(|| s.push_str(&format!("<h{}>{}</h{}>\n", 1 + i % 2, esc(&t), 1 + i % 2)));
        for _ in 0..w(4) {
            let k = w(15);
            let (a, b, c) = (word(), word(), word());
            let im = if images.is_empty() { String::new() } else { images[w(images.len() as u64) as usize].clone() };
            god(|| {
                let (a, b, c) = (esc(&a), esc(&b), esc(&c));
                s.push_str(&match k {
                    0 => format!("<ul><li>{}</li><li><b>{}</b> {}</li></ul>", a, b, c),
                    1 => format!("<ol><li>{}</li><li><i>{}</i></li></ol>", a, b),
                    2 => format!("<p>{} <a href=\"https://example.com/{}\">{}</a></p>", a, i, b),
                    3 => format!("<table><tr><th>{}</th><th>y</th></tr><tr><td>{}</td><td>{}</td></tr></table>", a, b, c),
                    4 => format!("<pre><code class=\"language-rust\">let a = 1; // {}</code></pre>", a),
                    5 => format!("<blockquote>{}</blockquote>", a),
                    6 if !im.is_empty() => format!("<p>before</p><img src=\"{}\" alt=\"{}\"><p>after</p>", im, a),
                    9 => format!("<ul><li>{}<ol><li>{}</li></ol></li></ul><p>", a, b),
                    10 => format!("<dl><dt>{}</dt><dd>{}</dd></dl><h3>{}</h3>", a, b, c),
                    11 => format!("<table><tr><td colspan=\"2\">{}</td></tr><tr><td>{}</td></tr><tr><td><p>{}</p><ul><li>x</li></ul></td><td/></tr></table>", a, b, c),
                    12 => {
                        let st = ["color:#12345é7", "color:#&lt;&lt;&lt;", "font-family:A&amp;B", "font-family:a&quot;b", "font-size:99999999px", "font-size:-3px", "font-size:NaNpt", "color:rgb(1,2", "background-color:#&amp;&amp;&amp;", ";:;", "color:rgba(300,2,3,.5)"][(i as usize + a.len() * 7) % 11];
                        format!("<p style=\"{}\">{} <span style=\"{}\">{}</span></p><h2 style=\"{}\">{}</h2>", st, a, st, b, st, c)
                    }
                    13 => format!("<p>{}<b>{}</i></p></b><td>{}</div>", a, b, c),
                    14 => format!("{}<del>{}</del><sub>{}</sub>&#0;&#1;&nbsp;&copy;", a, b, c),
                    7 => format!("<div><span style=\"color:#ff0000\">{}</span><br>{}</div><hr>", a, b),
                    _ => format!("<p style=\"font-weight: bold; color: blue\">{}</p><script>var x = 1;</script>", c),
                })
            });
        }
    }
    god(|| s.push_str("</body></html>"));
    s
}
