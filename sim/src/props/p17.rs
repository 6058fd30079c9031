//! P17: a fetch is a complete page or an error, in bounded time.
use super::util::*;
use super::web::*;
use super::*;
use crate::ctx::*;
use crate::pkg;
use crate::rt::*;
use crate::simnet::*;
use ppt_rs::web2ppt::{url_to_pptx_with_options, html_to_pptx_with_options, ConversionOptions, Web2PptConfig, WebFetcher};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
enum Reply {
    /// a page, sent this way, with this pause before each piece
    Page(Beh, u64),
    /// the page in n pieces
    Drip(usize, u64),
    /// any status with the page as its body
    Code(u16, u64),
    /// a complete answer, after which the server closes the connection
    ThenFin(u64),
    Redirect(u16, Option<String>, u64),
    /// the connection is closed without its length being reached, or reset, after close-delimited data
    CloseReset(u64),
}
struct Server {
    pages: BTreeMap<String, (Reply, Vec<u8>, String)>,
    hits: BTreeMap<String, usize>,
    unknown: usize,
}

struct Body {
    bytes: Vec<u8>,
    text: String,
    ctype: String,
    /// every text in the order of the page
    marks: Vec<String>,
    title: String,
    description: Option<String>,
}

fn page(uid: usize, c: &Web2PptConfig) -> Body {
    let latin = wc(1, 6);
    let rich = wc(1, 3);
    let depth = if rich { [0usize, 1, 40, 300, 700][w(5) as usize] } else { 0 };
    let wrapper = w(5) as usize;
    let n = 1 + w(5) as usize;
    let extra = w(4);
    let head = w(3);
    let sections: Vec<(u64, u64, u64)> = (0..n).map(|_| (1 + w(9), w(8), w(6))).collect();
    let more: Vec<Vec<(u64, u64)>> = (0..n).map(|_| if rich { (0..w(5)).map(|_| (w(5), 1 + w(4))).collect() } else { vec![] }).collect();
    let (code, tables, images) = (c.include_code, c.include_tables, c.include_images);
    god(|| {
        let words = if latin { ["Über uns", "naïve café", "plain", "Größe & <Maß>"] } else { ["日本語", "naïve café 🎉", "plain", "a < b & c"] };
        let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
        let mut k = 0;
        let mut next = |what: &str| {
            k += 1;
            format!("{} p{}n{} {}", what, uid, k, words[(k + uid) % 4])
        };
        let title = next("Page");
        let mut marks = vec![];
        let mut s = format!("<!DOCTYPE html>\n<html><head><title>{}</title>", esc(&title));
        let description = if head == 1 { Some(next("About")) } else { None };
        if let Some(d) = &description {
            s.push_str(&format!("<meta name=\"description\" content=\"{}\">", esc(d)));
        }
        s.push_str("</head>\n<body>\n");
        let (open, close) = [("", ""), ("<main><article>", "</article></main>"), ("<div id=\"content\">", "</div>"), ("<div role='main'>", "</div>"), ("<section class=\"prose wide\">", "</section>")][wrapper];
        s.push_str(open);
        s.push_str(&"<div>".repeat(depth));
        if extra == 1 {
            s.push_str("<nav><div class=\"social-share\"><p>never share this text</p></div></nav><script>var never = 1;</script>");
        }
        for (i, (paras, form, size)) in sections.iter().enumerate() {
            let h = next("Section");
            let lvl = if i == 0 { 1 } else { 2 + (*form as usize) % 4 };
            s.push_str(&format!("<h{}>{}</h{}>\n", lvl, esc(&h), lvl));
            marks.push(h);
            for _ in 0..*paras {
                let mut p = next("Paragraph");
                marks.push(p.clone());
                // long ones are shortened behind the mark
                if *size > 3 {
                    p.push_str(&" filler words of a long paragraph".repeat([1, 60, 900][*size as usize % 3]));
                }
                s.push_str(&format!("<p>{}</p>\n", esc(&p)));
            }
            for (what, count) in &more[i] {
                match what {
                    0 => {
                        s.push_str("<ul>");
                        for _ in 0..*count {
                            let t = next("item");
                            s.push_str(&format!("<li>{}\n", esc(&t)));
                            marks.push(format!("• {}", t));
                        }
                        s.push_str("</ul>");
                    }
                    1 => {
                        let t = next("quote");
                        s.push_str(&format!("<blockquote>{}</blockquote>", esc(&t)));
                        marks.push(format!("\"{}\"", t));
                    }
                    2 => {
                        let t = next("code");
                        s.push_str(&format!("<pre>{}</pre>", esc(&t)));
                        if code {
                            marks.push(format!("[Code] {}", t));
                        }
                    }
                    3 => {
                        s.push_str("<table>");
                        for _ in 0..*count {
                            s.push_str(&format!("<tr><td>{}</td><td>b</td></tr>", esc(&next("cell"))));
                        }
                        s.push_str("</table>");
                        if tables {
                            marks.push(format!("[Table: {} rows × 2 cols]", count));
                        }
                    }
                    _ => {
                        let t = next("picture");
                        s.push_str(&format!("<img src=\"pic.png\" alt=\"{}\">", esc(&t)));
                        if images {
                            marks.push(format!("[Image: {}]", t));
                        }
                    }
                }
            }
        }
        s.push_str(&"</div>".repeat(depth));
        s.push_str(close);
        // text of no block: enough for the page to count as one with content
        s.push_str(&format!("<div>{}</div></body></html>\n", "padding ".repeat(20)));
        let bytes = if latin { s.chars().map(|c| c as u32 as u8).collect() } else { s.clone().into_bytes() };
        let ctype = if latin { "text/html; charset=ISO-8859-1" } else { ["text/html; charset=utf-8", "text/html"][extra as usize % 2] };
        Body { bytes, text: s, ctype: ctype.into(), marks, title, description }
    })
}

fn serve(st: &mut Server, q: &Req) -> Vec<Act> {
    let key = format!("{}{}", q.host, q.path);
    *st.hits.entry(key.clone()).or_insert(0) += 1;
    let Some((reply, body, ctype)) = st.pages.get(&key) else {
        st.unknown += 1;
        return answer(Beh::Status(404), "text/plain", b"nothing here", 0);
    };
    let full = |code: u16| {
        let mut v = format!("HTTP/1.1 {} X\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", code, ctype, body.len()).into_bytes();
        v.extend(body);
        v
    };
    match reply {
        Reply::Page(beh, d) => answer(*beh, ctype, body, *d),
        Reply::Drip(n, d) => {
            let all = full(200);
            let k = all.len().div_ceil(*n).max(1);
            all.chunks(k).map(|c| Act::Send(*d, c.to_vec())).collect()
        }
        Reply::Code(c, d) => {
            count("net_status");
            if *c == 204 || *c == 304 {
                return vec![Act::Send(*d, format!("HTTP/1.1 {} X\r\nContent-Type: {}\r\n\r\n", c, ctype).into_bytes())];
            }
            vec![Act::Send(*d, full(*c))]
        }
        Reply::ThenFin(d) => vec![Act::Send(*d, full(200)), Act::Fin(MS)],
        Reply::Redirect(c, to, d) => {
            count("net_redirect");
            let l = match to {
                Some(t) => format!("Location: {}\r\n", t),
                None => String::new(),
            };
            vec![Act::Send(*d, format!("HTTP/1.1 {} Moved\r\n{}Content-Length: 0\r\n\r\n", c, l).into_bytes())]
        }
        Reply::CloseReset(d) => {
            count("net_reset");
            let mut h = format!("HTTP/1.1 200 OK\r\nContent-Type: {}\r\nConnection: close\r\n\r\n", ctype).into_bytes();
            h.extend(&body[..body.len() / 2]);
            vec![Act::Send(*d, h), Act::Reset(*d)]
        }
    }
}

struct Plan {
    url: String,
    body: Body,
    /// no complete page can come of it
    hopeless: Option<&'static str>,
    /// what the network needs if all goes well
    time: u64,
    keys: Vec<String>,
    lookup: u64,
}

/// What this URL leads to, hop by hop.
fn plan(uid: usize, st: &mut Server, c: &Web2PptConfig) -> Plan {
    let body = page(uid, c);
    let hops = match w(8) {
        0..=3 => 0,
        4 => 1,
        5 => 2 + w(8) as usize,
        6 => 10,
        _ => 11 + w(3) as usize,
    };
    let end = w(12);
    let same_host = wc(1, 2);
    let host = |i: usize| if same_host { format!("h{}.test", uid) } else { format!("h{}x{}.test", uid, i % 4) };
    let urls: Vec<String> = god(|| (0..=hops).map(|i| format!("http://{}/page/{}/{}", host(i), uid, i)).collect());
    let key = |u: &str| u.trim_start_matches("http://").to_string();
    let mut hopeless = None;
    let mut time = 0;
    let mut lookup = 0;
    let slow = wc(1, 3);
    let mut delay = || if slow { [100 * MS, 900 * MS, 4 * SEC][fdraw(3) as usize] } else { [0, MS, 30 * MS][fdraw(3) as usize] };
    for i in 0..hops {
        let d = delay();
        time += d;
        let code = *pick(&[301u16, 302, 303, 307, 308]);
        let to = match w(3) {
            0 if same_host => god(|| format!("/page/{}/{}", uid, i + 1)),
            _ => urls[i + 1].clone(),
        };
        god(|| st.pages.insert(key(&urls[i]), (Reply::Redirect(code, Some(to), d), vec![], String::new())));
    }
    if hops > 10 {
        hopeless = Some("more than ten redirects");
    }
    let last = key(&urls[hops]);
    let d = delay();
    let n = body.bytes.len();
    let (reply, cost) = match end {
        0..=3 => match w(5) {
            0 => (Reply::Page(Beh::Whole, d), d),
            1 => (Reply::Page(Beh::Chunked, d), 2 * d),
            2 => (Reply::Page(Beh::Close, d), 3 * d),
            3 => {
                let k = 2 + w(20) as usize;
                (Reply::Drip(k, d), (k as u64 + 1) * d)
            }
            _ => (Reply::ThenFin(d), d),
        },
        4 => {
            let c = *pick(&[404u16, 500, 403, 503, 429, 410, 401, 304, 400, 599, 418]);
            hopeless = Some("status");
            (Reply::Code(c, d), d)
        }
        5 | 6 => {
            let b = *pick(&[Beh::Truncated, Beh::ChunkTruncated, Beh::Reset, Beh::ResetFirst, Beh::Garbage, Beh::FinFirst]);
            hopeless = Some("broken response");
            (Reply::Page(b, d), 2 * d)
        }
        7 => {
            let b = *pick(&[Beh::Stall, Beh::StallMiddle]);
            hopeless = Some("stall");
            (Reply::Page(b, d), 0)
        }
        8 => {
            hopeless = Some("redirect that leads nowhere");
            let to = match w(7) {
                0 => None,
                1 => Some("ftp://files.test/x".to_string()),
                2 => Some("http://".to_string()),
                3 => Some(urls[w(hops as u64 + 1) as usize].clone()), // a loop
                4 => Some("file:///etc/hosts".to_string()),
                // a server that never answers the handshake
                5 => Some(format!("https://h{}.test/secure", uid)),
                _ => Some(format!("http://h{}.test/no/such/page", uid)),
            };
            (Reply::Redirect(302, to, d), d)
        }
        9 => {
            hopeless = Some("reset");
            (Reply::CloseReset(d), d)
        }
        10 => {
            // drips on and on, past every timeout
            hopeless = Some("endless");
            (Reply::Drip(400.min(n / 2), SEC), 0)
        }
        _ => (Reply::Code(*pick(&[200u16, 201, 203]), d), d),
    };
    time += cost;
    god(|| st.pages.insert(last.clone(), (reply, body.bytes.clone(), body.ctype.clone())));
    // the way there
    let bad_host = god(|| host(w(hops as u64 + 1) as usize));
    match w(16) {
        0 => {
            conn(&bad_host, ConnPlan::Refuse(3 * MS));
            hopeless = hopeless.or(Some("refused"));
        }
        1 => {
            conn(&bad_host, ConnPlan::Blackhole);
            hopeless = hopeless.or(Some("black hole"));
        }
        2 => {
            conn(&bad_host, ConnPlan::Unreach);
            hopeless = hopeless.or(Some("unreachable"));
        }
        3 => {
            dns(&bad_host, DnsPlan::NoName(5 * MS));
            hopeless = hopeless.or(Some("no such name"));
        }
        4 => {
            lookup = [50 * MS, 3 * SEC, 20 * SEC, 90 * SEC][fdraw(4) as usize];
            dns(&bad_host, DnsPlan::TryAgain(lookup));
            hopeless = hopeless.or(Some("no answer from the name server"));
        }
        5 => {
            lookup = [50 * MS, 900 * MS, 10 * SEC, 90 * SEC][fdraw(4) as usize];
            dns(&bad_host, DnsPlan::Ok(lookup));
            time += lookup;
        }
        6 => {
            let d = [500 * MS, 3 * SEC, 40 * SEC][fdraw(3) as usize];
            conn(&bad_host, ConnPlan::Accept(d));
            time += d * (hops as u64 + 1);
        }
        _ => {}
    }
    if hops > 0 {
        // connecting again and again
        time += (hops as u64 + 1) * 10 * MS;
    }
    let keys = god(|| urls.iter().map(|u| key(u)).collect());
    Plan { url: urls[0].clone(), body, hopeless, time, keys, lookup }
}

fn config() -> (Web2PptConfig, u64) {
    let t = *pick(&[1u64, 2, 5, 10, 30, 60]);
    let mut c = Web2PptConfig::new().timeout(t);
    if wc(1, 3) {
        c = c.max_slides(1 + w(12) as usize);
    } else {
        c = c.max_slides(200);
    }
    if wc(1, 2) {
        c = c.max_bullets(1 + w(9) as usize);
    }
    c = c.group_by_headings(wc(2, 3));
    if wc(1, 4) {
        c = c.with_code(wc(1, 2)).with_tables(wc(1, 2)).with_images(wc(1, 2)).with_links(wc(1, 2));
    }
    (c, t * SEC)
}

fn clean_deck(p: &Plan, c: &Web2PptConfig, o: &ConversionOptions, b: &[u8]) {
    let parts = read_parts("invalid", "converted page", b);
    if let Some(e) = god(|| pkg::check(&parts)).first() {
        viol!("invalid", "the presentation of a page is inconsistent: {}", e);
    }
    let view = match god(|| pkg::deck_view(&parts)) {
        Ok(v) => v,
        Err(e) => viol!("invalid", "{}", e),
    };
    if view.len() > c.max_slides {
        viol!("limits", "{} slides where at most {} are allowed", view.len(), c.max_slides);
    }
    let texts: Vec<String> = god(|| view.iter().flat_map(|s| s.texts.clone()).collect());
    let title = o.title.clone().unwrap_or_else(|| p.body.title.clone());
    god(|| {
        if texts.first() != Some(&title) {
            viol!("content", "the first text is {:?}, not the title {:?}", texts.first(), title);
        }
        let mut head = vec![];
        head.extend(p.body.description.clone());
        if o.include_source_url {
            head.push(format!("Source: {}", p.url));
        }
        // the layout of the title slide has no room for these; they may be shown or not
        let rest: Vec<&String> = texts[1..].iter().skip_while(|t| head.contains(t)).collect();
        // marks appear once each, in the order of the page, from the first on
        let got: Vec<&String> = rest.into_iter().filter(|t| !t.ends_with(" (cont.)")).collect();
        // without groups, only headings and paragraphs are sure to be shown
        let shown = |m: &str| c.group_by_headings || !["• ", "\"", "[Code] ", "[Table: ", "[Image: "].iter().any(|x| m.starts_with(x));
        let got: Vec<&String> = got.into_iter().filter(|t| shown(t)).collect();
        let marks: Vec<&String> = p.body.marks.iter().filter(|m| shown(m)).collect();
        let n = got.len();
        if n > marks.len() {
            viol!("content", "{} texts of {} in the page: {:?}", n, marks.len(), got);
        }
        for (g, m) in got.iter().zip(&marks) {
            if !g.starts_with(m.as_str()) {
                viol!("content", "{:?} is where the page has {:?}", crate::ctx::short(g.as_bytes()), m);
            }
        }
        if c.max_slides >= 200 && n < marks.len() {
            viol!("content", "{} of the {} texts of the page reached the deck; missing {:?}", n, marks.len(), &marks[n..]);
        }
    })
}

fn run() {
    freeze_clock();
    god(|| sim().fs.mkdir_p("/tmp"));
    let st = god(|| Rc::new(RefCell::new(Server { pages: BTreeMap::new(), hits: BTreeMap::new(), unknown: 0 })));
    super::web::install();
    let s2 = st.clone();
    god(|| sim().net.server = Some(Box::new(move |q: &Req| serve(&mut s2.borrow_mut(), q))));
    god(|| sim().net.short_recv = [0, 40, 200][fdraw(3) as usize]);
    let (cfg, timeout) = config();
    let n = 1 + w(3) as usize;
    let mut plans: Vec<Plan> = vec![];
    for i in 0..n {
        let p = plan(i, &mut st.borrow_mut(), &cfg);
        plans.push(p);
    }
    let plans = Rc::new(plans);
    let opt = {
        let mut o = ConversionOptions::new().with_source_url(wc(1, 2));
        if wc(1, 3) {
            o = o.title("Another title");
        }
        o
    };
    let convert = wc(1, 2);
    let together = n > 1 && wc(1, 2);
    if plans.iter().any(|p| p.hopeless.is_some() || p.time > timeout / 2) {
        nontrivial();
    }
    // (outcome, simulated time)
    type Out = Rc<RefCell<Vec<Option<(Result<Vec<u8>, String>, u64)>>>>;
    let outs: Out = Rc::new(RefCell::new(god(|| (0..n).map(|_| None).collect())));
    let fetcher = if convert { None } else { Some(Rc::new(must("fetcher", WebFetcher::with_config(cfg.clone())))) };
    let one = {
        let (plans, outs, cfg, opt, fetcher) = (plans.clone(), outs.clone(), cfg.clone(), opt.clone(), fetcher.clone());
        move |i: usize| {
            let t0 = god(|| sim().now);
            let r = match &fetcher {
                Some(f) => f.fetch(&plans[i].url).map(|s| s.into_bytes()).map_err(|e| e.to_string()),
                None => url_to_pptx_with_options(&plans[i].url, cfg.clone(), opt.clone()).map_err(|e| e.to_string()),
            };
            god(|| outs.borrow_mut()[i] = Some((r, sim().now - t0)));
        }
    };
    if wc(1, 2) {
        set_benign(benign_rates());
    }
    arm();
    if together {
        super::p11::schedule();
        let one = Rc::new(one);
        let fs: Vec<Rc<dyn Fn() -> Result<String, String>>> = (0..n)
            .map(|i| {
                let one = one.clone();
                Rc::new(move || {
                    one(i);
                    Ok(String::new())
                }) as Rc<dyn Fn() -> Result<String, String>>
            })
            .collect();
        let r = super::p11::concurrently(fs);
        super::p11::unschedule();
        if let Some(Err(e)) = r.into_iter().find(|x| x.is_err()) {
            viol!("panic", "fetching: {}", e);
        }
    } else {
        for i in 0..n {
            no_panic("fetch", || one(i));
        }
    }
    disarm();
    drop(fetcher);
    let outs: Vec<(Result<Vec<u8>, String>, u64)> = god(|| outs.borrow_mut().iter_mut().map(|o| o.take().unwrap()).collect());
    state(&god(|| format!("{} {} {} {:?} {:x}", convert, together, timeout, plans.iter().zip(&outs).map(|(p, o)| (p.hopeless, p.keys.len(), o.0.is_ok(), o.1 / SEC)).collect::<Vec<_>>(), sim().sched_hash)));
    sample(god(|| {
        format!(
            "timeout {}s {} {}: {:?}",
            timeout / SEC,
            if convert { "convert" } else { "fetch" },
            if together { "together" } else { "in turn" },
            plans
                .iter()
                .zip(&outs)
                .map(|(p, o)| format!("{} hops, {} ms planned, {:?}: {} in {} ms", p.keys.len() - 1, p.time / MS, p.hopeless, match &o.0 { Ok(b) => format!("ok {} bytes", b.len()), Err(e) => format!("error {}", crate::ctx::short(e.as_bytes())) }, o.1 / MS))
                .collect::<Vec<_>>()
        )
    }));
    for (p, (r, took)) in plans.iter().zip(&outs) {
        // bounded time; converting may also wait for a name lookup that was begun
        let slack = SEC / 2 + if convert { p.lookup } else { 0 };
        if *took > timeout + slack {
            viol!("late", "a {} with a timeout of {} s took {} ms ({:?}, {:?})", if convert { "conversion" } else { "fetch" }, timeout / SEC, took / MS, p.hopeless, r.as_ref().map(|b| b.len()));
        }
        let hits: usize = god(|| p.keys.iter().map(|k| st.borrow().hits.get(k).copied().unwrap_or(0)).sum());
        if hits > 11 {
            viol!("redirects", "{} requests were sent for one fetch", hits);
        }
        match r {
            Ok(b) => {
                probe("success");
                if let Some(h) = p.hopeless {
                    viol!("failure-as-page", "{} ended in success with {} bytes: {}", h, b.len(), crate::ctx::short(b));
                }
                if fetched_whole(p, convert, b) {
                    continue;
                }
                clean_deck(p, &cfg, &opt, b);
                let again = html_to_pptx_with_options(&p.body.text, &p.url, cfg.clone(), opt.clone());
                let again = must("conversion of the page", again);
                let (x, y) = (read_parts("invalid", "deck", b), read_parts("invalid", "deck", &again));
                if let Some(d) = god(|| diff_parts(&x, &y)) {
                    viol!("content", "the deck of the fetched page differs from the deck of the page: {}", d);
                }
            }
            Err(e) => {
                probe("error");
                if p.hopeless.is_none() && p.keys.len() <= 10 && p.time < timeout / 3 && (p.time + 800 * MS) < timeout {
                    viol!("unexpected-error", "the server answered in {} ms of {} s, yet: {}", p.time / MS, timeout / SEC, e);
                }
            }
        }
    }
}
fn fetched_whole(p: &Plan, convert: bool, b: &[u8]) -> bool {
    if convert {
        return false;
    }
    if b != p.body.text.as_bytes() {
        viol!("incomplete", "the fetched text ({} bytes) is not the page ({} bytes): {}", b.len(), p.body.text.len(), god(|| diff_bytes(b, p.body.text.as_bytes())));
    }
    true
}

pub static P: Prop = Prop {
    id: "P17",
    run,
    rule: "a run counts if a server, connection or name lookup on the way of some fetch fails, or needs more than half of the timeout",
    state_measure: "fetch or conversion x together or in turn x timeout x (failure, redirects, outcome, seconds taken) per fetch x interleaving hash",
    stubs: "web servers, name lookup and the clock are simulated behind the libc boundary; reqwest, hyper, tokio, scraper and ppt-rs are real",
    ..BASE
};
