//! Independent package checker and content extraction.
use crate::xmlp::{self, El};
use crate::zipr::Parts;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String, // resolved part name, or URL if external
    pub external: bool,
}
impl Rel {
    pub fn kind(&self) -> &str {
        self.ty.rsplit('/').next().unwrap_or("")
    }
}

pub fn rels_name(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{}/_rels/{}.rels", d, f),
        None => format!("_rels/{}.rels", part),
    }
}
pub fn rels_source(rels: &str) -> Option<String> {
    if rels == "_rels/.rels" {
        return Some(String::new());
    }
    let (d, f) = rels.rsplit_once('/')?;
    let d = d.strip_suffix("_rels")?.trim_end_matches('/');
    let f = f.strip_suffix(".rels")?;
    Some(if d.is_empty() { f.to_string() } else { format!("{}/{}", d, f) })
}
pub fn resolve(source: &str, target: &str) -> String {
    let t = target.split('#').next().unwrap();
    let base = if t.starts_with('/') {
        vec![]
    } else {
        let mut v: Vec<&str> = source.split('/').collect();
        v.pop();
        v
    };
    let mut v: Vec<&str> = base;
    for c in t.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}
pub fn parse_rels(source: &str, b: &[u8]) -> Result<Vec<Rel>, String> {
    let e = xmlp::parse(b)?;
    let mut out = vec![];
    for r in e.els() {
        if r.local() != "Relationship" {
            continue;
        }
        let ext = r.attr("TargetMode") == Some("External");
        let t = r.attr("Target").unwrap_or("");
        out.push(Rel {
            id: r.attr("Id").unwrap_or("").to_string(),
            ty: r.attr("Type").unwrap_or("").to_string(),
            target: if ext { t.to_string() } else { resolve(source, t) },
            external: ext,
        });
    }
    Ok(out)
}
pub fn rels_of(p: &Parts, part: &str) -> Vec<Rel> {
    let n = if part.is_empty() { "_rels/.rels".to_string() } else { rels_name(part) };
    p.get(&n).and_then(|b| parse_rels(part, b).ok()).unwrap_or_default()
}

pub struct Types {
    pub defaults: BTreeMap<String, String>,
    pub overrides: BTreeMap<String, String>,
    pub dup: Vec<String>,
}
pub fn types(p: &Parts) -> Result<Types, String> {
    let b = p.get("[Content_Types].xml").ok_or("no [Content_Types].xml")?;
    let e = xmlp::parse(b)?;
    let mut t = Types { defaults: BTreeMap::new(), overrides: BTreeMap::new(), dup: vec![] };
    for c in e.els() {
        match c.local() {
            "Default" => {
                let x = c.attr("Extension").unwrap_or("").to_lowercase();
                if t.defaults.insert(x.clone(), c.attr("ContentType").unwrap_or("").into()).is_some() {
                    t.dup.push(format!("Default {}", x));
                }
            }
            "Override" => {
                let x = c.attr("PartName").unwrap_or("").trim_start_matches('/').to_string();
                if t.overrides.insert(x.clone(), c.attr("ContentType").unwrap_or("").into()).is_some() {
                    t.dup.push(format!("Override {}", x));
                }
            }
            _ => {}
        }
    }
    Ok(t)
}
pub fn content_type(t: &Types, part: &str) -> Option<String> {
    if let Some(x) = t.overrides.get(part) {
        return Some(x.clone());
    }
    let ext = part.rsplit('/').next().unwrap().rsplit_once('.').map(|x| x.1.to_lowercase())?;
    t.defaults.get(&ext).cloned()
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub orphans: bool,
}

/// All inconsistencies, each as "class: detail".
pub fn check(p: &Parts) -> Vec<String> {
    let mut out = vec![];
    let t = match types(p) {
        Ok(t) => t,
        Err(e) => {
            out.push(format!("types: {}", e));
            return out;
        }
    };
    for d in &t.dup {
        out.push(format!("types-dup: {}", d));
    }
    for n in t.overrides.keys() {
        if !p.contains_key(n) {
            out.push(format!("override-dangling: {}", n));
        }
    }
    for n in p.keys() {
        if n != "[Content_Types].xml" && content_type(&t, n).is_none() {
            out.push(format!("untyped: {}", n));
        }
    }
    let mut trees: BTreeMap<&str, El> = BTreeMap::new();
    for (n, b) in p {
        if n.ends_with(".xml") || n.ends_with(".rels") || n.ends_with(".vml") {
            match xmlp::parse(b) {
                Ok(e) => {
                    trees.insert(n, e);
                }
                Err(e) => out.push(format!("xml: {}: {}", n, e)),
            }
        }
    }
    // relationships
    let mut rels: BTreeMap<String, Vec<Rel>> = BTreeMap::new();
    for (n, b) in p {
        if !n.ends_with(".rels") {
            continue;
        }
        let src = match rels_source(n) {
            Some(s) => s,
            None => continue,
        };
        if !src.is_empty() && !p.contains_key(&src) {
            out.push(format!("rels-source: {} belongs to no part", n));
        }
        if let Ok(v) = parse_rels(&src, b) {
            let mut ids = BTreeSet::new();
            for r in &v {
                if r.id.is_empty() || !ids.insert(r.id.clone()) {
                    out.push(format!("rel-id: {} has duplicate or empty id {:?}", n, r.id));
                }
                if !r.external && !p.contains_key(&r.target) {
                    out.push(format!("rel-dangling: {} {} -> {}", n, r.id, r.target));
                }
            }
            rels.insert(src, v);
        }
    }
    for (n, e) in &trees {
        check_order(n, e, &mut out);
    }
    // references
    for (n, e) in &trees {
        if n.ends_with(".rels") || *n == "[Content_Types].xml" {
            continue;
        }
        let rv = rels.get(*n);
        let mut bad = vec![];
        e.walk(&mut |el| {
            for (a, v) in &el.attrs {
                if let Some(x) = a.strip_prefix("r:") {
                    if matches!(x, "id" | "embed" | "link" | "pict" | "dm" | "lo" | "qs" | "cs") {
                        if v.is_empty() && el.local() == "hlinkClick" {
                            continue;
                        }
                        let ok = rv.map_or(false, |r| r.iter().any(|r| &r.id == v));
                        if !ok {
                            bad.push(format!("ref-dangling: {} <{} {}={:?}>", n, el.name, a, v));
                        }
                    }
                }
            }
        });
        out.extend(bad);
    }
    // root and presentation
    let root = rels.get("").cloned().unwrap_or_default();
    match root.iter().find(|r| r.kind() == "officeDocument") {
        None => out.push("root: no officeDocument relationship".into()),
        Some(r) if r.target != "ppt/presentation.xml" => out.push(format!("root: {}", r.target)),
        _ => {}
    }
    if let Some(pr) = trees.get("ppt/presentation.xml") {
        let pv = rels.get("ppt/presentation.xml").cloned().unwrap_or_default();
        let mut ids = BTreeSet::new();
        let mut seen = BTreeSet::new();
        if let Some(l) = pr.find("sldIdLst") {
            for s in l.els() {
                let id = s.attr("id").unwrap_or("").to_string();
                let num = id.parse::<u64>().unwrap_or(0);
                if !ids.insert(id.clone()) {
                    out.push(format!("slide-id: {} used twice", id));
                }
                if !(256..2147483648).contains(&num) {
                    out.push(format!("slide-id: {} out of range", id));
                }
                if let Some(r) = pv.iter().find(|r| Some(r.id.as_str()) == s.attr("r:id")) {
                    if r.kind() != "slide" {
                        out.push(format!("slide-rel: slide id {} refers to a {} ({})", id, r.kind(), r.target));
                    }
                    if !seen.insert(r.target.clone()) {
                        out.push(format!("slide-dup: {} listed twice", r.target));
                    }
                }
            }
        }
        for n in p.keys() {
            if is_slide(n) && !seen.contains(n) {
                out.push(format!("slide-unlisted: {}", n));
            }
        }
        for r in pv.iter().filter(|r| r.kind() == "slide") {
            if !seen.contains(&r.target) {
                out.push(format!("slide-unlisted: relationship {} -> {}", r.id, r.target));
            }
        }
        // masters
        let mut mids = BTreeSet::new();
        for m in pr.all("sldMasterId").into_iter().chain(trees.iter().filter(|(n, _)| n.starts_with("ppt/slideMasters/")).flat_map(|(_, e)| e.all("sldLayoutId"))) {
            let id = m.attr("id").unwrap_or("").to_string();
            if !mids.insert(id.clone()) {
                out.push(format!("master-id: {} used twice", id));
            }
        }
        if pr.all("sldMasterId").is_empty() {
            out.push("master: none listed".into());
        }
        for m in pr.all("sldMasterId") {
            if let Some(r) = pv.iter().find(|r| Some(r.id.as_str()) == m.attr("r:id")) {
                if r.kind() != "slideMaster" {
                    out.push(format!("master: refers to a {}", r.kind()));
                }
            }
        }
        for m in pr.all("notesMasterId") {
            if let Some(r) = pv.iter().find(|r| Some(r.id.as_str()) == m.attr("r:id")) {
                if r.kind() != "notesMaster" {
                    out.push(format!("notes-master: refers to a {} ({})", r.kind(), r.target));
                }
            }
        }
        for m in pr.all("handoutMasterId") {
            if let Some(r) = pv.iter().find(|r| Some(r.id.as_str()) == m.attr("r:id")) {
                if r.kind() != "handoutMaster" {
                    out.push(format!("handout-master: refers to a {} ({})", r.kind(), r.target));
                }
            }
        }
    } else {
        out.push("root: no ppt/presentation.xml".into());
    }
    for n in p.keys() {
        if is_slide(n) {
            let v = rels.get(n).cloned().unwrap_or_default();
            let k = v.iter().filter(|r| r.kind() == "slideLayout").count();
            if k != 1 {
                out.push(format!("slide-layout: {} has {} layouts", n, k));
            }
            for r in v.iter().filter(|r| r.kind() == "notesSlide") {
                let back = rels.get(&r.target).cloned().unwrap_or_default();
                if !back.iter().any(|b| b.kind() == "slide" && &b.target == n) {
                    out.push(format!("notes-back: {} does not lead back to {}", r.target, n));
                }
            }
        }
        if n.starts_with("ppt/slideLayouts/") && n.ends_with(".xml") {
            let v = rels.get(n).cloned().unwrap_or_default();
            if v.iter().filter(|r| r.kind() == "slideMaster").count() != 1 {
                out.push(format!("layout-master: {}", n));
            }
        }
        // types of well-known parts
        let want = if is_slide(n) {
            Some("slide+xml")
        } else if n.starts_with("ppt/slideLayouts/slideLayout") && n.ends_with(".xml") {
            Some("slideLayout+xml")
        } else if n.starts_with("ppt/slideMasters/slideMaster") && n.ends_with(".xml") {
            Some("slideMaster+xml")
        } else if n.starts_with("ppt/notesSlides/notesSlide") && n.ends_with(".xml") {
            Some("notesSlide+xml")
        } else if n.starts_with("ppt/charts/chart") && n.ends_with(".xml") {
            Some("chart+xml")
        } else if n.starts_with("ppt/theme/theme") && n.ends_with(".xml") {
            Some("theme+xml")
        } else {
            None
        };
        if let Some(wt) = want {
            let ct = content_type(&t, n).unwrap_or_default();
            if !ct.ends_with(wt) {
                out.push(format!("type: {} is declared {:?}", n, ct));
            }
        }
    }
    out.extend(check_kinds(p));
    out
}

/// Content type (its end, or its start before `/`) and root element of the
/// parts that relationships of a kind lead to.
const KINDS: [(&str, &str, &str); 21] = [
    ("officeDocument", "presentation.main+xml", "presentation"),
    ("slide", "presentationml.slide+xml", "sld"),
    ("slideLayout", "presentationml.slideLayout+xml", "sldLayout"),
    ("slideMaster", "presentationml.slideMaster+xml", "sldMaster"),
    ("notesSlide", "presentationml.notesSlide+xml", "notes"),
    ("notesMaster", "presentationml.notesMaster+xml", "notesMaster"),
    ("handoutMaster", "presentationml.handoutMaster+xml", "handoutMaster"),
    ("theme", "officedocument.theme+xml", "theme"),
    ("chart", "drawingml.chart+xml", "chartSpace"),
    ("presProps", "presentationml.presProps+xml", "presentationPr"),
    ("viewProps", "presentationml.viewProps+xml", "viewPr"),
    ("tableStyles", "presentationml.tableStyles+xml", "tblStyleLst"),
    ("core-properties", "core-properties+xml", "coreProperties"),
    ("extended-properties", "extended-properties+xml", "Properties"),
    ("custom-properties", "custom-properties+xml", "Properties"),
    ("commentAuthors", "commentAuthors+xml", "cmAuthorLst"),
    ("comments", "comments+xml", "cmLst"),
    ("ink", "ink+xml", ""),
    ("font", "application/x-fontdata", ""),
    ("image", "image/", ""),
    ("origin", "digital-signature-origin", ""),
];

/// Children of elements whose order the format fixes.
const SEQUENCES: &[(&str, &[&str])] = &[
    ("p:presentation", &[
        "sldMasterIdLst", "notesMasterIdLst", "handoutMasterIdLst", "sldIdLst", "sldSz", "notesSz", "smartTags", "embeddedFontLst", "custShowLst", "photoAlbum", "custDataLst",
        "kinsoku", "defaultTextStyle", "modifyVerifier", "extLst",
    ]),
    ("p:sld", &["cSld", "clrMapOvr", "transition", "timing", "extLst"]),
    ("p:sldMaster", &["cSld", "clrMap", "sldLayoutIdLst", "transition", "timing", "hf", "txStyles", "extLst"]),
    ("p:sldLayout", &["cSld", "clrMapOvr", "transition", "timing", "hf", "extLst"]),
    ("p:notes", &["cSld", "clrMapOvr", "extLst"]),
    ("p:cSld", &["bg", "spTree", "custDataLst", "controls", "extLst"]),
    ("p:sp", &["nvSpPr", "spPr", "style", "txBody", "extLst"]),
    ("p:pic", &["nvPicPr", "blipFill", "spPr", "style", "extLst"]),
    ("p:graphicFrame", &["nvGraphicFramePr", "xfrm", "graphic", "extLst"]),
    ("p:txBody", &["bodyPr", "lstStyle", "p"]),
    ("a:txBody", &["bodyPr", "lstStyle", "p"]),
    ("a:p", &["pPr", "r", "endParaRPr"]),
    ("a:r", &["rPr", "t"]),
    ("a:rPr", &["ln", "noFill", "solidFill", "gradFill", "effectLst", "highlight", "uLn", "latin", "ea", "cs", "sym", "hlinkClick", "hlinkMouseOver", "rtl", "extLst"]),
    ("a:pPr", &["lnSpc", "spcBef", "spcAft", "buClrTx", "buClr", "buSzTx", "buSzPct", "buSzPts", "buFontTx", "buFont", "buNone", "buAutoNum", "buChar", "buBlip", "tabLst", "defRPr", "extLst"]),
    ("a:tbl", &["tblPr", "tblGrid", "tr"]),
    ("a:tc", &["txBody", "tcPr"]),
    ("p:spPr", &["xfrm", "custGeom", "prstGeom", "noFill", "solidFill", "gradFill", "blipFill", "pattFill", "ln", "effectLst", "effectDag", "scene3d", "sp3d", "extLst"]),
    ("c:chartSpace", &["date1904", "lang", "roundedCorners", "style", "clrMapOvr", "pivotFmts", "protection", "chart", "spPr", "txPr", "externalData", "printSettings", "userShapes", "extLst"]),
    ("c:chart", &["title", "autoTitleDeleted", "pivotFmts", "view3D", "floor", "sideWall", "backWall", "plotArea", "legend", "plotVisOnly", "dispBlanksAs"]),
];
fn check_order(name: &str, root: &El, out: &mut Vec<String>) {
    root.walk(&mut |e| {
        let Some((_, seq)) = SEQUENCES.iter().find(|(n, _)| *n == e.name) else { return };
        let mut last = 0;
        for c in e.els() {
            let Some(i) = seq.iter().position(|x| *x == c.local()) else { continue };
            if i < last {
                out.push(format!("order: {} <{}> has <{}> after <{}>", name, e.name, c.name, seq[last]));
            }
            last = last.max(i);
        }
    });
}

/// Relationships that lead to parts of another kind.
pub fn check_kinds(p: &Parts) -> Vec<String> {
    let mut out = vec![];
    let Ok(t) = types(p) else { return out };
    for n in p.keys().filter(|n| n.ends_with(".rels")) {
        let Some(src) = rels_source(n) else { continue };
        for r in rels_of(p, &src) {
            let Some((_, ct, root)) = KINDS.iter().find(|(k, _, _)| *k == r.kind()) else { continue };
            let Some(b) = p.get(&r.target).filter(|_| !r.external) else { continue };
            let got = content_type(&t, &r.target).unwrap_or_default();
            let odd = *ct == "image/" && (r.target.ends_with(".xml") || r.target.ends_with(".xlsx") || r.target.ends_with(".rels"));
            let ok = if *ct == "image/" { ["image/", "video/", "audio/"].iter().any(|x| got.starts_with(x)) } else { got.ends_with(ct) };
            if !ok && !odd {
                out.push(format!("kind: the {} {} of {:?} is declared {:?}", r.kind(), r.target, src, got));
            }
            if !root.is_empty() {
                if let Ok(e) = xmlp::parse(b) {
                    if e.local() != *root {
                        out.push(format!("kind: the {} {} of {:?} holds a {}", r.kind(), r.target, src, e.name));
                    }
                }
            }
        }
    }
    out
}

/// Parts not reachable from the root through relationships.
pub fn orphans(p: &Parts) -> Vec<String> {
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut st = vec![String::new()];
    while let Some(x) = st.pop() {
        for r in rels_of(p, &x) {
            if !r.external && seen.insert(r.target.clone()) {
                st.push(r.target);
            }
        }
    }
    p.keys().filter(|n| !n.ends_with(".rels") && *n != "[Content_Types].xml" && !seen.contains(*n)).cloned().collect()
}

pub fn is_slide(n: &str) -> bool {
    n.strip_prefix("ppt/slides/slide").and_then(|x| x.strip_suffix(".xml")).map_or(false, |x| x.chars().all(|c| c.is_ascii_digit()))
}

/// Slide part names in presentation order.
pub fn slide_order(p: &Parts) -> Result<Vec<String>, String> {
    let b = p.get("ppt/presentation.xml").ok_or("no presentation.xml")?;
    let e = xmlp::parse(b)?;
    let rv = rels_of(p, "ppt/presentation.xml");
    let mut out = vec![];
    if let Some(l) = e.find("sldIdLst") {
        for s in l.els() {
            let id = s.attr("r:id").unwrap_or("");
            let r = rv.iter().find(|r| r.id == id).ok_or(format!("slide rel {} missing", id))?;
            out.push(r.target.clone());
        }
    }
    Ok(out)
}

/// All visible text of a part: one string per paragraph.
pub fn paragraphs(b: &[u8]) -> Result<Vec<String>, String> {
    let e = xmlp::parse(b)?;
    let mut out = vec![];
    e.walk(&mut |x| {
        if x.name == "a:p" {
            let mut s = String::new();
            let mut st: Vec<&El> = x.els().collect();
            st.reverse();
            while let Some(y) = st.pop() {
                if y.name == "a:t" {
                    s.push_str(&y.text());
                } else {
                    let v: Vec<&El> = y.els().collect();
                    for z in v.into_iter().rev() {
                        st.push(z);
                    }
                }
            }
            if !s.is_empty() {
                out.push(s);
            }
        }
    });
    Ok(out)
}

/// Everything one slide shows: texts plus the bytes behind its relationships
/// (normalised so that part numbering does not matter).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SlideView {
    pub texts: Vec<String>,
    pub notes: Option<Vec<String>>,
    pub media: Vec<(String, u64, usize)>, // kind, hash, len of referenced binary parts, in reference order
    pub charts: Vec<Vec<String>>,
    pub links: Vec<String>,
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    crate::rt::fnv(&mut h, b);
    h
}
pub fn slide_view(p: &Parts, slide: &str) -> Result<SlideView, String> {
    let b = p.get(slide).ok_or_else(|| format!("{} missing", slide))?;
    let rv = rels_of(p, slide);
    let e = xmlp::parse(b).map_err(|e| format!("{}: {}", slide, e))?;
    let mut media = vec![];
    let mut charts = vec![];
    let mut links = vec![];
    let mut err = None;
    e.walk(&mut |el| {
        for (a, v) in &el.attrs {
            if !a.starts_with("r:") {
                continue;
            }
            if let Some(r) = rv.iter().find(|r| &r.id == v) {
                match r.kind() {
                    "image" | "video" | "audio" | "media" => {
                        if r.external {
                            links.push(r.target.clone());
                            continue;
                        }
                        match p.get(&r.target) {
                            Some(d) => media.push((r.kind().to_string(), hash(d), d.len())),
                            None => err = Some(format!("{}: {} missing", slide, r.target)),
                        }
                    }
                    "chart" => match p.get(&r.target) {
                        Some(d) => match xmlp::parse(d) {
                            Ok(c) => charts.push(c.all("v").iter().map(|x| x.text()).collect()),
                            Err(x) => err = Some(format!("{}: {}", r.target, x)),
                        },
                        None => err = Some(format!("{}: {} missing", slide, r.target)),
                    },
                    "hyperlink" => links.push(r.target.clone()),
                    _ => {}
                }
            } else if !v.is_empty() {
                err = Some(format!("{}: reference {} leads nowhere", slide, v));
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    let notes = match rv.iter().find(|r| r.kind() == "notesSlide") {
        Some(r) => Some(paragraphs(p.get(&r.target).ok_or_else(|| format!("{}: notes missing", slide))?)?),
        None => None,
    };
    Ok(SlideView { texts: paragraphs(b)?, notes, media, charts, links })
}
pub fn deck_view(p: &Parts) -> Result<Vec<SlideView>, String> {
    slide_order(p)?.iter().map(|s| slide_view(p, s)).collect()
}
