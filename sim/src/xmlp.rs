//! Small strict XML parser (well-formedness + namespace prefixes).
#[derive(Clone, Debug, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug)]
pub enum Node {
    E(El),
    T(String),
}
impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn local(&self) -> &str {
        self.name.rsplit(':').next().unwrap()
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| if let Node::E(e) = k { Some(e) } else { None })
    }
    pub fn find(&self, local: &str) -> Option<&El> {
        self.els().find(|e| e.local() == local)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        // explicit stack: documents may be deep
        let mut st = vec![self];
        while let Some(e) = st.pop() {
            f(e);
            let v: Vec<&El> = e.els().collect();
            for x in v.into_iter().rev() {
                st.push(x);
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_into(&mut s);
        s
    }
    fn text_into(&self, s: &mut String) {
        for k in &self.kids {
            match k {
                Node::T(t) => s.push_str(t),
                Node::E(e) => e.text_into(s),
            }
        }
    }
    pub fn all<'a>(&'a self, local: &str) -> Vec<&'a El> {
        let mut v = vec![];
        self.walk(&mut |e| {
            if e.local() == local {
                v.push(e)
            }
        });
        v
    }
}

fn unescape(s: &str) -> Result<String, String> {
    if !s.contains('&') {
        return Ok(s.to_string());
    }
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        r = &r[i + 1..];
        let j = r.find(';').ok_or("bare '&'")?;
        let e = &r[..j];
        match e {
            "amp" => o.push('&'),
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            _ if e.starts_with("#x") => {
                let c = u32::from_str_radix(&e[2..], 16).ok().and_then(char::from_u32).ok_or("bad character reference")?;
                o.push(c)
            }
            _ if e.starts_with('#') => {
                let c = e[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or("bad character reference")?;
                o.push(c)
            }
            _ => return Err(format!("unknown entity &{};", e.chars().take(12).collect::<String>())),
        }
        r = &r[j + 1..];
    }
    o.push_str(r);
    if let Some(c) = bad_char(&o) {
        return Err(format!("reference to the illegal character U+{:04X}", c as u32));
    }
    Ok(o)
}
fn name_ok(n: &str) -> bool {
    let mut c = n.chars();
    match c.next() {
        Some(x) if x.is_alphabetic() || x == '_' => {}
        _ => return false,
    }
    n.chars().all(|x| x.is_alphanumeric() || "_-.:".contains(x))
}
fn bad_char(s: &str) -> Option<char> {
    s.chars().find(|&c| (c < ' ' && c != '\t' && c != '\n' && c != '\r') || c == '\u{fffe}' || c == '\u{ffff}')
}

pub fn parse(b: &[u8]) -> Result<El, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    if let Some(c) = bad_char(s) {
        return Err(format!("illegal character U+{:04X}", c as u32));
    }
    let mut p = 0usize;
    let mut stack: Vec<El> = vec![];
    let mut root: Option<El> = None;
    let mut ns: Vec<Vec<String>> = vec![vec!["xml".into()]];
    while p < s.len() {
        let r = &s[p..];
        if !r.starts_with('<') {
            let j = r.find('<').unwrap_or(r.len());
            let t = &r[..j];
            if stack.is_empty() {
                if !t.trim().is_empty() {
                    return Err("text outside the root element".into());
                }
            } else {
                if t.contains("]]>") {
                    return Err("']]>' in text".into());
                }
                let t = unescape(t)?;
                stack.last_mut().unwrap().kids.push(Node::T(t));
            }
            p += j;
            continue;
        }
        if r.starts_with("<?") {
            if r.starts_with("<?xml ") && p != 0 {
                return Err("XML declaration not at the start".into());
            }
            p += r.find("?>").ok_or("unterminated processing instruction")? + 2;
            continue;
        }
        if r.starts_with("<!--") {
            p += 4 + r[4..].find("-->").ok_or("unterminated comment")? + 3;
            continue;
        }
        if r.starts_with("<![CDATA[") {
            let j = r.find("]]>").ok_or("unterminated CDATA")?;
            match stack.last_mut() {
                Some(e) => e.kids.push(Node::T(r[9..j].to_string())),
                None => return Err("CDATA outside the root".into()),
            }
            p += j + 3;
            continue;
        }
        if r.starts_with("<!") {
            p += r.find('>').ok_or("unterminated declaration")? + 1;
            continue;
        }
        if r.starts_with("</") {
            let j = r.find('>').ok_or("unterminated end tag")?;
            let n = r[2..j].trim_end();
            let e = stack.pop().ok_or_else(|| format!("unexpected end tag {}", n))?;
            if e.name != n {
                return Err(format!("end tag {} closes {}", n, e.name));
            }
            ns.pop();
            p += j + 1;
            match stack.last_mut() {
                Some(q) => q.kids.push(Node::E(e)),
                None => {
                    if root.is_some() {
                        return Err("two root elements".into());
                    }
                    root = Some(e)
                }
            }
            continue;
        }
        // start tag
        let bytes = r.as_bytes();
        let mut i = 1;
        while i < bytes.len() && !matches!(bytes[i], b' ' | b'\t' | b'\n' | b'\r' | b'>' | b'/') {
            i += 1;
        }
        let name = r[1..i].to_string();
        if !name_ok(&name) {
            return Err(format!("bad element name {:?}", name.chars().take(20).collect::<String>()));
        }
        let mut el = El { name, attrs: vec![], kids: vec![] };
        let selfclose;
        loop {
            let before = i;
            while i < bytes.len() && matches!(bytes[i], b' ' | b'\t' | b'\n' | b'\r') {
                i += 1;
            }
            if i >= bytes.len() {
                return Err("unterminated start tag".into());
            }
            if bytes[i] == b'>' {
                selfclose = false;
                i += 1;
                break;
            }
            if bytes[i] == b'/' {
                if bytes.get(i + 1) != Some(&b'>') {
                    return Err("stray '/'".into());
                }
                selfclose = true;
                i += 2;
                break;
            }
            if before == i {
                return Err(format!("no space between attributes in <{}>", el.name));
            }
            let a0 = i;
            while i < bytes.len() && !matches!(bytes[i], b'=' | b' ' | b'\t' | b'\n' | b'\r' | b'>' | b'<') {
                i += 1;
            }
            let an = r[a0..i].to_string();
            while i < bytes.len() && matches!(bytes[i], b' ' | b'\t' | b'\n' | b'\r') {
                i += 1;
            }
            if i >= bytes.len() || bytes[i] != b'=' || !name_ok(&an) {
                return Err(format!("bad attribute {:?} in <{}>", an.chars().take(20).collect::<String>(), el.name));
            }
            i += 1;
            while i < bytes.len() && matches!(bytes[i], b' ' | b'\t' | b'\n' | b'\r') {
                i += 1;
            }
            let q = *bytes.get(i).ok_or("unterminated attribute")?;
            if q != b'"' && q != b'\'' {
                return Err(format!("unquoted attribute {} in <{}>", an, el.name));
            }
            let v0 = i + 1;
            let vl = r[v0..].find(q as char).ok_or("unterminated attribute value")?;
            let v = &r[v0..v0 + vl];
            if v.contains('<') {
                return Err(format!("'<' in attribute {} of <{}>", an, el.name));
            }
            let v = unescape(v)?;
            if el.attrs.iter().any(|x| x.0 == an) {
                return Err(format!("duplicate attribute {} in <{}>", an, el.name));
            }
            el.attrs.push((an, v));
            i = v0 + vl + 1;
        }
        p += i;
        let mut decl = vec![];
        for (n, _) in &el.attrs {
            if let Some(x) = n.strip_prefix("xmlns:") {
                decl.push(x.to_string());
            }
        }
        ns.push(decl);
        let declared = |pre: &str| pre == "xmlns" || ns.iter().any(|v| v.iter().any(|x| x == pre));
        if let Some((pre, _)) = el.name.split_once(':') {
            if !declared(pre) {
                return Err(format!("undeclared prefix {} on <{}>", pre, el.name));
            }
        }
        for (n, _) in &el.attrs {
            if let Some((pre, _)) = n.split_once(':') {
                if !declared(pre) {
                    return Err(format!("undeclared prefix on attribute {}", n));
                }
            }
        }
        if selfclose {
            ns.pop();
            match stack.last_mut() {
                Some(q) => q.kids.push(Node::E(el)),
                None => {
                    if root.is_some() {
                        return Err("two root elements".into());
                    }
                    root = Some(el)
                }
            }
        } else {
            if stack.is_empty() && root.is_some() {
                return Err("two root elements".into());
            }
            if stack.len() > 2000 {
                return Err("too deep".into());
            }
            stack.push(el);
        }
    }
    if !stack.is_empty() {
        return Err(format!("<{}> is not closed", stack.last().unwrap().name));
    }
    root.ok_or_else(|| "no root element".into())
}
