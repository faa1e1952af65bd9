//! An independent reader of HTTP/1.1 byte streams, used only by the oracles and the raw peers.
#[derive(Clone, Debug)]
pub struct Msg {
    pub start: usize,
    pub head_end: usize,
    pub end: usize,
    /// all of `start..end` is present
    pub complete: bool,
    pub line: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub declared: Option<u64>,
}
impl Msg {
    pub fn header(&self, name: &str) -> Option<&[u8]> {
        self.headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name))
            .map(|h| &h.1[..])
    }
    pub fn status(&self) -> Option<u16> {
        let mut it = self.line.split(' ');
        let v = it.next()?;
        if !v.starts_with("HTTP/1.") {
            return None;
        }
        let s = it.next()?;
        if s.len() != 3 {
            return None;
        }
        s.parse().ok()
    }
    /// A response that says that its connection ends with it.
    pub fn closes(&self, head: bool) -> bool {
        let mut keep = !self.line.starts_with("HTTP/1.0");
        for h in self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("connection")) {
            for o in String::from_utf8_lossy(&h.1).split(',') {
                match o.trim().to_ascii_lowercase().as_str() {
                    "close" => return true,
                    "keep-alive" => keep = true,
                    _ => {}
                }
            }
        }
        !keep || !(head || self.header("content-length").is_some() || self.header("transfer-encoding").is_some())
    }
    pub fn method(&self) -> &str {
        self.line.split(' ').next().unwrap_or("")
    }
    pub fn raw<'a>(&self, b: &'a [u8]) -> &'a [u8] {
        &b[self.start..self.end.min(b.len())]
    }
}

fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (from..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == n)
}
pub fn contains(h: &[u8], n: &[u8]) -> bool {
    find(h, n, 0).is_some()
}

/// One message starting at `pos`; Ok(None) if the head is incomplete.
pub fn parse_one(b: &[u8], pos: usize, no_body: bool) -> Result<Option<Msg>, String> {
    let he = match find(b, b"\r\n\r\n", pos) {
        Some(i) => i,
        None => return Ok(None),
    };
    let head = &b[pos..he];
    let mut lines: Vec<&[u8]> = vec![];
    let mut s = 0;
    while let Some(i) = find(head, b"\r\n", s) {
        lines.push(&head[s..i]);
        s = i + 2;
    }
    lines.push(&head[s..]);
    let line = String::from_utf8_lossy(lines[0]).into_owned();
    let mut headers = vec![];
    for l in &lines[1..] {
        let c = match l.iter().position(|&c| c == b':') {
            Some(c) => c,
            None => return Err(format!("header line without colon: {:?}", String::from_utf8_lossy(l))),
        };
        let name = &l[..c];
        if name.is_empty()
            || !name
                .iter()
                .all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c))
        {
            return Err(format!("bad header name: {:?}", String::from_utf8_lossy(name)));
        }
        let mut v = &l[c + 1..];
        while let Some((f, r)) = v.split_first() {
            if *f == b' ' || *f == b'\t' {
                v = r
            } else {
                break;
            }
        }
        while let Some((f, r)) = v.split_last() {
            if *f == b' ' || *f == b'\t' {
                v = r
            } else {
                break;
            }
        }
        if v.iter().any(|&c| (c < 0x20 && c != b'\t') || c == 0x7f) {
            return Err(format!("control character in header {:?}", String::from_utf8_lossy(name)));
        }
        headers.push((String::from_utf8_lossy(name).into_owned(), v.to_vec()));
    }
    let head_end = he + 4;
    let mut declared = None;
    for h in &headers {
        if h.0.eq_ignore_ascii_case("content-length") {
            let n: u64 = std::str::from_utf8(&h.1)
                .ok()
                .filter(|s| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()))
                .and_then(|s| s.parse().ok())
                .ok_or_else(|| "bad content-length".to_string())?;
            if declared.map_or(false, |d| d != n) {
                return Err("conflicting content-length".into());
            }
            declared = Some(n);
        }
    }
    let te: Vec<&[u8]> = headers.iter().filter(|h| h.0.eq_ignore_ascii_case("transfer-encoding")).map(|h| &h.1[..]).collect();
    if !te.is_empty() && !no_body {
        if te.len() > 1 || !te[0].eq_ignore_ascii_case(b"chunked") || declared.is_some() {
            return Err("transfer-encoding that is not just chunked".into());
        }
        let (body, end) = chunks(b, head_end)?;
        return Ok(Some(Msg {
            start: pos,
            head_end,
            end: end.unwrap_or(b.len() + 1),
            complete: end.is_some(),
            line,
            headers,
            body,
            declared,
        }));
    }
    let blen = if no_body { 0 } else { declared.unwrap_or(0) } as usize;
    let end = head_end.saturating_add(blen);
    Ok(Some(Msg {
        start: pos,
        head_end,
        end,
        complete: end <= b.len(),
        line,
        headers,
        body: b[head_end..end.min(b.len())].to_vec(),
        declared,
    }))
}

/// A chunked body: what is there of it, and its end if that is there too.
fn chunks(b: &[u8], from: usize) -> Result<(Vec<u8>, Option<usize>), String> {
    let mut body = vec![];
    let mut at = from;
    loop {
        let e = match find(b, b"\r\n", at) {
            Some(e) => e,
            None => return Ok((body, None)),
        };
        let line = &b[at..e];
        let size = line.split(|&c| c == b';').next().unwrap();
        let size = std::str::from_utf8(size)
            .ok()
            .map(|s| s.trim_end())
            .filter(|s| !s.is_empty() && s.bytes().all(|c| c.is_ascii_hexdigit()))
            .and_then(|s| u64::from_str_radix(s, 16).ok())
            .ok_or_else(|| "bad chunk size".to_string())?;
        at = e + 2;
        if size == 0 {
            break;
        }
        let end = at.saturating_add(size as usize);
        body.extend_from_slice(&b[at..end.min(b.len())]);
        if end.saturating_add(2) > b.len() {
            return Ok((body, None));
        }
        if &b[end..end + 2] != b"\r\n" {
            return Err("chunk without an end".into());
        }
        at = end + 2;
    }
    // trailer
    loop {
        match find(b, b"\r\n", at) {
            None => return Ok((body, None)),
            Some(e) if e == at => return Ok((body, Some(e + 2))),
            Some(e) => at = e + 2,
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Parsed {
    pub msgs: Vec<Msg>,
    /// bytes after the last message whose head is complete
    pub rest: usize,
    pub error: Option<String>,
}

/// All requests in a client byte stream.
pub fn requests(b: &[u8]) -> Parsed {
    let mut p = Parsed::default();
    let mut pos = 0;
    loop {
        if pos >= b.len() {
            return p;
        }
        match parse_one(b, pos, false) {
            Err(e) => {
                p.error = Some(e);
                p.rest = b.len() - pos;
                return p;
            }
            Ok(None) => {
                p.rest = b.len() - pos;
                return p;
            }
            Ok(Some(m)) => {
                let c = m.complete;
                pos = m.end;
                p.msgs.push(m);
                if !c {
                    return p;
                }
            }
        }
    }
}
/// All responses in a server byte stream, given the methods of the requests in order.
pub fn responses(b: &[u8], methods: &[String]) -> Parsed {
    let mut p = Parsed::default();
    let mut pos = 0;
    loop {
        if pos >= b.len() {
            return p;
        }
        let head = methods.get(p.msgs.len()).map_or(false, |m| m == "HEAD");
        match parse_one(b, pos, head) {
            Err(e) => {
                p.error = Some(e);
                p.rest = b.len() - pos;
                return p;
            }
            Ok(None) => {
                p.rest = b.len() - pos;
                return p;
            }
            Ok(Some(m)) => {
                let c = m.complete;
                pos = m.end;
                if m.status().is_none() {
                    p.error = Some(format!("bad status line {:?}", m.line));
                }
                p.msgs.push(m);
                if !c || p.error.is_some() {
                    return p;
                }
            }
        }
    }
}

/// The call token: unique text carried by every request.
pub fn token(id: u64) -> String {
    format!("qz{:06}zq", id)
}
pub fn find_token(b: &[u8]) -> Option<u64> {
    let mut i = 0;
    while i + 10 <= b.len() {
        if &b[i..i + 2] == b"qz" && &b[i + 8..i + 10] == b"zq" && b[i + 2..i + 8].iter().all(|c| c.is_ascii_digit()) {
            return std::str::from_utf8(&b[i + 2..i + 8]).unwrap().parse().ok();
        }
        i += 1;
    }
    None
}
