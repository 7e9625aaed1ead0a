//! PNG (W3C PNG 3rd edition), plus the "Raw profile type exif" convention and EXIF properties inside XMP
use serde::{Deserialize, Serialize};
use crate::img::{b4, be32, Blob, Carrier, GenOpt, Parsed, extra, size};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Chunk {
    Raw { ty: String, data: Blob },
    /// form: 0 zTXt, 1 tEXt, 2 iTXt, 3 compressed iTXt; hdr: with "Exif\0\0"
    Prof { form: u8, hdr: bool, t: Blob, extra: u8 },
    /// text: 0 iTXt, 1 tEXt, 2 zTXt
    Xmp { xml: String, comp: bool, lang: String, tkw: String, #[serde(default)] text: u8 },
    /// a text chunk, forms as for profiles
    Text { form: u8, kw: String, text: Blob },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec { pub chunks: Vec<Chunk>, pub tail: Blob }

pub const SIG: &[u8] = &[0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a];
const PROF: &[u8] = b"Raw profile type exif";
const XMPKW: &[u8] = b"XML:com.adobe.xmp";

pub fn crc(d: &[u8]) -> u32 {
    let mut c = 0xffffffffu32;
    for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 }; } }
    !c
}
pub fn zip(d: &[u8]) -> Vec<u8> { miniz_oxide::deflate::compress_to_vec_zlib(d, 6) }
fn unzip(d: &[u8]) -> Option<Vec<u8>> { miniz_oxide::inflate::decompress_to_vec_zlib(d).ok() }

fn profile(t: &[u8]) -> Vec<u8> {
    let mut s = format!("\nexif\n{:>8}\n", t.len()).into_bytes();
    for (i, b) in t.iter().enumerate() { s.extend(format!("{b:02x}").bytes()); if i % 36 == 35 { s.push(b'\n'); } }
    if t.len() % 36 != 0 { s.push(b'\n'); }
    s
}
pub fn unprofile(s: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut l = s.splitn(4, |b| *b == b'\n');
    if !l.next()?.is_empty() { return None; }
    if l.next()? != b"exif" { return None; }
    let n: usize = std::str::from_utf8(l.next()?).ok()?.trim().parse().ok()?;
    let hex: Vec<u8> = l.next()?.iter().cloned().filter(|b| *b != b'\n').collect();
    if hex.len() % 2 == 1 { return None; }
    let mut o = vec![];
    for c in hex.chunks(2) { o.push(u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()?); }
    Some((o, n))
}
fn itxt(kw: &[u8], comp: bool, lang: &str, tkw: &str, text: &[u8]) -> Vec<u8> {
    let mut d = kw.to_vec(); d.push(0); d.push(comp as u8); d.push(0); d.extend(lang.bytes()); d.push(0); d.extend(tkw.bytes()); d.push(0);
    if comp { d.extend(zip(text)) } else { d.extend(text) }
    d
}

impl Spec {
    pub fn build(&self) -> Vec<u8> {
        let mut o = SIG.to_vec();
        for c in &self.chunks {
            let (ty, d) = match c {
                Chunk::Raw { ty, data } => (b4(ty), data.bytes()),
                Chunk::Prof { form, hdr, t, extra } => {
                    let mut x = if *hdr { b"Exif\0\0".to_vec() } else { vec![] };
                    x.extend(t.bytes()); x.extend(vec![0; *extra as usize]);
                    let text = profile(&x);
                    match form {
                        0 => { let mut d = PROF.to_vec(); d.extend([0, 0]); d.extend(zip(&text)); (*b"zTXt", d) }
                        1 => { let mut d = PROF.to_vec(); d.push(0); d.extend(&text); (*b"tEXt", d) }
                        f => { let (lang, tkw) = [("", ""), ("en", ""), ("", "Schlüssel"), ("en-GB", "題")][text.len() % 4]; (*b"iTXt", itxt(PROF, *f == 3, lang, tkw, &text)) }
                    }
                }
                Chunk::Xmp { xml, text: 1, .. } => { let mut d = XMPKW.to_vec(); d.push(0); d.extend(xml.bytes()); (*b"tEXt", d) }
                Chunk::Xmp { xml, text: 2, .. } => { let mut d = XMPKW.to_vec(); d.extend([0, 0]); d.extend(zip(xml.as_bytes())); (*b"zTXt", d) }
                Chunk::Xmp { xml, comp, lang, tkw, .. } => (*b"iTXt", itxt(XMPKW, *comp, lang, tkw, xml.as_bytes())),
                Chunk::Text { form, kw, text } => {
                    let (mut d, t) = (kw.as_bytes().to_vec(), text.bytes());
                    match form { 0 => { d.extend([0, 0]); d.extend(zip(&t)); (*b"zTXt", d) } 1 => { d.push(0); d.extend(&t); (*b"tEXt", d) } f => (*b"iTXt", itxt(kw.as_bytes(), *f == 3, "", "", &t)) }
                }
            };
            o.extend((d.len() as u32).to_be_bytes());
            let s = o.len();
            o.extend(ty); o.extend(d);
            let c = crc(&o[s..]); o.extend(c.to_be_bytes());
        }
        o.extend(self.tail.bytes());
        o
    }
}

/// (keyword, text, header bytes that have to stay)
fn text_chunk(ty: &[u8], d: &[u8]) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let z = d.iter().position(|b| *b == 0)?;
    let (kw, rest) = (d[..z].to_vec(), &d[z + 1..]);
    match ty {
        b"tEXt" => Some((kw, rest.to_vec(), vec![])),
        b"zTXt" => { if *rest.first()? != 0 { return None; } Some((kw, unzip(&rest[1..])?, vec![])) }
        _ => {
            let (flag, method) = (*rest.first()?, *rest.get(1)?);
            let l = rest[2..].iter().position(|b| *b == 0)? + 2;
            let t = rest[l + 1..].iter().position(|b| *b == 0)? + l + 1;
            let body = &rest[t + 1..];
            if flag == 1 && method != 0 { return None; }
            Some((kw, if flag == 1 { unzip(body)? } else { body.to_vec() }, rest[..t + 1].to_vec()))
        }
    }
}

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    if !d.starts_with(SIG) { return Err("no signature".into()); }
    let mut i = 8;
    let (mut n, mut idat_done, mut idat, mut exifs) = (0, false, false, 0);
    loop {
        let l = be32(d, i).ok_or("ends before IEND")? as usize;
        if l > 0x7fffffff { return Err("chunk length over limit".into()); }
        let ty = d.get(i + 4..i + 8).ok_or("truncated chunk")?.to_vec();
        let c = d.get(i + 8..i + 8 + l).ok_or(format!("chunk {} at {i} with length {l} beyond end", String::from_utf8_lossy(&ty)))?;
        let sum = be32(d, i + 8 + l).ok_or("truncated chunk")?;
        if crc(&d[i + 4..i + 8 + l]) != sum { p.issue(format!("wrong checksum of chunk {}", String::from_utf8_lossy(&ty))); }
        if !ty.iter().all(|b| b.is_ascii_alphabetic()) { p.issue("chunk name not alphabetic"); }
        let name = String::from_utf8_lossy(&ty).to_string();
        if (n == 0) != (name == "IHDR") { p.issue("IHDR is not the first chunk"); }
        if name == "IHDR" && l != 13 { p.issue("IHDR length"); }
        if name == "IDAT" { if idat_done { p.issue("IDAT chunks not consecutive"); } idat = true; } else if idat { idat_done = true; }
        if name == "PLTE" && idat { p.issue("PLTE after IDAT"); }
        if matches!(name.as_str(), "cHRM" | "gAMA" | "iCCP" | "sBIT" | "sRGB" | "pHYs" | "bKGD" | "tRNS" | "acTL") && idat { p.issue(format!("{name} after IDAT")); }
        i += 12 + l;
        n += 1;
        let text = if matches!(name.as_str(), "tEXt" | "zTXt" | "iTXt") { text_chunk(&ty, c) } else { None };
        if name == "eXIf" {
            exifs += 1;
            if exifs == 2 { p.issue("several eXIf chunks"); }
            p.exif.push(Carrier { kind: "eXIf".into(), tiff: c.to_vec() });
        } else if let Some((_, t, _)) = text.as_ref().filter(|t| t.0 == PROF) {
            match unprofile(t) {
                Some((x, n)) => {
                    if n != x.len() { p.issue(format!("profile announces {n} bytes but has {}", x.len())); }
                    let x = if x.starts_with(b"Exif\0\0") { x[6..].to_vec() } else { x };
                    p.exif.push(Carrier { kind: format!("profile in {name}"), tiff: x });
                }
                None => { p.issue("malformed EXIF profile"); p.exif.push(Carrier { kind: format!("malformed profile in {name}"), tiff: vec![] }); }
            }
        } else if let Some((_, t, head)) = text.as_ref().filter(|t| t.0 == XMPKW) {
            let (tok, had) = xmp_tokens(t);
            if had { p.exif.push(Carrier { kind: "xmp".into(), tiff: vec![] }); }
            p.part(format!("{name} xmp header"), head);
            p.part(format!("{name} xmp"), tok.join("\u{1}").as_bytes());
        } else if name == "iTXt" && text.is_none() { p.issue("malformed iTXt"); p.part("iTXt", c); }
        else if name == "zTXt" && text.is_none() { p.issue("malformed zTXt"); p.part("zTXt", c); }
        else { p.part(name.clone(), c); }
        if name == "IEND" { if l != 0 { p.issue("IEND not empty"); } if i < d.len() { p.part("trailing", &d[i..]); } break; }
    }
    Ok(p)
}

/// The XMP packet as tokens without insignificant white space and without EXIF properties; and whether there were any.
pub fn xmp_tokens(x: &[u8]) -> (Vec<String>, bool) {
    let s = String::from_utf8_lossy(x).to_string();
    let b: Vec<char> = s.chars().collect();
    let (mut out, mut had, mut i, mut skip) = (vec![], false, 0usize, 0usize);
    let find = |from: usize, pat: &str| -> Option<usize> { let p: Vec<char> = pat.chars().collect(); (from..b.len().saturating_sub(p.len() - 1)).find(|k| b[*k..*k + p.len()] == p[..]) };
    let emit = |out: &mut Vec<String>, skip: usize, t: String| if skip == 0 { out.push(t) };
    while i < b.len() {
        if b[i] != '<' {
            let e = find(i, "<").unwrap_or(b.len());
            let t: String = b[i..e].iter().collect();
            if !t.trim().is_empty() { emit(&mut out, skip, t); }
            i = e; continue;
        }
        let rest: String = b[i..(i + 9).min(b.len())].iter().collect();
        for (open, close) in [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>"), ("<!", ">")] {
            if rest.starts_with(open) {
                let e = find(i + open.chars().count(), close).map(|e| e + close.chars().count()).unwrap_or(b.len());
                emit(&mut out, skip, b[i..e].iter().collect());
                i = e; break;
            }
        }
        if i >= b.len() || rest.starts_with("<!") || rest.starts_with("<?") { continue; }
        // an element tag
        let (mut e, mut q) = (i + 1, None);
        while e < b.len() { match (q, b[e]) { (None, '>') => break, (None, c @ ('"' | '\'')) => q = Some(c), (Some(c), d) if c == d => q = None, _ => {} } e += 1; }
        if e >= b.len() { emit(&mut out, skip, b[i..].iter().collect()); break; }
        let inner: Vec<char> = b[i + 1..e].to_vec();
        i = e + 1;
        if inner.first() == Some(&'/') {
            let n: String = inner[1..].iter().collect::<String>().trim().to_string();
            if skip > 0 { skip -= 1; } else { out.push(format!("</{n}>")); }
            continue;
        }
        let empty = inner.last() == Some(&'/');
        let body: Vec<char> = if empty { inner[..inner.len() - 1].to_vec() } else { inner };
        let mut k = 0;
        while k < body.len() && !body[k].is_whitespace() { k += 1; }
        let name: String = body[..k].iter().collect();
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            while k < body.len() && body[k].is_whitespace() { k += 1; }
            if k >= body.len() { break; }
            let a = k; while k < body.len() && body[k] != '=' { k += 1; }
            let an: String = body[a..k].iter().collect::<String>().trim().to_string();
            k += 1; while k < body.len() && body[k].is_whitespace() { k += 1; }
            let Some(q) = body.get(k).copied().filter(|c| *c == '"' || *c == '\'') else { attrs.push((an, "?".into())); break; };
            k += 1; let v = k; while k < body.len() && body[k] != q { k += 1; }
            let val: String = body[v..k.min(body.len())].iter().collect();
            k += 1;
            attrs.push((an, val.replace("&quot;", "\"").replace("&apos;", "'")));
        }
        if name.starts_with("exif:") { if skip == 0 { had = true; } if !empty { skip += 1; } continue; }
        if skip > 0 { if !empty { skip += 1; } continue; }
        let n0 = attrs.len();
        attrs.retain(|a| !a.0.starts_with("exif:"));
        if attrs.len() != n0 { had = true; }
        out.push(format!("<{name} {attrs:?}{}>", if empty { "/" } else { "" }));
    }
    (out, had)
}

pub fn gen_xmp(r: &mut Rng, exif: bool) -> String {
    let mut s = String::from("<?xpacket begin=\"\u{feff}\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n<x:xmpmeta xmlns:x=\"adobe:ns:meta/\" x:xmptk=\"XMP Core 6.0.0\">\n <rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"\"\n    xmlns:exif=\"http://ns.adobe.com/exif/1.0/\" xmlns:dc='http://purl.org/dc/elements/1.1/' xmlns:tiff=\"http://ns.adobe.com/tiff/1.0/\"");
    if exif && r.chance(1, 2) { s += "\n    exif:ColorSpace=\"1\" exif:PixelXDimension='100'"; }
    match r.below(4) { 0 => s += " tiff:Make='a \"quoted\" name'", 1 => s += " tiff:Make=\"it's &lt;here&gt; &amp; there\"", 2 => s += " tiff:Model=\"exif:not\"", _ => {} }
    s += ">\n";
    for _ in 0..1 + r.below(6) {
        match r.below(if exif { 13 } else { 6 }) {
            0 => s += "   <dc:title><rdf:Alt><rdf:li xml:lang=\"x-default\">A  title &amp; more</rdf:li></rdf:Alt></dc:title>\n",
            1 => s += "   <tiff:Orientation>1</tiff:Orientation>\n",
            2 => s += "   <!-- a comment with <exif:Fake> inside -->\n",
            3 => s += "   <dc:description><![CDATA[raw <b>exif:</b> data]]></dc:description>\n",
            4 => s += "   <dc:format/>\n",
            5 => s += "   <dc:subject><rdf:Bag><rdf:li>exif:one</rdf:li>\n<rdf:li> two </rdf:li></rdf:Bag></dc:subject>",
            6 => s += "   <exif:UserComment>Hello</exif:UserComment>\n",
            7 => s += "   <exif:ISOSpeedRatings><rdf:Seq><rdf:li>100</rdf:li><rdf:li>200</rdf:li></rdf:Seq></exif:ISOSpeedRatings>\n",
            8 => s += "   <exif:Flash rdf:parseType=\"Resource\"><exif:Fired>True</exif:Fired><exif:Mode>2</exif:Mode></exif:Flash>\n",
            12 => s += "   <exifer:Note xmlns:exifer=\"http://example.com/exifer/\" exifer:x=\"1\">kept</exifer:Note>\n",
            9 => s += "   <exif:GPSVersionID/>\n",
            10 => s += "   <exif:MakerNote><!-- c --><![CDATA[x]]></exif:MakerNote>",
            _ => s += "   <exif:CFAPattern exif:x=\"1\"><exif:Values><rdf:Seq><rdf:li/></rdf:Seq></exif:Values></exif:CFAPattern>\n",
        }
    }
    s += "  </rdf:Description>\n </rdf:RDF>\n</x:xmpmeta>\n";
    // the white space that leaves room for changes in place
    if r.chance(1, 5) { for _ in 0..*r.pick(&[1usize, 3, 20, 20, 41, 660]) { s += &" ".repeat(99); s += "\n"; } }
    s += "<?xpacket end=\"w\"?>";
    s
}

pub fn gen(r: &mut Rng, o: &GenOpt) -> Spec {
    let raw = |ty: &str, data: Blob| Chunk::Raw { ty: ty.into(), data };
    let mut v = vec![raw("IHDR", Blob::h(&[0, 0, 0, 16, 0, 0, 0, 16, 8, 2, 0, 0, 0]))];
    let mut pre = vec![]; // between IHDR and IDAT
    for _ in 0..r.below(5) {
        let n = extra(r, o.big, 40); let f = Blob::fill(r, n);
        pre.push(match r.below(10) { 0 => raw("gAMA", Blob::h(&[0, 0, 0xb1, 0x8f])), 1 => raw("pHYs", Blob::h(&[0, 0, 11, 19, 0, 0, 11, 19, 1])), 2 => raw("iCCP", Blob::C(vec![Blob::h(b"icc\0\0"), f])),
            3 => raw("tEXt", Blob::h(b"Title\0Hello")), 4 => raw("sPLT", f), 5 => raw("acTL", Blob::h(&[0, 0, 0, 1, 0, 0, 0, 0])), 6 => raw("prVt", f), 7 => raw("vpAg", Blob::h(&[0; 9])),
            8 => raw("tEXt", Blob::h(*r.pick(&[&b"Raw profile type iptc\0\niptc\n       2\n4142\n"[..], b"Raw profile type xmp\0x", b"Raw profile type exifx\0y", b"Comment\0Raw profile type exif"]))),
            _ => raw("tIME", Blob::h(&[7, 230, 1, 1, 1, 1, 1])) });
    }
    // at most one of each of the single ones
    let mut seen: Vec<String> = vec![];
    pre.retain(|c| if let Chunk::Raw { ty, .. } = c { if ["gAMA", "pHYs", "iCCP", "acTL", "tIME", "vpAg"].contains(&ty.as_str()) { if seen.contains(ty) { return false; } seen.push(ty.clone()); } true } else { true });
    let mut post = vec![];
    for _ in 0..r.below(4) {
        let n = extra(r, o.big, 60); let f = Blob::fill(r, n);
        post.push(match r.below(6) { 0 => raw("tEXt", Blob::h(b"Comment\0bye")), 1 => raw("iTXt", Blob::h(b"Author\0\0\0en\0Autor\0me")), 2 => raw("prVt", f),
            3 => { let mut d = b"Description\0\0".to_vec(); d.extend(zip(b"some longer text, some longer text")); raw("zTXt", Blob::H(d)) } 4 => raw("eXIg", f), _ => raw("fdAT", f) });
    }
    if r.chance(1, 3) { let exif = r.chance(1, 2) && o.exif.is_some(); let c = Chunk::Xmp { xml: gen_xmp(r, exif), comp: r.chance(1, 2), lang: (*r.pick(&["", "", "", "en", "de-AT", "x-Default"])).into(), tkw: (*r.pick(&["", "", "", "Titel", "Überschrift 題", "Überschrift"])).into(), text: *r.pick(&[0, 0, 0, 0, 1, 2]) };
        if r.chance(1, 2) { pre.push(c) } else { post.push(c) } }
    let mut exifs = 0;
    for t in o.exif.iter().chain(o.extra.iter()) {
        let c = if r.chance(2, 5) && exifs == 0 { exifs += 1; raw("eXIf", t.clone()) } else { Chunk::Prof { form: *r.pick(&[0, 0, 0, 1, 2, 3]), hdr: r.chance(3, 4), t: t.clone(), extra: *r.pick(&[0, 0, 1]) } };
        let l = if r.chance(2, 3) { &mut pre } else { &mut post };
        let i = if r.chance(1, 3) { 0 } else { r.idx(l.len() + 1) };
        l.insert(i, c);
    }
    v.extend(pre);
    for _ in 0..1 + r.below(3) { let n = size(r, o.big); v.push(raw("IDAT", Blob::fill(r, n))); }
    v.extend(post);
    v.push(raw("IEND", Blob::empty()));
    let tail = match r.below(6) { 0 => { let n = 1 + r.below(30); Blob::fill(r, n) } 1 => Blob::h(b"\0\0\0\x02eXIfMM\0\0\0\0"), _ => Blob::empty() };
    Spec { chunks: v, tail }
}

/// Turns a profile into a text chunk that says something else
pub fn mangle_profile(r: &mut Rng, s: &mut Spec) {
    for c in s.chunks.iter_mut() {
        if let Chunk::Prof { form, hdr, t, .. } = c {
            let mut x = if *hdr { b"Exif\0\0".to_vec() } else { vec![] };
            x.extend(t.bytes());
            let mut d = profile(&x);
            let head = d.len().min(16);
            for _ in 0..1 + r.below(2) { if d.is_empty() { break; } let k = if r.chance(2, 3) { r.idx(head.min(d.len())) } else { r.idx(d.len()) }; match r.below(5) { 0 => { d.remove(k); } 1 => d[k] = *r.pick(&[b'g', b'9', b' ', b'\n', 0, 0xff, b'-', b'+']), 2 => d.insert(k, *r.pick(b"01f\n \0")), 3 => d.truncate(k), _ => d[k] = d[k].wrapping_add(1) } }
            *c = Chunk::Text { form: *form, kw: "Raw profile type exif".into(), text: Blob::H(d) };
            return;
        }
        if let Chunk::Xmp { xml, .. } = c { if r.chance(1, 3) {
            let mut k = r.idx(xml.len());
            while !xml.is_char_boundary(k) { k -= 1; }
            match r.below(4) { 0 => xml.truncate(k), 1 => xml.insert_str(k, *r.pick(&["<exif:a>", "</exif:a>", "<", "&", "exif:b=\"", "<![CDATA[", "<!--", "<exif:c/>"])), _ => { xml.remove(k); } }
        } }
    }
}
