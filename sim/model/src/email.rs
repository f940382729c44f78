use crate::names::{ascii, local_name, local4, local6, pol, two_labels};
use crate::{Verdict, Why};
use kit::{Tri, oq, q};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

fn atext(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&c)
}
enum Dom {
    Name(String),
    Ip(IpAddr),
}
struct Parsed {
    local: String,
    quoted: bool,
    dom: Dom,
    c: [Option<String>; 4],
}
/// "(...)" at the start of `b` : end index after ')'
fn comment(b: &[u8]) -> Option<usize> {
    if b.first() != Some(&b'(') {
        return None;
    }
    b.iter().position(|c| *c == b')').map(|i| i + 1)
}
fn parse(s: &str, non_ascii: bool) -> Option<Parsed> {
    if s.is_empty() || s.len() > 320 {
        return None;
    }
    let b = s.as_bytes();
    let mut c: [Option<String>; 4] = Default::default();
    // --- local section: at most 64 octets before '@', comments and quotes included
    let mut i = 0;
    if b[0] == b'(' {
        i = comment(b)?;
        c[0] = Some(s[1..i - 1].to_string());
    }
    let local;
    let mut quoted = false;
    if *b.get(i)? == b'"' {
        let start = i + 1;
        let mut j = start;
        let mut esc = false;
        loop {
            let ch = *b.get(j)?;
            if esc {
                let ok = atext(ch) || ch == b'.' || ch == b'\\' || ch == b'"' || ch == b' ' || ch == b'\t' || b"(),:;<>@[]".contains(&ch) || (ch >= 128 && non_ascii);
                if !ok {
                    return None;
                }
                esc = false;
            } else if ch == b'"' {
                break;
            } else if ch == b'\\' {
                esc = true;
            } else if !(atext(ch) || ch == b'.' || ch == b' ' || ch == b'\t' || (ch >= 128 && non_ascii)) {
                return None;
            }
            j += 1;
        }
        if j == start {
            return None;
        }
        local = s[start..j].to_string();
        // quotes stay needed unless the content is a plain dot-atom
        quoted = local.contains(['\\', ' ', '\t']) || local.starts_with('.') || local.ends_with('.') || local.contains("..");
        i = j + 1;
    } else {
        let start = i;
        let mut j = start;
        while let Some(&ch) = b.get(j) {
            if ch == b'@' || ch == b'(' {
                break;
            }
            if !(atext(ch) || ch == b'.' || (ch >= 128 && non_ascii)) {
                return None;
            }
            j += 1;
        }
        local = s[start..j].to_string();
        if local.is_empty() || local.starts_with('.') || local.ends_with('.') || local.contains("..") {
            return None;
        }
        i = j;
    }
    if *b.get(i)? == b'(' {
        let e = comment(&b[i..])?;
        c[1] = Some(s[i + 1..i + e - 1].to_string());
        i += e;
    }
    if *b.get(i)? != b'@' || i > 64 {
        return None;
    }
    // --- domain section: at most 255 octets, as given and as it would be written canonically
    let d = &s[i + 1..];
    let b = d.as_bytes();
    if d.is_empty() || d.len() > 255 {
        return None;
    }
    let mut i = 0;
    if b[0] == b'(' {
        i = comment(b)?;
        c[2] = Some(d[1..i - 1].to_string());
    }
    let mut canon = d.len() as isize;
    let dom;
    match *b.get(i)? {
        b'(' => return None,
        b'[' => {
            let close = d[i..].find(']')? + i;
            let inner = &d[i + 1..close];
            dom = Dom::Ip(match inner.strip_prefix("IPv6:") {
                Some(t) => {
                    let a: Ipv6Addr = t.parse().ok()?;
                    canon += a.to_string().len() as isize - t.len() as isize;
                    IpAddr::V6(a)
                }
                None => IpAddr::V4(inner.parse::<Ipv4Addr>().ok()?),
            });
            i = close + 1;
        }
        _ => {
            let end = d[i..].find('(').map_or(d.len(), |e| e + i);
            let name = &d[i..end];
            let a = ascii(name).filter(|a| !a.ends_with('.'))?;
            canon += a.len() as isize - name.len() as isize;
            dom = Dom::Name(a);
            i = end;
        }
    }
    if canon > 255 {
        return None;
    }
    if i < d.len() {
        if comment(&b[i..])? + i != d.len() {
            return None;
        }
        c[3] = Some(d[i + 1..d.len() - 1].to_string());
    }
    Some(Parsed { local, quoted, dom, c })
}
pub fn email(comment: bool, ip: Tri, local: Tri, labels: Tri, non_ascii: bool, s: &str) -> Verdict {
    let Some(p) = parse(s, non_ascii) else {
        // which rules the payload breaks beyond its form is not settled
        let mut w = Why::default();
        w.if_(true, "Invalid");
        w.if_(!comment && s.contains('('), "CommentDisallow");
        w.if_(ip == Tri::D && s.contains('['), "IPDisallow");
        w.if_(ip == Tri::M && s.contains('@'), "IPMust");
        w.if_(labels == Tri::M, "AtLeastTwoLabelsMust");
        w.if_(labels == Tri::D && s.contains(['.', '[', '。', '．', '｡']), "AtLeastTwoLabelsDisallow");
        w.if_(local == Tri::M, "LocalMust");
        w.if_(local == Tri::D, "LocalDisallow");
        return Verdict::Bad(w.0);
    };
    let mut w = Why::default();
    w.if_(!comment && p.c.iter().any(|c| c.is_some()), "CommentDisallow");
    let is_ip = matches!(p.dom, Dom::Ip(_));
    pol(&mut w, ip, is_ip, "IPMust", "IPDisallow");
    let is_local = match &p.dom {
        Dom::Name(a) => local_name(a),
        Dom::Ip(IpAddr::V4(a)) => local4(*a),
        Dom::Ip(IpAddr::V6(a)) => local6(*a),
    };
    match &p.dom {
        Dom::Name(a) if !is_local => pol(&mut w, labels, two_labels(a), "AtLeastTwoLabelsMust", "AtLeastTwoLabelsDisallow"),
        Dom::Ip(_) => w.if_(labels == Tri::D, "AtLeastTwoLabelsDisallow"),
        _ => (),
    }
    pol(&mut w, local, is_local, "LocalMust", "LocalDisallow");
    w.verdict(|| {
        let d = match &p.dom {
            Dom::Name(a) => format!("domain:{a:?}"),
            Dom::Ip(a) => format!("ip:{a}"),
        };
        let mut v = kit::view! {"local": q(&p.local), "quoted": p.quoted.to_string(), "domain": d};
        if comment {
            for (k, c) in ["c_before_local", "c_after_local", "c_before_domain", "c_after_domain"].into_iter().zip(&p.c) {
                v.0.push((k, oq(c.as_deref())));
            }
        }
        if local == Tri::A && labels != Tri::A {
            v.0.push(("is_local", is_local.to_string()));
        }
        v
    })
}
