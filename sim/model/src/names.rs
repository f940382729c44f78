use crate::{Verdict, Why};
use kit::{Case, Sep, Tri, View, op, q};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

#[allow(deprecated)]
pub fn ascii(name: &str) -> Option<String> {
    validators::idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true).to_ascii(name).ok()
}
pub fn local4(a: Ipv4Addr) -> bool {
    let o = a.octets();
    o[0] == 10
        || (o[0] == 172 && (16..32).contains(&o[1]))
        || (o[0] == 192 && o[1] == 168)
        || o[0] == 127
        || (o[0] == 169 && o[1] == 254)
        || o == [255, 255, 255, 255]
        || (o[0] == 192 && o[1] == 0 && o[2] == 2)
        || (o[0] == 198 && o[1] == 51 && o[2] == 100)
        || (o[0] == 203 && o[1] == 0 && o[2] == 113)
        || o == [0, 0, 0, 0]
}
pub fn local6(a: Ipv6Addr) -> bool {
    let n = u128::from(a);
    let top = |bits: u32| n >> (128 - bits);
    if top(8) == 0xff {
        return top(16) & 0xf != 0xe;
    }
    if n <= 1 || top(10) == 0xfe80 >> 6 || top(10) == 0xfec0 >> 6 || top(7) == 0xfc00 >> 9 || top(32) == 0x2001_0db8 {
        return true;
    }
    // IPv4-compatible (::a.b.c.d) and IPv4-mapped (::ffff:a.b.c.d)
    let hi = n >> 32;
    (hi == 0 || hi == 0xffff) && local4(Ipv4Addr::from(n as u32))
}
pub fn local_name(ascii: &str) -> bool {
    let s = ascii.strip_suffix('.').unwrap_or(ascii);
    s.eq_ignore_ascii_case("localhost")
}
pub fn two_labels(ascii: &str) -> bool {
    ascii.strip_suffix('.').unwrap_or(ascii).contains('.')
}
fn port(s: &str) -> Option<u16> {
    s.parse().ok()
}
pub fn pol(w: &mut Why, p: Tri, is: bool, must: &'static str, dis: &'static str) {
    w.if_(p == Tri::M && !is, must);
    w.if_(p == Tri::D && is, dis);
}
fn push_port(v: &mut View, p: Tri, port: Option<u16>) {
    match p {
        Tri::A => v.0.push(("port", op(port))),
        Tri::M => v.0.push(("port", port.map(|p| p.to_string()).unwrap_or_default())),
        Tri::D => (),
    }
}

/// the public functions
pub fn fun(f: kit::Fun, s: &str) -> Verdict {
    use kit::Fun;
    let is = |b: bool| Verdict::Ok(kit::view! {"is": b.to_string()});
    let of = |a: Option<IpAddr>, dot: bool| match a {
        Some(a) if dot => Verdict::Ok(kit::view! {"ip": a.to_string()}),
        Some(a) => {
            let l = match a {
                IpAddr::V4(a) => local4(a),
                IpAddr::V6(a) => local6(a),
            };
            Verdict::Ok(kit::view! {"is": l.to_string(), "host": format!("ip:{a}")})
        }
        None => Verdict::Bad(vec!["Address"]),
    };
    match f {
        Fun::LocalDomain => is(local_name(s)),
        Fun::TwoLabels => is(two_labels(s)),
        Fun::Ipv4Dot => of(s.strip_suffix('.').unwrap_or(s).parse::<Ipv4Addr>().ok().map(IpAddr::V4), true),
        Fun::Local4 => of(s.parse::<Ipv4Addr>().ok().map(IpAddr::V4), false),
        Fun::Local6 => of(s.parse::<Ipv6Addr>().ok().map(IpAddr::V6), false),
        Fun::LocalIp => of(s.parse().ok(), false),
    }
}
pub fn domain(ipv4: Tri, local: Tri, port_: Tri, labels: Tri, s: &str) -> Verdict {
    let (name, ptext) = match s.rfind(':') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let mut w = Why::default();
    pol(&mut w, port_, ptext.is_some(), "PortMust", "PortDisallow");
    let pnum = ptext.map(port);
    let a = ascii(name);
    w.if_(a.is_none() || pnum == Some(None), "Invalid");
    let Some(a) = a else { return Verdict::Bad(w.0) };
    let addr: Option<Ipv4Addr> = a.strip_suffix('.').unwrap_or(&a).parse().ok();
    pol(&mut w, ipv4, addr.is_some(), "IPv4Must", "IPv4Disallow");
    let is_local = match addr {
        Some(x) => local4(x),
        None => local_name(&a),
    };
    if addr.is_none() {
        if !is_local {
            pol(&mut w, labels, two_labels(&a), "AtLeastTwoLabelsMust", "AtLeastTwoLabelsDisallow");
        }
    } else {
        w.if_(labels == Tri::D, "AtLeastTwoLabelsDisallow");
    }
    pol(&mut w, local, is_local, "LocalMust", "LocalDisallow");
    w.verdict(|| {
        let mut v = kit::view! {"domain": q(&a)};
        push_port(&mut v, port_, pnum.flatten());
        if local == Tri::A && labels != Tri::A {
            if ipv4 == Tri::A {
                v.0.push(("ipv4", addr.is_some().to_string()));
            }
            v.0.push(("local", is_local.to_string()));
        }
        v.0.push(("fq", a.ends_with('.').to_string()));
        v.0.push(("nonfq", q(a.strip_suffix('.').unwrap_or(&a))));
        v
    })
}

enum Lit {
    V4(Ipv4Addr),
    V6(Ipv6Addr),
}
impl Lit {
    fn local(&self) -> bool {
        match self {
            Lit::V4(a) => local4(*a),
            Lit::V6(a) => local6(*a),
        }
    }
    fn ip(&self) -> IpAddr {
        match self {
            Lit::V4(a) => IpAddr::V4(*a),
            Lit::V6(a) => IpAddr::V6(*a),
        }
    }
}
/// `[v6]`, `[v6]:port` : (address, port text)
fn bracketed(s: &str) -> Option<(Ipv6Addr, Option<&str>)> {
    let rest = s.strip_prefix('[')?;
    let end = rest.rfind(']')?;
    let a = rest[..end].parse().ok()?;
    match &rest[end + 1..] {
        "" => Some((a, None)),
        t => Some((a, Some(t.strip_prefix(':')?))),
    }
}
/// facts about the presence of a port when nothing else can be made of the payload
fn vague_port(w: &mut Why, p: Tri, s: &str, six: bool) {
    if six && s.starts_with('[') {
        w.if_(p == Tri::M && s.ends_with(']'), "PortMust");
        w.if_(p == Tri::D && !s.ends_with(']'), "PortDisallow");
    } else {
        w.if_(p == Tri::M && !s.contains(':'), "PortMust");
        w.if_(p == Tri::D && s.contains(':'), "PortDisallow");
    }
}
pub fn host(local: Tri, port_: Tri, labels: Tri, s: &str) -> Verdict {
    let mut w = Why::default();
    let done = |mut w: Why, h: String, is_local: bool, p: Option<u16>| {
        pol(&mut w, local, is_local, "LocalMust", "LocalDisallow");
        w.verdict(|| {
            let mut v = kit::view! {"host": h};
            push_port(&mut v, port_, p);
            if local == Tri::A && labels != Tri::A {
                v.0.push(("local", is_local.to_string()));
            }
            v
        })
    };
    let lit = if s.starts_with('[') {
        bracketed(s).map(|(a, p)| (Lit::V6(a), p))
    } else if let Ok(a) = s.parse::<Ipv6Addr>() {
        Some((Lit::V6(a), None))
    } else {
        None
    };
    if lit.is_none() && s.starts_with('[') {
        w.if_(true, "Invalid");
        w.if_(labels == Tri::D, "AtLeastTwoLabelsDisallow");
        vague_port(&mut w, port_, s, true);
        return Verdict::Bad(w.0);
    }
    if let Some((l, pt)) = lit {
        w.if_(labels == Tri::D, "AtLeastTwoLabelsDisallow");
        pol(&mut w, port_, pt.is_some(), "PortMust", "PortDisallow");
        let p = pt.map(port);
        w.if_(p == Some(None), "Invalid");
        return done(w, format!("ip:{}", l.ip()), l.local(), p.flatten());
    }
    let (name, pt) = match s.rfind(':') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    pol(&mut w, port_, pt.is_some(), "PortMust", "PortDisallow");
    let p = pt.map(port);
    let a = ascii(name).filter(|a| !a.ends_with('.'));
    w.if_(a.is_none() || p == Some(None), "Invalid");
    let Some(a) = a else { return Verdict::Bad(w.0) };
    match a.parse::<Ipv4Addr>() {
        Ok(x) => {
            w.if_(labels == Tri::D, "AtLeastTwoLabelsDisallow");
            done(w, format!("ip:{x}"), local4(x), p.flatten())
        }
        Err(_) => {
            let is_local = local_name(&a);
            if !is_local {
                pol(&mut w, labels, two_labels(&a), "AtLeastTwoLabelsMust", "AtLeastTwoLabelsDisallow");
            }
            done(w, format!("domain:{a:?}"), is_local, p.flatten())
        }
    }
}
pub fn ip(v: u8, local: Tri, port_: Tri, s: &str) -> Verdict {
    let mut w = Why::default();
    let four = |s: &str| {
        let (h, p) = match s.rfind(':') {
            Some(i) => (&s[..i], Some(&s[i + 1..])),
            None => (s, None),
        };
        h.parse::<Ipv4Addr>().ok().map(|a| (Lit::V4(a), p.map(str::to_string)))
    };
    let six = |s: &str| {
        if s.starts_with('[') {
            bracketed(s).map(|(a, p)| (Lit::V6(a), p.map(str::to_string)))
        } else {
            s.parse::<Ipv6Addr>().ok().map(|a| (Lit::V6(a), None))
        }
    };
    let lit = match v {
        4 => four(s),
        6 => six(s),
        _ => six(s).or_else(|| if s.starts_with('[') { None } else { four(s) }),
    };
    let Some((l, pt)) = lit else {
        w.if_(true, "Invalid");
        vague_port(&mut w, port_, s, v != 4);
        if v == 6 {
            // an unbracketed text has no place for a port
            w.if_(port_ == Tri::M && !s.starts_with('['), "PortMust");
        }
        return Verdict::Bad(w.0);
    };
    pol(&mut w, port_, pt.is_some(), "PortMust", "PortDisallow");
    let p = pt.as_deref().map(port);
    w.if_(p == Some(None), "Invalid");
    let is_local = l.local();
    pol(&mut w, local, is_local, "LocalMust", "LocalDisallow");
    w.verdict(|| {
        let mut v = kit::view! {"ip": l.ip().to_string()};
        push_port(&mut v, port_, p.flatten());
        v
    })
}
/// MAC addresses and UUIDs: groups of hexadecimal digits
pub fn hexid(groups: &[usize], case: Case, sep: Sep, s: &str) -> Verdict {
    let total: usize = groups.iter().sum();
    let b = s.as_bytes();
    let sepc = match sep {
        Sep::Allow(c) | Sep::Must(c) => Some(c),
        Sep::Disallow => None,
    };
    // take digits, noting separators at group boundaries
    let (mut n, mut digits, mut seps, mut ok, mut i) = (0u128, 0, 0, true, 0);
    let mut bounds: Vec<usize> = vec![];
    let mut acc = 0;
    for g in &groups[..groups.len() - 1] {
        acc += g;
        bounds.push(acc);
    }
    let mut last_sep_at = usize::MAX;
    while i < b.len() {
        let c = b[i];
        let d = match c {
            b'0'..=b'9' => Some(c - b'0'),
            b'a'..=b'f' if case != Case::Upper => Some(c - b'a' + 10),
            b'A'..=b'F' if case != Case::Lower => Some(c - b'A' + 10),
            _ => None,
        };
        if let Some(d) = d {
            n = n << 4 | d as u128;
            digits += 1;
        } else if Some(c) == sepc && bounds.contains(&digits) && last_sep_at != digits {
            seps += 1;
            last_sep_at = digits;
        } else {
            ok = false;
        }
        i += 1;
    }
    ok &= digits == total;
    let mut w = Why::default();
    w.if_(!ok, "Invalid");
    match sep {
        Sep::Must(_) => w.if_(seps != groups.len() - 1 || b.len() != total + groups.len() - 1, "SeparatorMust"),
        Sep::Disallow => w.if_(b.len() != total, "SeparatorDisallow"),
        _ => (),
    }
    w.verdict(|| kit::view! {"n": format!("{n:x}")})
}
pub fn http_url(ftp: bool, local: Tri, s: &str) -> Verdict {
    let schemes: &[&str] = if ftp { &["http:", "https:", "ftp:"] } else { &["http:", "https:"] };
    let scheme = schemes.iter().position(|p| s.len() >= p.len() && s.as_bytes()[..p.len()].eq_ignore_ascii_case(p.as_bytes()));
    let mut w = Why::default();
    w.if_(scheme.is_none(), "ProtocolError");
    let u = match validators::url::Url::parse(s) {
        Ok(u) => u,
        Err(_) => {
            w.if_(true, "ParseError");
            return Verdict::Bad(w.0);
        }
    };
    let is_local = match u.host() {
        Some(validators::url::Host::Domain(d)) => local_name(d),
        Some(validators::url::Host::Ipv4(a)) => local4(a),
        Some(validators::url::Host::Ipv6(a)) => local6(a),
        None => false,
    };
    if u.host().is_some() {
        pol(&mut w, local, is_local, "LocalMust", "LocalDisallow");
    }
    w.verdict(|| {
        let i = scheme.unwrap();
        if ftp {
            kit::view! {"url": q(u.as_str()), "proto": ["HTTP", "HTTPS", "FTP"][i].to_string()}
        } else {
            kit::view! {"url": q(u.as_str()), "https": (i == 1).to_string()}
        }
    })
}
