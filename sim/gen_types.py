#!/usr/bin/env python3
"""Writes the type crates: one derived validator per declared configuration.
The output is committed; rerun only when the matrix changes."""
import os, itertools
ROOT = os.path.dirname(os.path.abspath(__file__))
NOWEB = ('json/', 'signed_integer/i8', 'unsigned_integer/u8', 'base32/', 'base64_url/', 'ipv4', 'base64_url_decoded')
TRI = {'A': 'Allow', 'M': 'Must', 'D': 'Disallow'}
class Crate:
    def __init__(s, name, extra=''):
        s.name, s.n, s.items, s.subs, s.extra = name, 0, [], [], extra
    def add(s, subject, decl_attr, body, err, spec, caps, view, texts='', derive='Debug, Clone, Validator', gate_extra=''):
        t = f'T{s.n}'; s.n += 1
        s.items.append(f'#[derive({derive})]\n#[validator({decl_attr})]\npub struct {t}{body}\nimpl Sub for {t} {{\n    fn view(&self) -> View {{\n        {view}\n    }}\n{texts}}}\n')
        caps = [c.replace('$T', t) for c in caps]
        # the real formats are compiled for one in six of the others, too
        if 'text' in caps and 'rich' not in caps and s.n % 6 == 0: caps = caps + ['rich']
        if 'rich' in caps and 'text' in caps and not subject.startswith(NOWEB): caps = caps + ['web']
        s.subs.append(f'    v.push(subject!("{subject}", {t}, {err}, {spec}, [{", ".join(caps)}]));\n')
    def write(s):
        d = f'{ROOT}/{s.name}'; os.makedirs(d + '/src', exist_ok=True)
        open(d + '/Cargo.toml', 'w').write(f'''[package]
name = "{s.name}"
version = "0.1.0"
edition = "2024"
[lib]
doctest = false
test = false
[dependencies]
kit = {{ path = "../kit" }}
validators = {{ path = "/repo/validators", features = ["full", "serde", "rocket", "axum"] }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
''')
        chunks = [s.subs[i:i+20] for i in range(0, len(s.subs), 20)]
        fns = ''.join(f'fn part{i}(v: &mut Vec<Subject>) {{\n{"".join(c)}}}\n' for i, c in enumerate(chunks))
        calls = ''.join(f'    part{i}(v);\n' for i in range(len(chunks)))
        open(d + '/src/lib.rs', 'w').write(f'''// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{{errors::*, prelude::*}};
{s.extra}
{"".join(s.items)}
pub fn subjects(v: &mut Vec<Subject>) {{
{calls}}}
{fns}''')

def opt(v): return 'None' if v is None else f'Some({v})'
# ---------------------------------------------------------------- text
c = Crate('ty_text', '''use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use validators::regex::Regex;
pub static RE_WORD: std::sync::LazyLock<Regex> = std::sync::LazyLock::new(|| Regex::new(r"\\A[\\w-]{2,8}\\z").unwrap());
/// a caller-defined collection whose reported length may change between reads
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Own(pub Vec<u32>);
impl CollView for Own {
    fn coll_view(&self) -> View {
        own_view(&self.0)
    }
}
impl CollectionLength for Own {
    fn len(&self) -> usize {
        own_len(self.0.len())
    }
}
''')
lens = [(None,None,None)]
for mn, tm, mx in [(2,None,None),(None,1,None),(None,3,None),(None,None,6),(2,1,None),(3,3,None),(2,None,6),(None,1,6),(None,3,5),(2,1,6),(4,2,9),(3,3,3),(0,0,4),(None,0,3),(2,0,5),(2,0,None),(None,0,None),(1,None,1),(5,None,5),(1,1,64),(0,None,0),(None,None,255),(None,7,None),(None,6,20),(8,4,12),(10,6,None),(20,16,24),(None,33,64),(100,64,None)]:
    lens.append((mn,tm,mx))
for kind in ('text', 'line'):
    for unit in ('char', 'byte'):
        for mn, tm, mx in lens:
            if (mn,tm,mx) == (None,None,None):
                if unit == 'byte': continue
                attr = kind
            else:
                ps = [f'{k} = {v}' for k, v in (('min',mn),('trimmed_min',tm),('max',mx)) if v is not None]
                attr = f'{kind}({unit}_length({", ".join(ps)}))'
            spec = f'Spec::Text {{ line: {"true" if kind=="line" else "false"}, unit: Unit::{"Chars" if unit=="char" else "Bytes"}, min: {opt(mn)}, tmin: {opt(tm)}, max: {opt(mx)} }}'
            c.add(f'{kind}/{unit}-{mn}-{tm}-{mx}', attr, '(pub String);', f'{kind.capitalize()}Error', spec, ['text'] + (['rich'] if (unit,mn,tm,mx) in (('char',2,1,6),('char',None,None,6)) else []), 'view! {"text": q(&self.0)}')
for i, pat in enumerate([r'^[a-z]+$', r'(?i)^(yes|no|maybe)$', r'\A\d{3}-\d{4}\z', r'a.c', r'^$', r'(?s)^.{0,4}$', r'^\p{Greek}+$', r'^(?:(?:25[0-5]|2[0-4]\d|1?\d?\d)(?:\.|$)){4}', r'(?m)^x$', r'\bfoo\b']):
    c.add(f'regex/{i}', f'regex(regex = r"{pat}")', '(pub String);', 'RegexError', f'Spec::Regex {{ pat: r"{pat}" }}', ['text'] + (['rich'] if i == 0 else []), 'view! {"text": q(&self.0)}')
c.add('regex/static', 'regex(regex = RE_WORD)', '(pub String);', 'RegexError', r'Spec::Regex { pat: r"\A[\w-]{2,8}\z" }', ['text'], 'view! {"text": q(&self.0)}')
for ty, tag in [('Vec<u32>','vec'),('BTreeMap<String, u32>','btmap'),('BTreeSet<u32>','btset'),('BinaryHeap<u32>','heap'),('HashMap<String, u32>','hmap'),('HashSet<u32>','hset'),('serde_json::Map<String, serde_json::Value>','jmap'),('Own','own')]:
    for mn, mx in [(1,None),(None,3),(2,4),(3,3),(0,0)]:
        if tag not in ('vec','own','hmap') and (mn,mx) in ((3,3),(0,0),(None,3)): continue
        ps = [f'{k} = {v}' for k, v in (('min',mn),('max',mx)) if v is not None]
        c.add(f'length/{tag}-{mn}-{mx}', f'length({", ".join(ps)})', f'(pub {ty});', 'LengthError', f'Spec::Length {{ min: {opt(mn)}, max: {opt(mx)}, coll: Coll::{tag.capitalize()} }}', [f'coll({ty})'], 'self.0.coll_view()')
for a, tag in (('base32','B32'),('base64','B64'),('base64_url','B64Url')):
    for dec in (False, True):
        for p in 'AMD':
            E = {'base32':'Base32','base64':'Base64','base64_url':'Base64Url'}[a] + ('Decoded' if dec else '') + 'Error'
            attr = f'{a}{"_decoded" if dec else ""}(padding({TRI[p]}))'
            if dec:
                c.add(f'{a}_decoded/{p}', attr, '(pub Vec<u8>);', E, f'Spec::Base {{ alpha: Alpha::{tag}, decoded: true, pad: Tri::{p} }}', ['text','bytes'] + (['rich'] if p=='A' else []), 'view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}')
            else:
                c.add(f'{a}/{p}', attr, '(pub String);', E, f'Spec::Base {{ alpha: Alpha::{tag}, decoded: false, pad: Tri::{p} }}', ['text','bytes'] + (['rich'] if p=='A' else []), 'view! {"text": q(&self.0)}')
c.write()
# ---------------------------------------------------------------- numbers
c = Crate('ty_num', 'use validators::byte_unit::{Bit, Byte};')
def rng(mode, mn, mx, incl):
    if mode is None: return '', 'Rng::Any'
    ps = [f'{k} = {v}' for k, v in (('min',mn),('max',mx)) if v is not None]
    if not incl: ps.append('inclusive = false')
    return f'range({mode}({", ".join(ps)}))', f'Rng::{ {"Inside":"In","Outside":"Out"}[mode] } {{ min: {opt(mn)}, max: {opt(mx)}, incl: {"true" if incl else "false"} }}'
bits = {'u8':8,'u16':16,'u32':32,'u64':64,'u128':128,'usize':64,'i8':8,'i16':16,'i32':32,'i64':64,'i128':128,'isize':64}
for ty, b in bits.items():
    sg = ty[0] == 'i'
    MAX = 2**(b-1)-1 if sg else 2**b-1
    MIN = -2**(b-1) if sg else 0
    lo, hi = (-7, 9) if sg else (3, 90)
    modes = [(None,None,None,True),('Inside',lo,hi,True),('Inside',lo,hi,False),('Inside',lo,None,True),('Inside',None,hi,True),('Inside',None,hi,False),('Inside',hi,hi,True),('Inside',hi,hi+1,False),
             ('Outside',lo,hi,True),('Outside',lo,hi,False),('Outside',hi,None,True),('Outside',None,lo,True),('Outside',None,lo,False),('Outside',hi,hi,True),('Outside',lo,lo+1,False),
             ('Inside',MIN+1,MAX-1,True),('Inside',0,MAX,True),('Inside',0,MAX,False),
             ('Outside',1,MAX,True),('Inside',2**(b-3)+1,2**(b-2)+1,True)] + ([('Inside',-2**(b-2)-1,-2**(b-3)-1,True),('Outside',-MAX,-1,True)] if sg else [])
    for i, (m, mn, mx, inc) in enumerate(modes):
        a, sp = rng(m, mn, mx, inc)
        kind = 'signed_integer' if sg else 'unsigned_integer'
        E = 'SignedIntegerError' if sg else 'UnsignedIntegerError'
        spec = f'Spec::{"SInt" if sg else "UInt"} {{ bits: {b}, r: {sp} }}'
        c.add(f'{kind}/{ty}-{i}', kind + (f'({a})' if a else ''), f'(pub {ty});', E, spec, ['text', 'sint' if sg else 'uint'] + (['rich'] if i in (0, 1) else []), 'view! {"n": self.0.to_string()}')
for ty in ('f32','f64'):
    fmodes = [(None,None,None,True),('Inside','-1.5','2.5',True),('Inside','-1.5','2.5',False),('Inside','0.0',None,True),('Inside',None,'100.25',True),('Inside',None,'100.25',False),('Inside','2.5','2.5',True),('Inside','0.0','1.0',False),
              ('Outside','-1.5','2.5',True),('Outside','-1.5','2.5',False),('Outside','0.0',None,True),('Outside',None,'0.0',True),('Outside',None,'0.0',False),('Outside','0.5','0.5',True),
              ('Inside','0.1','0.3',True),('Inside','0.1','0.3',False),('Outside','0.1','0.3',True),('Inside','-16777217.0','9007199254740993.0',True)]
    for i, (m, mn, mx, inc) in enumerate(fmodes):
        for nan in 'AMD':
            if nan == 'M' and i not in (0, 1, 6, 8, 13): continue
            a, sp = rng(m, mn, mx, inc)
            # a bound is a literal of the type's own width
            _, sp = rng(m, *(b if b is None else f'{b}{ty} as f64' for b in (mn, mx)), inc)
            parts = ([a] if a else []) + [f'nan({TRI[nan]})']
            if nan == 'M' and m == 'Inside': parts.append('conflict(Allow)')
            spec = f'Spec::Num {{ f32_: {"true" if ty=="f32" else "false"}, r: {sp}, nan: Tri::{nan} }}'
            c.add(f'number/{ty}-{i}-{nan}', f'number({", ".join(parts)})', f'(pub {ty});', 'NumberError', spec, ['text','num'] + (['rich'] if i == 1 and nan == 'D' else []), 'fview(self.0 as f64)')
c.add('boolean', 'boolean', '(pub bool);', 'BooleanError', 'Spec::Bool', ['text','boolean','chr','sint','uint','rich'], 'view! {"b": self.0.to_string()}')
KB = [(None,None,None,True)] + [('Inside',mn,mx,i) for mn,mx,i in [(10,1000,True),(10,1000,False),(8,None,True),(None,4096,True),(None,4096,False),(512,512,True),(7,8,False),(0,2**64,True),(2**53+1,2**65+1,True),(2**64-1,2**70+1,False)]]
for kind, V, E, S in (('bit','Bit','BitError','Bit'),('byte','Byte','ByteError','Byte')):
    for i,(m,mn,mx,inc) in enumerate(KB):
        for ic in ((False,) if kind=='bit' else (False, True)):
            ps = []
            if m: 
                a, sp = rng(m, mn, mx, inc); a = a.replace('range(Inside(', 'range(')[:-1] if True else a
                ps.append(a)
            else: sp = 'Rng::Any'
            if kind == 'byte' and not ic: ps.append('ignore_case(false)')
            spec = f'Spec::Bit {{ r: {sp} }}' if kind=='bit' else f'Spec::Byte {{ r: {sp}, ignore_case: {"true" if ic else "false"} }}'
            view = 'view! {"n": self.0.as_u128().to_string()}'
            c.add(f'{kind}/{i}{"-ic" if ic else ""}', kind + (f'({", ".join(ps)})' if ps else ''), f'(pub {V});', E, spec, ['text','uint'] + (['rich'] if i == 1 and not ic else []), view)
c.write()
# ---------------------------------------------------------------- net
c = Crate('ty_net', 'use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};\nuse validators::models::Host;')
def port_field(p): return {'A':', pub port: Option<u16>','M':', pub port: u16','D':''}[p]
def port_view(p): return {'A':', "port": op(self.port)','M':', "port": self.port.to_string()','D':''}[p]
URI = '    fn texts(&self) -> Vec<(&\'static str, String)> {\n        vec![("uri", self.to_uri_authority_string().into_owned())]\n    }\n'
for l,p,b in itertools.product('AMD','AMD','AMD'):
    loc = l == 'A' and b != 'A'
    attr = f'host(local({TRI[l]}), port({TRI[p]}), at_least_two_labels({TRI[b]}))'
    named = p != 'D' or loc
    locv = ', "local": self.is_local.to_string()' if loc else ''
    if named:
        body = ' { pub host: Host' + port_field(p) + (', pub is_local: bool' if loc else '') + ' }'
        view = 'view! {"host": host_view(&self.host)' + port_view(p) + locv + '}'
    else:
        body = '(pub Host);'; view = 'view! {"host": host_view(&self.0)}'
    uri = URI + f'    fn host(&self) -> Option<&Host> {{\n        Some(&self.{"host" if named else "0"})\n    }}\n'
    c.add(f'host/l{l}-p{p}-b{b}', attr, body, 'HostError', f'Spec::Host {{ local: Tri::{l}, port: Tri::{p}, labels: Tri::{b} }}', ['text']+(['rich'] if (l,p,b)==('A','A','A') else []), view, uri)
for v in (0,4,6):
    kind = {0:'ip',4:'ipv4',6:'ipv6'}[v]; ty = {0:'IpAddr',4:'Ipv4Addr',6:'Ipv6Addr'}[v]; E = {0:'IpError',4:'Ipv4Error',6:'Ipv6Error'}[v]
    for l,p in itertools.product('AMD','AMD'):
        attr = f'{kind}(local({TRI[l]}), port({TRI[p]}))'
        if p != 'D':
            body = f' {{ pub {kind}: {ty}{port_field(p)} }}'; view = f'view! {{"ip": self.{kind}.to_string()' + port_view(p) + '}'
        else:
            body = f'(pub {ty});'; view = 'view! {"ip": self.0.to_string()}'
        c.add(f'{kind}/l{l}-p{p}', attr, body, E, f'Spec::Ip {{ v: {v}, local: Tri::{l}, port: Tri::{p} }}', ['text']+(['rich'] if (l,p)==('A','A') else []), view, URI)
for kind, ty, E, S, tf in (('mac_address','u64','MacAddressError','Mac','to_mac_address_string'),('uuid','u128','UuidError','Uuid','to_uuid_string')):
    for cs in ('Any','Upper','Lower'):
        for sp, ss in (('Allow(b\':\')','a:'),('Must(b\':\')','m:'),('Disallow','d'),('Allow(b\'-\')','a-'),('Must(b\'-\')','m-'),('Allow(b\'.\')','a.'),('Must(b\'_\')','m_')):
            attr = f'{kind}(case({cs}), separator({sp}))'
            c.add(f'{kind}/{cs}-{ss}', attr, f'(pub {ty});', E, f'Spec::{S} {{ case: Case::{cs}, sep: Sep::{sp} }}', ['text']+(['rich'] if (cs,ss)==('Any','d') else []), 'view! {"n": format!("{:x}", self.0)}', f'    fn texts(&self) -> Vec<(&\'static str, String)> {{\n        vec![("text", self.{tf}())]\n    }}\n')
c.write()
# ---------------------------------------------------------------- domain
c = Crate('ty_domain')
for i,l,p,b in itertools.product('AMD','AMD','AMD','AMD'):
    loc = l == 'A' and b != 'A'
    attr = f'domain(ipv4({TRI[i]}), local({TRI[l]}), port({TRI[p]}), at_least_two_labels({TRI[b]}), conflict(Allow))'
    named = p != 'D' or loc
    ex = ''; exv = ''
    if loc:
        if i == 'A': ex += ', pub is_ipv4: bool'; exv += ', "ipv4": self.is_ipv4.to_string()'
        ex += ', pub is_local: bool'; exv += ', "local": self.is_local.to_string()'
    if named:
        body = ' { pub domain: String' + port_field(p) + ex + ' }'
        view = 'view! {"domain": q(&self.domain)' + port_view(p) + exv + '}'
    else:
        body = '(pub String);'; view = 'view! {"domain": q(&self.0)}'
    tx = URI
    view = view[:-1] + ', "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}'
    c.add(f'domain/i{i}-l{l}-p{p}-b{b}', attr, body, 'DomainError', f'Spec::Domain {{ ipv4: Tri::{i}, local: Tri::{l}, port: Tri::{p}, labels: Tri::{b} }}', ['text']+(['rich'] if (i,l,p,b) in (('A','A','A','A'),) else []), view, tx)
c.write()
# ---------------------------------------------------------------- email
c = Crate('ty_email', 'use std::net::IpAddr;\nuse validators::models::Host;')
for cm,i,l,b,na in itertools.product('AD','AMD','AMD','AMD','AD'):
    loc = l == 'A' and b != 'A'
    attr = f'email(comment({TRI[cm]}), ip({TRI[i]}), local({TRI[l]}), at_least_two_labels({TRI[b]}), non_ascii({TRI[na]}), conflict(Allow))'
    dom = {'A':'Host','M':'IpAddr','D':'String'}[i]
    dv = {'A':'host_view(&self.domain_part)','M':'format!("ip:{}", self.domain_part)','D':'format!("domain:{:?}", self.domain_part)'}[i]
    body = f' {{ pub local_part: String, pub need_quoted: bool, pub domain_part: {dom}'
    view = f'view! {{"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": {dv}'
    if cm == 'A':
        for k in ('before_local','after_local','before_domain','after_domain'):
            body += f', pub comment_{k}_part: Option<String>'
            view += f', "c_{k}": oq(self.comment_{k}_part.as_deref())'
    if loc:
        body += ', pub is_local: bool'; view += ', "is_local": self.is_local.to_string()'
    body += ' }'; view += '}'
    c.add(f'email/c{cm}-i{i}-l{l}-b{b}-n{na}', attr, body, 'EmailError', f'Spec::Email {{ comment: {"true" if cm=="A" else "false"}, ip: Tri::{i}, local: Tri::{l}, labels: Tri::{b}, non_ascii: {"true" if na=="A" else "false"} }}', ['text']+(['rich'] if (cm,i,l,b,na) in (('A','A','A','A','D'),) else []), view,
      '    fn texts(&self) -> Vec<(&\'static str, String)> {\n        vec![("email", self.to_email_string())]\n    }\n' + ('    fn host(&self) -> Option<&Host> {\n        Some(&self.domain_part)\n    }\n' if i == 'A' else ''))
c.write()
# ---------------------------------------------------------------- misc
c = Crate('ty_misc', 'use kit::spec::{Doc, JsonTy, Shape};\nuse std::collections::HashMap;\nuse validators::models::Protocol;\nuse validators::phonenumber::{PhoneNumber, country};\nuse validators::{semver, url};')
c.add('url', 'url', '(pub url::Url);', 'UrlError', 'Spec::Url', ['text','rich'], 'view! {"url": q(self.0.as_str())}')
for l in 'AMD':
    c.add(f'http_url/{l}', f'http_url(local({TRI[l]}))', ' { pub url: url::Url, pub is_https: bool }', 'HttpURLError', f'Spec::HttpUrl {{ ftp: false, local: Tri::{l} }}', ['text']+(['rich'] if l=='A' else []), 'view! {"url": q(self.url.as_str()), "https": self.is_https.to_string()}')
    c.add(f'http_ftp_url/{l}', f'http_ftp_url(local({TRI[l]}))', ' { pub url: url::Url, pub protocol: Protocol }', 'HttpFtpURLError', f'Spec::HttpUrl {{ ftp: true, local: Tri::{l} }}', ['text']+(['rich'] if l=='A' else []), 'view! {"url": q(self.url.as_str()), "proto": format!("{:?}", self.protocol)}')
c.add('phone/any', 'phone', '(pub PhoneNumber);', 'PhoneError', 'Spec::Phone { countries: &[] }', ['text','rich'], 'view! {"phone": phone_view(&self.0)}')
for cc in (['TW'],['US'],['GB'],['JP'],['TW','US'],['US','CA'],['TW','US','GB','DE'],['TW','CN','HK','JP','IT'],['US','JP']):
    if len(cc) == 1:
        c.add(f'phone/{cc[0]}', f'phone(countries({cc[0]}))', '(pub PhoneNumber);', 'PhoneError', f'Spec::Phone {{ countries: &["{cc[0]}"] }}', ['text'], 'view! {"phone": phone_view(&self.0)}')
    else:
        c.add('phone/'+'-'.join(cc), f'phone(countries({", ".join(cc)}))', '(pub HashMap<country::Id, PhoneNumber>);', 'PhoneError', 'Spec::Phone { countries: &[' + ', '.join(f'"{x}"' for x in cc) + '] }', ['text'], 'phones_view(self.0.iter().map(|(k, v)| (k.as_ref().to_string(), phone_view(v))))')
c.add('semver', 'semver', '(pub semver::Version);', 'SemverError', 'Spec::Semver', ['text','rich'], 'view! {"v": format!("{:?}", self.0)}')
c.add('semver_req', 'semver_req', '(pub semver::VersionReq);', 'SemverError', 'Spec::SemverReq', ['text','rich'], 'view! {"v": format!("{:?}", self.0)}')
for tag, ty in (('string','String'),('bool','bool'),('u8','u8'),('i64','i64'),('f64','f64'),('vec','Vec<Option<u32>>'),('map','std::collections::BTreeMap<String, Vec<i8>>'),('rec','Doc'),('enum','Shape')):
    c.add(f'json/{tag}', 'json', f'(pub {ty});', 'JsonError', f'Spec::JsonT {{ ty: JsonTy::{tag.capitalize()} }}', ['text','boolean','num','sint','uint','jsonv','rich'], 'view! {"json": format!("{:?}", self.0)}',
      '    fn texts(&self) -> Vec<(&\'static str, String)> {\n        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]\n    }\n')
c.add('json', 'json', '(pub serde_json::Value);', 'JsonError', 'Spec::Json', ['text','boolean','num','sint','uint','jsonv','rich'], 'view! {"json": self.0.to_string()}',
      '    fn texts(&self) -> Vec<(&\'static str, String)> {\n        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]\n    }\n')
c.write()
