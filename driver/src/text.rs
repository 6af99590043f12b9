use std::io::{self, Read};

use num_bigint::BigInt;
use num_rational::BigRational;

use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::io::parse_cgd_blocks as cb;
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::parse_space_group_table;
use rust_systre::spacegroups::types::{Centering, CrystalSystem};

use crate::algebra::{aff_out, A, B};
use crate::guarded;
use crate::json::*;

fn cps(t: &str) -> J { J::Arr(t.chars().map(|c| n(c as u32)).collect()) }

fn text_in(rq: &J) -> String {
    rq.get("cps").arr().iter().map(|c| char::from_u32(c.num() as u32).unwrap_or_else(|| bad("code point"))).collect()
}

fn lines_of<T: ToString>(x: T) -> J { J::Arr(x.to_string().lines().map(cps).collect()) }

/// Options are sequences of length 0 or 1 in the trace.
fn some(x: J) -> J { J::Arr(vec![x]) }

pub fn operator(rq: &J) -> J {
    let t = &text_in(rq)[..];
    guarded(|| match rq.get("what").str() {
        "parse" => match parse_operator(t) {
            Err(_) => J::Null,
            Ok((rest, (m, sh))) => some(obj(vec![
                ("rest", cps(rest)),
                ("m", J::Arr(m.iter().map(|r| J::Arr(r.iter().map(s).collect())).collect())),
                ("s", J::Arr(sh.iter().map(s).collect())),
            ])),
        },
        "affine" => match AffineMap::<BigRational, A>::from_string(t) {
            None => J::Null,
            Some(a) => some(aff_out(&a)),
        },
        "coord" => match CoordinateMap::<BigRational, A, B>::from_string(t) {
            None => J::Null,
            Some(c) => some(obj(vec![("fwd", aff_out(&c.forward())), ("bwd", aff_out(&c.inverse().forward()))])),
        },
        _ => bad("operator what"),
    })
}

pub fn names(rq: &J) -> J {
    let t = &text_in(rq)[..];
    guarded(|| match rq.get("what").str() {
        "system" => CrystalSystem::from_string(t).map(|x| some(s(x))).unwrap_or(J::Null),
        "centering" => Centering::from_string(t).map(|x| some(s(x))).unwrap_or(J::Null),
        _ => bad("names what"),
    })
}

/// A reader that delivers `data` in the given chunk sizes and misbehaves on request.
struct Faulty {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    fail_at: Option<usize>, // byte offset before which reading is fine
    kind: io::ErrorKind,
    times: u64, // number of failures; u64::MAX: for ever
    fired: u64,
}

impl Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut limit = self.data.len();
        if let Some(k) = self.fail_at {
            if self.fired < self.times {
                if self.pos >= k {
                    self.fired += 1;
                    return Err(io::Error::new(self.kind, "injected"));
                }
                limit = limit.min(k);
            }
        }
        let n = buf.len().min(self.chunk).min(limit - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn reader(rq: &J) -> Faulty {
    let h = rq.get("hex").str();
    let data: Vec<u8> = (0..h.len() / 2)
        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or_else(|_| bad("hex")))
        .collect();
    let num = |k: &str| if rq.get(k).is_null() { None } else { Some(rq.get(k).num()) };
    let kind = match rq.get("kind") {
        J::Null => io::ErrorKind::Other,
        j => match j.str() {
            "other" => io::ErrorKind::Other,
            "interrupted" => io::ErrorKind::Interrupted,
            "invalid" => io::ErrorKind::InvalidData,
            "eof" => io::ErrorKind::UnexpectedEof,
            "wouldblock" => io::ErrorKind::WouldBlock,
            "reset" => io::ErrorKind::ConnectionReset,
            _ => bad("kind"),
        },
    };
    Faulty {
        data, pos: 0,
        chunk: num("chunk").unwrap_or(1 << 20) as usize,
        fail_at: num("fail_at").map(|x| x as usize),
        kind,
        times: match num("times") { None | Some(-1) => u64::MAX, Some(k) => k as u64 },
        fired: 0,
    }
}

pub fn table(rq: &J) -> J {
    guarded(|| match parse_space_group_table(reader(rq)) {
        None => J::Null,
        Some(t) => {
            let mut names: Vec<_> = t.settings.keys().cloned().collect();
            names.sort();
            let mut aliases: Vec<_> = t.alias.iter().collect();
            aliases.sort();
            let mut picked = vec![];
            for pr in rq.get("pick").arr() {
                let pr = pr.arr();
                let got = match (CrystalSystem::from_string(pr[0].str()), Centering::from_string(pr[1].str())) {
                    (Some(cs), Some(cn)) => J::Arr(t.lookup_settings(cs, cn).iter().map(|(nm, cm)| {
                        obj(vec![("name", cps(nm)), ("fwd", aff_out(&cm.forward())), ("bwd", aff_out(&cm.inverse().forward()))])
                    }).collect()),
                    _ => J::Null,
                };
                picked.push(got);
            }
            some(obj(vec![
                ("settings", J::Arr(names.iter().map(|k| J::Arr(vec![cps(k), lines_of(&t.settings[k])])).collect())),
                ("alias", J::Arr(aliases.iter().map(|(a, b)| J::Arr(vec![cps(a), cps(b)])).collect())),
                ("lookup", J::Arr(t.lookup.iter().map(lines_of).collect())),
                ("picked", J::Arr(picked)),
            ]))
        }
    })
}

fn float_out(x: f64) -> J {
    if x.is_nan() { return s("nan"); }
    if x.is_infinite() { return s(if x > 0.0 { "inf" } else { "-inf" }); }
    // exact value as a rational
    let bits = x.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let f = bits & ((1u64 << 52) - 1);
    let (m, e) = if e == 0 { (f, -1074) } else { (f | (1u64 << 52), e - 1075) };
    let m = BigInt::from(m);
    let r = if e >= 0 {
        BigRational::from(m << (e as usize))
    } else {
        BigRational::new(m, BigInt::from(1) << ((-e) as usize))
    };
    s(if neg { -r } else { r })
}

fn field_out(f: &Field) -> J {
    match f {
        Field::Fraction(x) => J::Arr(vec![s("frac"), s(x)]),
        Field::Int(x) => J::Arr(vec![s("int"), s(x)]),
        Field::Double(x) => J::Arr(vec![s("dbl"), float_out(*x)]),
        Field::Key(x) => J::Arr(vec![s("key"), cps(x)]),
        Field::Name(x) => J::Arr(vec![s("name"), cps(x)]),
    }
}

fn fields_out(fs: &[Field]) -> J { J::Arr(fs.iter().map(field_out).collect()) }

pub fn line(rq: &J) -> J {
    guarded(|| match parse_cgd_line(&text_in(rq)) {
        Err(_) => J::Null,
        Ok((rest, fs)) => some(obj(vec![("rest", cps(rest)), ("fields", fields_out(&fs))])),
    })
}

#[cfg(verif_hooks)]
fn entry_out(e: &cb::Entry) -> J {
    obj(vec![
        ("type", s(format!("{:?}", e.verif_entry_type()))),
        ("key", e.verif_key().as_ref().map(|x| some(cps(x))).unwrap_or(J::Null)),
        ("fields", fields_out(e.verif_fields())),
        ("notes", J::Arr(e.verif_notes().iter().map(|x| match x {
            cb::Note::Error(m) => J::Arr(vec![s("E"), cps(m)]),
            cb::Note::Warning(m) => J::Arr(vec![s("W"), cps(m)]),
        }).collect())),
        ("line", n(e.verif_line_number())),
        ("content", e.verif_content().as_ref().map(|x| some(cps(x))).unwrap_or(J::Null)),
    ])
}

#[cfg(verif_hooks)]
fn block_out(b: &cb::Block) -> J {
    obj(vec![
        ("type", cps(b.verif_block_type())),
        ("start", n(b.verif_lineno_start())),
        ("end", n(b.verif_lineno_end())),
        ("entries", J::Arr(b.verif_entries().iter().map(entry_out).collect())),
    ])
}

#[cfg(not(verif_hooks))]
fn entry_out(_: &cb::Entry) -> J { J::Null }
#[cfg(not(verif_hooks))]
fn block_out(_: &cb::Block) -> J { J::Null }

pub fn blocks(rq: &J) -> J {
    guarded(|| J::Arr(cb::parse_blocks(reader(rq)).iter().map(block_out).collect()))
}

pub fn lines(rq: &J) -> J {
    guarded(|| J::Arr(cb::parse_lines(reader(rq)).iter().map(entry_out).collect()))
}
