//! Pinned, independent encoding of everything the trace shows: account names, u64 limbs, the
//! established account layouts and instruction-argument layouts.  Nothing here uses the `dlp`
//! crate, so a change of a format in the program under test shows up as undecodable bytes.
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use solana_sdk::{
    account::{AccountSharedData, ReadableAccount},
    pubkey::Pubkey,
    signature::{keypair_from_seed, Signer},
};
use std::collections::HashMap;
use std::str::FromStr;

const B: u64 = 100_000_000;

pub fn num(v: u64) -> Value {
    json!([v / B / B, (v / B) % B, v % B])
}
pub fn unnum(v: &Value) -> u64 {
    if let Some(n) = v.as_u64() {
        return n;
    }
    let a = v.as_array().unwrap_or_else(|| panic!("number expected: {v}"));
    let g = |i: usize| a[i].as_u64().unwrap() as u128;
    let r = (g(0) * B as u128 + g(1)) * B as u128 + g(2);
    u64::try_from(r).expect("u64")
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// Names of all accounts of the small universe, both ways.
pub struct Names {
    pub by_name: HashMap<String, Pubkey>,
    pub by_key: HashMap<Pubkey, String>,
    /// delegatable PDAs: name -> (program name, seeds)
    pub pda: HashMap<String, (String, Vec<Vec<u8>>)>,
    pub signers: Vec<String>,
}
pub const WALLETS: &[&str] = &[
    "U1", "U2", "V1", "V2", "V3", "ADM", "UPA", "ATT", "FEE", "W1", "W2", "SB1", "SB2",
];
/// a wallet that is a program address of PROXY; it signs through calls of that program
pub const MULTI: &str = "M1";
pub const PROGS: &[&str] = &["PROG", "PROG2"];
pub const DELEGATABLE: &[&str] = &[
    "A1", "A2", "A3", "A4", "A5", "C1", "P1", "W1", "W2", "esc/U1/0", "esc/U1/1", "esc/U1/255", "esc/U2/0",
    "esc/U2/128", "esc/V1/0", "esc/ATT/0", "esc/ATT/1", "esc/ATT/255", "esc/ATT/128", "esc/U1/7", "esc/U2/254",
    "esc/ADM/3", "esc/M1/0", "esc/M1/9",
];
pub const DLP: &str = "DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh";

fn wallet(n: &str) -> Pubkey {
    let h = Sha256::digest(format!("wallet {n}").as_bytes());
    keypair_from_seed(&h).unwrap().pubkey()
}
impl Names {
    pub fn new() -> Self {
        let mut s = Names {
            by_name: HashMap::new(),
            by_key: HashMap::new(),
            pda: HashMap::new(),
            signers: WALLETS.iter().chain([&MULTI]).map(|x| x.to_string()).collect(),
        };
        let dlp = Pubkey::from_str(DLP).unwrap();
        let loader =
            Pubkey::from_str("BPFLoaderUpgradeab1e11111111111111111111111").unwrap();
        s.add("sys", Pubkey::default());
        s.add("dlp", dlp);
        s.add("LOADER", loader);
        s.add("NOOP", wallet("NOOP"));
        s.add("PROXY", wallet("PROXY"));
        for w in WALLETS.iter().chain(PROGS) {
            s.add(w, wallet(w));
        }
        let multi = Pubkey::find_program_address(&[b"multisig"], &s.key("PROXY")).0;
        s.add(MULTI, multi);
        let u1 = s.key("U1");
        let mut many: Vec<Vec<u8>> = (0..14u8).map(|i| vec![i; (i % 5) as usize]).collect();
        many.push(vec![7; 32]);
        s.add_pda("A1", "PROG", vec![b"test-pda".to_vec()]);
        s.add_pda("A2", "PROG", vec![b"".to_vec(), b"a2".to_vec(), u1.to_bytes().to_vec()]);
        s.add_pda("A3", "PROG", many);
        let (u2, v1) = (s.key("U2").to_bytes().to_vec(), s.key("V1").to_bytes().to_vec());
        s.add_pda("A4", "PROG", vec![u2.clone(), v1.clone()]);
        s.add_pda("A5", "PROG", vec![v1, b"a5".to_vec(), vec![], u2, vec![0], b"x".to_vec(), vec![1, 2, 3], vec![]]);
        s.add_pda("P1", "PROG", vec![b"old-session".to_vec()]);
        s.add_pda("C1", "PROG2", vec![b"c1".to_vec()]);
        for d in DELEGATABLE.iter().filter(|d| d.starts_with("esc/")) {
            let p: Vec<&str> = d.split('/').collect();
            let seeds = vec![
                b"balance".to_vec(),
                s.key(p[1]).to_bytes().to_vec(),
                vec![p[2].parse::<u8>().unwrap()],
            ];
            s.add_pda(d, "dlp", seeds);
        }
        let pda = |seeds: &[&[u8]], p: &Pubkey| Pubkey::find_program_address(seeds, p).0;
        let mut extra: Vec<(String, Pubkey)> = vec![];
        for d in DELEGATABLE {
            let k = s.key(d);
            for (n, t) in [
                ("rec", "delegation"),
                ("meta", "delegation-metadata"),
                ("cs", "state-diff"),
                ("cr", "commit-state-record"),
                ("ubuf", "undelegate-buffer"),
            ] {
                extra.push((format!("{n}/{d}"), pda(&[t.as_bytes(), k.as_ref()], &dlp)));
            }
            for o in ["sys", "PROG", "PROG2", "dlp"] {
                extra.push((format!("buf/{d}/{o}"), pda(&[b"buffer", k.as_ref()], &s.key(o))));
            }
        }
        extra.push(("fv".into(), pda(&[b"fees-vault"], &dlp)));
        for w in WALLETS.iter().chain([&MULTI]) {
            extra.push((format!("vv/{w}"), pda(&[b"v-fees-vault", s.key(w).as_ref()], &dlp)));
        }
        for p in ["PROG", "PROG2", "sys", "dlp"] {
            extra.push((format!("cfg/{p}"), pda(&[b"p-conf", s.key(p).as_ref()], &dlp)));
            extra.push((format!("pd/{p}"), pda(&[s.key(p).as_ref()], &loader)));
        }
        for (n, k) in extra {
            s.add(&n, k);
        }
        for w in WALLETS {
            assert!(s.key(w).is_on_curve());
        }
        s
    }
    fn add(&mut self, n: &str, k: Pubkey) {
        self.by_name.insert(n.to_string(), k);
        self.by_key.insert(k, n.to_string());
    }
    fn add_pda(&mut self, n: &str, prog: &str, seeds: Vec<Vec<u8>>) {
        let refs: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
        let k = Pubkey::find_program_address(&refs, &self.key(prog)).0;
        self.add(n, k);
        self.pda.insert(n.to_string(), (prog.to_string(), seeds));
    }
    /// Any universe name; escrows with an index outside the table are derived on the fly.
    pub fn key(&self, n: &str) -> Pubkey {
        if let Some(k) = self.by_name.get(n) {
            return *k;
        }
        if let Some(b) = n.strip_prefix('?') {
            if let Ok(k) = Pubkey::from_str(b) {
                return k;
            }
        }
        Pubkey::new_from_array(Sha256::digest(n.as_bytes()).into())
    }
    pub fn name(&self, k: &Pubkey) -> String {
        self.by_key.get(k).cloned().unwrap_or_else(|| format!("?{k}"))
    }
    pub fn derive(&self, seeds: &[Vec<u8>], prog: &Pubkey) -> String {
        if seeds.len() > 15 || seeds.iter().any(|x| x.len() > 32) {
            return "!".into();
        }
        let refs: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
        match Pubkey::try_find_program_address(&refs, prog) {
            Some((k, _)) => self.name(&k),
            None => "!".into(),
        }
    }
}

// ---------------------------------------------------------------- raw data
pub const LABELS: &[&str] = &["z", "d1", "d2", "d3", "d4", "d5", "d6", "t1", "t2", "h1", "m1", "k0", "k1", "k2", "k3", "f"];
pub fn data(n: usize, label: &str) -> Vec<u8> {
    let k: usize = label.get(1..).and_then(|x| x.parse().ok()).unwrap_or(0);
    match label.chars().next() {
        None => vec![],
        Some(_) if n == 0 => vec![],
        Some('z') => vec![0; n],
        Some('f') => vec![255; n],
        // begins like a record of this program
        Some('k') => (0..n).map(|i| if i == 0 { 100 + k as u8 } else if i < 8 { 0 } else { (i % 251) as u8 }).collect(),
        Some(c) => {
            let mut v: Vec<u8> = (0..n).map(|i| ((k * 37 + i * 11 + i / 255) % 255 + 1) as u8).collect();
            if c == 't' && n > 1 {
                let z = (n / 4).max(1);
                for b in v.iter_mut().skip(n - z) {
                    *b = 0;
                }
            }
            if c == 't' && n == 1 {
                v[0] = 0;
            }
            if c == 'h' && n > 1 {
                v[0] = 0;
            }
            if c == 'm' {
                v[n / 2] = v[n / 2] % 255 + 1;
            }
            v
        }
    }
}
fn raw(b: &[u8]) -> Value {
    let x = if b.is_empty() {
        String::new()
    } else {
        LABELS
            .iter()
            .find(|l| data(b.len(), l) == b)
            .map(|l| l.to_string())
            .unwrap_or_else(|| format!("#{}", &hex(&Sha256::digest(b))[..16]))
    };
    json!({"t":"raw","n":b.len(),"x":x})
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.take(32)?.try_into().unwrap()))
    }
    pub fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        Some(self.take(n)?.to_vec())
    }
    pub fn seeds(&mut self) -> Option<Vec<Vec<u8>>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.bytes()?);
        }
        Some(v)
    }
    pub fn end(&self) -> Option<()> {
        self.0.is_empty().then_some(())
    }
}
pub fn seeds_json(s: &[Vec<u8>]) -> Value {
    Value::Array(s.iter().map(|x| json!(hex(x))).collect())
}

fn decode_data(nm: &Names, name: &str, owner: &str, b: &[u8]) -> Value {
    let kind = name.split('/').next().unwrap();
    let r = (|| -> Option<Value> {
        let mut r = Rd(b);
        match (kind, owner) {
            ("rec", "dlp") => {
                if r.u64()? != 100 {
                    return None;
                }
                let (auth, own) = (nm.name(&r.key()?), nm.name(&r.key()?));
                let (slot, lam, freq) = (r.u64()?, r.u64()?, r.u64()?);
                r.end()?;
                Some(json!({"t":"rec","auth":auth,"own":own,"slot":num(slot),"lam":num(lam),"freq":num(freq)}))
            }
            ("meta", "dlp") => {
                if r.u64()? != 102 {
                    return None;
                }
                let (last, und, seeds, payer) = (r.u64()?, r.bool()?, r.seeds()?, nm.name(&r.key()?));
                r.end()?;
                Some(json!({"t":"meta","last":num(last),"und":und,"seeds":seeds_json(&seeds),"payer":payer}))
            }
            ("cr", "dlp") => {
                if r.u64()? != 101 {
                    return None;
                }
                let (id, acc) = (nm.name(&r.key()?), nm.name(&r.key()?));
                let (slot, lam) = (r.u64()?, r.u64()?);
                r.end()?;
                Some(json!({"t":"cr","id":id,"acc":acc,"slot":num(slot),"lam":num(lam)}))
            }
            ("cfg", "dlp") => {
                if r.u64()? != 103 {
                    return None;
                }
                let n = r.u32()?;
                let mut keys = vec![];
                for _ in 0..n {
                    keys.push(r.key()?);
                }
                r.end()?;
                if keys.windows(2).any(|w| w[0] >= w[1]) {
                    return None; // the established format is a sorted set
                }
                Some(json!({"t":"cfg","v":keys.iter().map(|k| nm.name(k)).collect::<Vec<_>>()}))
            }
            ("pd", "LOADER") => {
                if r.u32()? != 3 {
                    return None;
                }
                r.u64()?;
                let a = if r.bool()? { nm.name(&r.key()?) } else { "none".into() };
                Some(json!({"t":"pd","auth":a}))
            }
            _ => None,
        }
    })();
    r.unwrap_or_else(|| raw(b))
}
pub fn decode(nm: &Names, name: &str, lam: u64, owner: &Pubkey, b: &[u8]) -> Value {
    let o = nm.name(owner);
    json!({"l":num(lam),"o":o,"d":decode_data(nm, name, &o, b)})
}
pub fn decode_acc(nm: &Names, name: &str, a: &AccountSharedData) -> Value {
    decode(nm, name, a.lamports(), a.owner(), a.data())
}
pub fn s<'a>(v: &'a Value, f: &str) -> &'a str {
    v[f].as_str().unwrap_or_else(|| panic!("string field {f} missing in {v}"))
}
pub fn seeds_of(v: &Value) -> Vec<Vec<u8>> {
    v.as_array().unwrap().iter().map(|x| unhex(x.as_str().unwrap())).collect()
}
fn put_seeds(o: &mut Vec<u8>, v: &Value) {
    let sd = seeds_of(v);
    o.extend((sd.len() as u32).to_le_bytes());
    for x in sd {
        o.extend((x.len() as u32).to_le_bytes());
        o.extend(x);
    }
}
pub fn encode_data(nm: &Names, d: &Value) -> Vec<u8> {
    let mut o = vec![];
    let k = |o: &mut Vec<u8>, f: &str| o.extend(nm.key(s(d, f)).to_bytes());
    let u = |o: &mut Vec<u8>, f: &str| o.extend(unnum(&d[f]).to_le_bytes());
    match s(d, "t") {
        "raw" => return data(d["n"].as_u64().unwrap() as usize, s(d, "x")),
        "rec" => {
            o.extend(100u64.to_le_bytes());
            k(&mut o, "auth");
            k(&mut o, "own");
            u(&mut o, "slot");
            u(&mut o, "lam");
            u(&mut o, "freq");
        }
        "meta" => {
            o.extend(102u64.to_le_bytes());
            u(&mut o, "last");
            o.push(d["und"].as_bool().unwrap() as u8);
            put_seeds(&mut o, &d["seeds"]);
            k(&mut o, "payer");
        }
        "cr" => {
            o.extend(101u64.to_le_bytes());
            k(&mut o, "id");
            k(&mut o, "acc");
            u(&mut o, "slot");
            u(&mut o, "lam");
        }
        "cfg" => {
            o.extend(103u64.to_le_bytes());
            let mut v: Vec<Pubkey> =
                d["v"].as_array().unwrap().iter().map(|x| nm.key(x.as_str().unwrap())).collect();
            v.sort();
            o.extend((v.len() as u32).to_le_bytes());
            for x in v {
                o.extend(x.to_bytes());
            }
        }
        "pd" => {
            o.extend(3u32.to_le_bytes());
            o.extend(0u64.to_le_bytes());
            if s(d, "auth") == "none" {
                // the loader leaves the bytes of the last authority behind
                o.push(0);
                o.extend(nm.key("ADM").to_bytes());
            } else {
                o.push(1);
                k(&mut o, "auth");
            }
            // the program itself
            o.extend([0x7f, b'E', b'L', b'F']);
            o.extend([1u8; 28]);
        }
        t => panic!("data type {t}"),
    }
    o
}

// ---------------------------------------------------------------- instructions
pub const OPS: &[(&str, u8)] = &[
    ("delegate", 0),
    ("commit", 1),
    ("finalize", 2),
    ("undelegate", 3),
    ("initfv", 5),
    ("initvv", 6),
    ("vclaim", 7),
    ("wl", 8),
    ("topup", 9),
    ("delesc", 10),
    ("closeesc", 11),
    ("pclaim", 12),
    ("commitb", 13),
    ("closevv", 14),
];
/// (name, args); args.ok is false when the pinned argument layout does not decode.
pub fn decode_ix(nm: &Names, b: &[u8]) -> (String, Value) {
    let bad = json!({"ok": false});
    if b.len() < 8 {
        return ("?".into(), bad);
    }
    let Some((name, _)) = OPS.iter().find(|(_, c)| *c == b[0]) else {
        return ("?".into(), bad);
    };
    let mut r = Rd(&b[8..]);
    let dargs = |r: &mut Rd| -> Option<Map<String, Value>> {
        let (freq, seeds) = (r.u32()?, r.seeds()?);
        let val = if r.bool()? { nm.name(&r.key()?) } else { "sys".into() };
        Some(json!({"ok":true,"freq":num(freq as u64),"seeds":seeds_json(&seeds),"val":val}).as_object().unwrap().clone())
    };
    let a = (|| -> Option<Value> {
        let v = match *name {
            "delegate" => {
                let m = dargs(&mut r)?;
                r.end()?;
                Value::Object(m)
            }
            "delesc" => {
                let mut m = dargs(&mut r)?;
                m.insert("idx".into(), json!(r.u8()?));
                r.end()?;
                Value::Object(m)
            }
            "commit" => {
                let (slot, lam, und, d) = (r.u64()?, r.u64()?, r.bool()?, r.bytes()?);
                r.end()?;
                json!({"ok":true,"slot":num(slot),"lam":num(lam),"und":und,"d":raw(&d)})
            }
            "commitb" => {
                let (slot, lam, und) = (r.u64()?, r.u64()?, r.bool()?);
                r.end()?;
                json!({"ok":true,"slot":num(slot),"lam":num(lam),"und":und})
            }
            "vclaim" => {
                let v = if r.bool()? {
                    json!({"ok":true,"some":true,"amt":num(r.u64()?)})
                } else {
                    json!({"ok":true,"some":false,"amt":num(0)})
                };
                r.end()?;
                v
            }
            "wl" => {
                let v = json!({"ok":true,"ins":r.bool()?});
                r.end()?;
                v
            }
            "topup" => {
                let (amt, idx) = (r.u64()?, r.u8()?);
                r.end()?;
                json!({"ok":true,"amt":num(amt),"idx":idx})
            }
            "closeesc" => json!({"ok":true,"idx":r.u8()?}),
            _ => json!({"ok":true}),
        };
        Some(v)
    })();
    (name.to_string(), a.unwrap_or(bad))
}
