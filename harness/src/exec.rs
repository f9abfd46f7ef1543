//! Runs the steps of a behaviour on a real Solana bank with the program under test installed as
//! a native program, and records what happened.
use crate::codec::*;
use serde_json::{json, Map, Value};
use solana_program_runtime::{
    invoke_context::BuiltinFunctionWithContext, loaded_programs::ProgramCacheEntry,
};
use solana_program_test::processor;
use solana_runtime::{bank::Bank, bank_forks::BankForks, runtime_config::RuntimeConfig};
use solana_sdk::{
    account::{AccountSharedData, ReadableAccount},
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    fee_calculator::FeeRateGovernor,
    instruction::{AccountMeta, Instruction, InstructionError},
    message::Message,
    program_error::ProgramError,
    pubkey::Pubkey,
    rent::Rent,
    signature::Signature,
    system_instruction,
    transaction::{Transaction, TransactionError},
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock, RwLock};

static NAMES: OnceLock<Names> = OnceLock::new();
pub fn names() -> &'static Names {
    NAMES.get_or_init(Names::new)
}

#[derive(Default)]
struct Rec {
    events: Vec<Value>,
    stack: Vec<usize>,
    cb: String,
    script: Vec<Value>,
    next_script: usize,
}
thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

type Snap = Vec<(u64, Pubkey, Vec<u8>)>;
fn snap(a: &[AccountInfo]) -> Option<Snap> {
    a.iter()
        .map(|i| Some((**i.try_borrow_lamports().ok()?, *i.owner, i.try_borrow_data().ok()?.to_vec())))
        .collect()
}
fn snap_json(a: &[AccountInfo], s: &Snap) -> Value {
    let nm = names();
    let mut m = Map::new();
    for (i, (l, o, d)) in a.iter().zip(s) {
        let n = nm.name(i.key);
        if *l > 0 || !d.is_empty() || *o != Pubkey::default() {
            m.insert(n.clone(), decode(nm, &n, *l, o, d));
        } else {
            m.insert(n, json!({"l":[0,0,0],"o":"sys","d":{"t":"raw","n":0,"x":""}}));
        }
    }
    Value::Object(m)
}

/// The entry point registered for the program under test: logs the call, then runs it.
fn dlp_entry(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let nm = names();
    let pre = snap(accs).ok_or(ProgramError::AccountBorrowFailed)?;
    let (n, args) = decode_ix(nm, data);
    let mut dv = json!("");
    if (n == "delegate") && args["ok"] == json!(true) && accs.len() > 2 {
        let own = if nm.name(accs[2].key) == "sys" { nm.key("dlp") } else { *accs[2].key };
        dv = json!(nm.derive(&seeds_of(&args["seeds"]), &own));
    }
    let idx = REC.with(|r| {
        let mut r = r.borrow_mut();
        let ev = json!({
            "n": n, "args": args, "dv": dv,
            "a": accs.iter().map(|i| json!({"k":nm.name(i.key),"s":i.is_signer,"w":i.is_writable})).collect::<Vec<_>>(),
            "root": r.stack.is_empty(), "pre": snap_json(accs, &pre), "post": {}, "ok": false, "cb": r.cb,
        });
        r.events.push(ev);
        let i = r.events.len() - 1;
        r.stack.push(i);
        i
    });
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dlp::process_instruction(pid, accs, data)))
        .unwrap_or(Err(ProgramError::Custom(0xdead)));
    REC.with(|r| {
        r.borrow_mut().stack.pop();
    });
    res?;
    let post = snap(accs).ok_or(ProgramError::AccountBorrowFailed)?;
    // what the deployed runtime refuses but the native one overlooks
    for (i, (a, (p, q))) in accs.iter().zip(pre.iter().zip(post.iter())).enumerate() {
        let _ = i;
        if !a.is_writable && p != q {
            return Err(ProgramError::Custom(0xdea1));
        }
    }
    let (mut t0, mut t1) = (0u128, 0u128);
    let mut seen = vec![];
    for (a, (p, q)) in accs.iter().zip(pre.iter().zip(post.iter())) {
        if !seen.contains(a.key) {
            seen.push(*a.key);
            t0 += p.0 as u128;
            t1 += q.0 as u128;
        }
    }
    if t0 != t1 {
        return Err(ProgramError::Custom(0xdea2));
    }
    REC.with(|r| {
        let ev = &mut r.borrow_mut().events[idx];
        ev["post"] = snap_json(accs, &post);
        ev["ok"] = json!(true);
    });
    Ok(())
}

fn noop_entry(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    Ok(())
}

/// Calls on behalf of others: the first account is the program to call, the rest and the data are handed on;
/// if asked to, it signs for its own wallet.
fn proxy_entry(pid: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let multi = names().key(MULTI);
        let signs = data[0] == 1;
        let metas = a[1..].iter()
            .map(|i| AccountMeta { pubkey: *i.key, is_signer: i.is_signer || (signs && *i.key == multi), is_writable: i.is_writable })
            .collect();
        let ix = Instruction { program_id: *a[0].key, accounts: metas, data: data[1..].to_vec() };
        let bump = [Pubkey::find_program_address(&[b"multisig"], pid).1];
        let seeds: &[&[u8]] = &[b"multisig", &bump];
        let sets: &[&[&[u8]]] = if signs { &[seeds] } else { &[] };
        solana_program::program::invoke_signed(&ix, a, sets)
    }))
    .unwrap_or(Err(ProgramError::Custom(0xdead)))
}
fn through_proxy(ix: Instruction, asked: bool) -> Instruction {
    let nm = names();
    let multi = nm.key(MULTI);
    let signs = ix.accounts.iter().any(|m| m.is_signer && m.pubkey == multi);
    if !signs && !asked {
        return ix;
    }
    let mut accounts = vec![AccountMeta::new_readonly(ix.program_id, false)];
    accounts.extend(ix.accounts.into_iter().map(|m| AccountMeta { is_signer: m.is_signer && m.pubkey != multi, ..m }));
    let mut data = vec![signs as u8];
    data.extend(ix.data);
    Instruction { program_id: nm.key("PROXY"), accounts, data }
}

fn find<'a, 'b>(a: &'a [AccountInfo<'b>], k: &Pubkey) -> Result<&'a AccountInfo<'b>, ProgramError> {
    a.iter().find(|i| i.key == k).ok_or(ProgramError::NotEnoughAccountKeys)
}

/// create/fund/assign a PDA of `prog` the way ordinary owner programs do
#[allow(clippy::too_many_arguments)]
fn open_pda<'b>(
    a: &[AccountInfo<'b>], payer: &AccountInfo<'b>, t: &AccountInfo<'b>, n: usize, lam: u64,
    owner: &Pubkey, seeds: &[&[u8]],
) -> ProgramResult {
    use solana_program::program::invoke_signed;
    if t.lamports() == 0 {
        invoke_signed(&system_instruction::create_account(payer.key, t.key, lam, n as u64, owner), a, &[seeds])
    } else {
        let miss = lam.saturating_sub(t.lamports());
        if miss > 0 {
            invoke_signed(&system_instruction::transfer(payer.key, t.key, miss), a, &[])?;
        }
        invoke_signed(&system_instruction::allocate(t.key, n as u64), a, &[seeds])?;
        invoke_signed(&system_instruction::assign(t.key, owner), a, &[seeds])
    }
}

const UNDELEGATE_DISC: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];

/// Owner programs: a scripted delegation, and the undelegation call-back in several moods.
fn prog_entry(pid: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prog_run(pid, a, data)))
        .unwrap_or(Err(ProgramError::Custom(0xdead)))
}
fn prog_run(pid: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let nm = names();
    if data.len() >= 8 && data[..8] == UNDELEGATE_DISC {
        let cb = REC.with(|r| r.borrow().cb.clone());
        let [x, buf, payer, sys] = a else { return Err(ProgramError::NotEnoughAccountKeys) };
        let mut rd = Rd(&data[8..]);
        let seeds = rd.seeds().ok_or(ProgramError::InvalidInstructionData)?;
        if rd.end().is_none() || !buf.is_signer || !payer.is_signer || *sys.key != Pubkey::default() {
            return Err(ProgramError::InvalidArgument);
        }
        if nm.name(buf.key) != format!("ubuf/{}", nm.name(x.key)) {
            return Err(ProgramError::InvalidArgument);
        }
        let mut refs: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
        let (k, bump) = Pubkey::find_program_address(&refs, pid);
        if k != *x.key {
            return Err(ProgramError::InvalidSeeds);
        }
        let b = [bump];
        refs.push(&b);
        let d = buf.try_borrow_data()?.to_vec();
        let n = match cb.as_str() {
            "short" => d.len().saturating_sub(1),
            "long" => d.len() + 1,
            _ => d.len(),
        };
        let rent = Rent::default().minimum_balance(n);
        match cb.as_str() {
            "fail" => return Err(ProgramError::Custom(77)),
            "nothing" => return Ok(()),
            "over" => open_pda(a, payer, x, n, rent + 1000, pid, &refs)?,
            "under" => open_pda(a, payer, x, n, rent, pid, &refs)?,
            _ => open_pda(a, payer, x, n, rent, pid, &refs)?,
        }
        if cb != "zero" && cb != "other" {
            let m = n.min(d.len());
            x.try_borrow_mut_data()?[..m].copy_from_slice(&d[..m]);
        }
        match cb.as_str() {
            "wrong" => {
                let mut b = x.try_borrow_mut_data()?;
                let l = b.len();
                b[l - 1] ^= 1;
            }
            "wrong0" => x.try_borrow_mut_data()?[0] ^= 0x40,
            "under" => {
                // gives some of the account's lamports to the validator
                **x.try_borrow_mut_lamports()? -= 700;
                **payer.try_borrow_mut_lamports()? += 700;
            }
            "over2" => {
                // an additional transfer out of the validator's wallet
                solana_program::program::invoke(&system_instruction::transfer(payer.key, x.key, 1), a)?;
            }
            "other" => x.assign(&nm.key("PROG2")),
            _ => {}
        }
        return Ok(());
    }
    // scripted delegation
    let op = REC.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.next_script;
        r.next_script += 1;
        r.script.get(i).cloned()
    });
    let op = op.ok_or(ProgramError::InvalidInstructionData)?;
    let xk = nm.key(s(&op, "x"));
    let x = find(a, &xk)?;
    let payer = find(a, &nm.key(s(&op, "p")))?;
    let mode = s(&op, "mode");
    let me = nm.name(pid);
    let bufk = nm.key(&format!("buf/{}/{}", s(&op, "x"), me));
    let buf = find(a, &bufk)?;
    let own_seeds = nm.pda.get(s(&op, "x")).filter(|(p, _)| *p == me).map(|(_, s)| s.clone());
    let mut srefs: Vec<&[u8]> = vec![];
    let bump;
    if let Some(sd) = &own_seeds {
        srefs = sd.iter().map(|v| v.as_slice()).collect();
        bump = [Pubkey::find_program_address(&srefs, pid).1];
        srefs.push(&bump);
    }
    let n = x.data_len();
    let bump2 = [Pubkey::find_program_address(&[b"buffer", xk.as_ref()], pid).1];
    let bseeds: Vec<&[u8]> = vec![b"buffer", xk.as_ref(), &bump2];
    let use_buf = n > 0 && mode != "nobuf";
    if use_buf {
        let m = match mode {
            "sbuf" => n - 1,
            "lbuf" => n + 1,
            _ => n,
        };
        open_pda(a, payer, buf, m, Rent::default().minimum_balance(m), pid, &bseeds)?;
        let k = m.min(n);
        buf.try_borrow_mut_data()?[..k].copy_from_slice(&x.try_borrow_data()?[..k]);
    }
    if x.owner == pid && mode != "noassign" {
        for b in x.try_borrow_mut_data()?.iter_mut() {
            *b = 0;
        }
        x.assign(&nm.key("dlp"));
    }
    let inner = build(&json!({"op":"delegate","p":op["p"],"x":op["x"],"own":op["own"],"freq":op["freq"],
        "seeds":op["seeds"],"val":op["val"],"pin":op["pin"]}))
    .unwrap();
    let mut inner = mutate(inner, &op["in"]);
    if mode == "nosign" {
        for m in inner.accounts.iter_mut() {
            if m.pubkey == xk {
                m.is_signer = false;
            }
        }
    }
    let signers: Vec<&[&[u8]]> = if srefs.is_empty() { vec![] } else { vec![&srefs] };
    solana_program::program::invoke_signed(&inner, a, &signers)?;
    if use_buf {
        let l = buf.lamports();
        **buf.try_borrow_mut_lamports()? = 0;
        **payer.try_borrow_mut_lamports()? += l;
        buf.realloc(0, false)?;
        buf.assign(&Pubkey::default());
    }
    Ok(())
}

// ---------------------------------------------------------------- building instructions
fn k(op: &Value, f: &str) -> Pubkey {
    names().key(s(op, f))
}
fn u(op: &Value, f: &str) -> u64 {
    unnum(&op[f])
}
fn pin_meta(name: &str, sg: bool, w: bool) -> AccountMeta {
    AccountMeta { pubkey: names().key(name), is_signer: sg, is_writable: w }
}

/// The instruction as a client that predates the current tree builds it.
fn build_pinned(op: &Value) -> Option<Instruction> {
    let o = s(op, "op");
    let f = |n: &str| s(op, n).to_string();
    let code = OPS.iter().find(|(n, _)| *n == o)?.1;
    let mut d = (code as u64).to_le_bytes().to_vec();
    let dargs = |d: &mut Vec<u8>| {
        d.extend((u(op, "freq") as u32).to_le_bytes());
        let sd = seeds_of(&op["seeds"]);
        d.extend((sd.len() as u32).to_le_bytes());
        for x in sd {
            d.extend((x.len() as u32).to_le_bytes());
            d.extend(x);
        }
        if f("val") == "sys" {
            d.push(0);
        } else {
            d.push(1);
            d.extend(k(op, "val").to_bytes());
        }
    };
    let m = pin_meta;
    let (t, n) = (true, false);
    let accounts = match o {
        "delegate" => {
            dargs(&mut d);
            let x = f("x");
            vec![
                m(&f("p"), t, t), m(&x, t, t), m(&f("own"), n, n), m(&format!("buf/{x}/{}", f("own")), n, t),
                m(&format!("rec/{x}"), n, t), m(&format!("meta/{x}"), n, t), m("sys", n, n),
            ]
        }
        "commit" | "commitb" => {
            d.extend(u(op, "slot").to_le_bytes());
            d.extend(u(op, "lam").to_le_bytes());
            d.push(op["und"].as_bool().unwrap() as u8);
            let (v, x) = (f("v"), f("x"));
            let mut a = vec![
                m(&v, t, n), m(&x, n, n), m(&format!("cs/{x}"), n, t), m(&format!("cr/{x}"), n, t),
                m(&format!("rec/{x}"), n, n), m(&format!("meta/{x}"), n, t),
            ];
            if o == "commit" {
                let b = encode_data(names(), &op["d"]);
                d.extend((b.len() as u32).to_le_bytes());
                d.extend(b);
            } else {
                a.push(m(&f("buf"), n, n));
            }
            a.extend([m(&format!("vv/{v}"), n, n), m(&format!("cfg/{}", f("own")), n, n), m("sys", n, n)]);
            a
        }
        "finalize" => {
            let (v, x) = (f("v"), f("x"));
            vec![
                m(&v, t, n), m(&x, n, t), m(&format!("cs/{x}"), n, t), m(&format!("cr/{x}"), n, t),
                m(&format!("rec/{x}"), n, t), m(&format!("meta/{x}"), n, t), m(&format!("vv/{v}"), n, t), m("sys", n, n),
            ]
        }
        "undelegate" => {
            let (v, x) = (f("v"), f("x"));
            vec![
                m(&v, t, t), m(&x, n, t), m(&f("own"), n, n), m(&format!("ubuf/{x}"), n, t),
                m(&format!("cs/{x}"), n, n), m(&format!("cr/{x}"), n, n), m(&format!("rec/{x}"), n, t),
                m(&format!("meta/{x}"), n, t), m(&f("rp"), n, t), m("fv", n, t), m(&format!("vv/{v}"), n, t), m("sys", n, n),
            ]
        }
        "initfv" => vec![m(&f("p"), t, t), m("fv", n, t), m("sys", n, n)],
        "initvv" => vec![
            m(&f("p"), t, t), m(&f("adm"), t, t), m("pd/dlp", n, n), m(&f("v"), n, t), m(&format!("vv/{}", f("v")), n, t), m("sys", n, n),
        ],
        "closevv" => vec![
            m(&f("p"), t, t), m(&f("adm"), t, t), m("pd/dlp", n, n), m(&f("v"), n, t), m(&format!("vv/{}", f("v")), n, t),
        ],
        "vclaim" => {
            if op["some"].as_bool().unwrap() {
                d.push(1);
                d.extend(u(op, "amt").to_le_bytes());
            } else {
                d.push(0);
            }
            vec![m(&f("v"), t, t), m("fv", n, t), m(&format!("vv/{}", f("v")), n, t)]
        }
        "pclaim" => vec![m(&f("adm"), t, t), m("fv", n, t), m("pd/dlp", n, n)],
        "wl" => {
            d.push(op["ins"].as_bool().unwrap() as u8);
            let p = f("prog");
            vec![
                m(&f("auth"), t, t), m(&f("v"), n, n), m(&p, n, n), m(&format!("pd/{p}"), n, n), m("pd/dlp", n, n),
                m(&format!("cfg/{p}"), n, t), m("sys", n, n),
            ]
        }
        "topup" => {
            d.extend(u(op, "amt").to_le_bytes());
            d.push(u(op, "idx") as u8);
            vec![m(&f("p"), t, t), m(&f("u"), n, n), m(&format!("esc/{}/{}", f("u"), u(op, "idx")), n, t), m("sys", n, n)]
        }
        "delesc" => {
            dargs(&mut d);
            d.push(u(op, "idx") as u8);
            let e = format!("esc/{}/{}", f("u"), u(op, "idx"));
            vec![
                m(&f("p"), t, t), m(&f("u"), t, n), m(&e, n, t), m(&format!("buf/{e}/sys"), n, t),
                m(&format!("rec/{e}"), n, t), m(&format!("meta/{e}"), n, t), m("sys", n, n), m("dlp", n, n),
            ]
        }
        "closeesc" => {
            d.push(u(op, "idx") as u8);
            vec![m(&f("u"), t, t), m(&format!("esc/{}/{}", f("u"), u(op, "idx")), n, t), m("sys", n, n)]
        }
        _ => return None,
    };
    Some(Instruction { program_id: names().key("dlp"), accounts, data: d })
}

/// The instruction as the repository's client library builds it.
fn build_lib(op: &Value) -> Option<Instruction> {
    use dlp::args::*;
    use dlp::instruction_builder as ib;
    let val = |op: &Value| (s(op, "val") != "sys").then(|| k(op, "val"));
    // what equals the library's defaults is left to them
    let da = |op: &Value| {
        let mut a = DelegateArgs::default();
        if u(op, "freq") != 0 {
            a.commit_frequency_ms = u(op, "freq") as u32;
        }
        if !seeds_of(&op["seeds"]).is_empty() {
            a.seeds = seeds_of(&op["seeds"]);
        }
        if val(op).is_some() {
            a.validator = val(op);
        }
        a
    };
    let idx = || u(op, "idx") as u8;
    Some(match s(op, "op") {
        "delegate" => ib::delegate(
            k(op, "p"), k(op, "x"), if s(op, "own") == "sys" { None } else { Some(k(op, "own")) }, da(op),
        ),
        "commit" => ib::commit_state(k(op, "v"), k(op, "x"), k(op, "own"), CommitStateArgs {
            slot: u(op, "slot"), lamports: u(op, "lam"), allow_undelegation: op["und"].as_bool().unwrap(),
            data: encode_data(names(), &op["d"]),
        }),
        "commitb" => ib::commit_state_from_buffer(k(op, "v"), k(op, "x"), k(op, "own"), k(op, "buf"),
            CommitStateFromBufferArgs {
                slot: u(op, "slot"), lamports: u(op, "lam"), allow_undelegation: op["und"].as_bool().unwrap(),
            }),
        "finalize" => ib::finalize(k(op, "v"), k(op, "x")),
        "undelegate" => ib::undelegate(k(op, "v"), k(op, "x"), k(op, "own"), k(op, "rp")),
        "initfv" => ib::init_protocol_fees_vault(k(op, "p")),
        "initvv" => ib::init_validator_fees_vault(k(op, "p"), k(op, "adm"), k(op, "v")),
        "closevv" => ib::close_validator_fees_vault(k(op, "p"), k(op, "adm"), k(op, "v")),
        "vclaim" => ib::validator_claim_fees(k(op, "v"), op["some"].as_bool().unwrap().then(|| u(op, "amt"))),
        "pclaim" => ib::protocol_claim_fees(k(op, "adm")),
        "wl" => ib::whitelist_validator_for_program(k(op, "auth"), k(op, "v"), k(op, "prog"), op["ins"].as_bool().unwrap()),
        "topup" => {
            let amt = u(op, "amt");
            ib::top_up_ephemeral_balance(
                k(op, "p"), k(op, "u"), (amt != 10_000).then_some(amt),
                (idx() != 0 || amt % 3 == 0).then(idx),
            )
        }
        "delesc" => {
            let mut a = DelegateEphemeralBalanceArgs { delegate_args: da(op), ..Default::default() };
            if idx() != 0 {
                a.index = idx();
            }
            ib::delegate_ephemeral_balance(k(op, "p"), k(op, "u"), a)
        }
        "closeesc" => ib::close_ephemeral_balance(k(op, "u"), idx()),
        _ => return None,
    })
}

pub fn build(op: &Value) -> Option<Instruction> {
    if op["pin"] == json!(true) {
        return build_pinned(op);
    }
    std::panic::catch_unwind(|| build_lib(op)).unwrap_or(None)
}

fn mutate(mut ix: Instruction, muts: &Value) -> Instruction {
    let nm = names();
    let Some(ms) = muts.as_array() else { return ix };
    for m in ms {
        let i = m["i"].as_u64().unwrap_or(1) as usize;
        let j = i.wrapping_sub(1); // the specification counts from 1
        let kind = s(m, "m");
        // an earlier mutation may have removed what this one refers to
        if ["swap", "nosig", "sig", "ro", "rw", "drop", "exch"].contains(&kind)
            && (j >= ix.accounts.len() || m["j"].as_u64().unwrap_or(1) as usize > ix.accounts.len())
        {
            continue;
        }
        match kind {
            "swap" => ix.accounts[j].pubkey = nm.key(s(m, "k")),
            "nosig" => ix.accounts[j].is_signer = false,
            "sig" => ix.accounts[j].is_signer = true,
            "ro" => ix.accounts[j].is_writable = false,
            "rw" => ix.accounts[j].is_writable = true,
            "drop" => {
                ix.accounts.remove(j);
            }
            "push" => ix.accounts.push(AccountMeta::new_readonly(nm.key(s(m, "k")), false)),
            "exch" => ix.accounts.swap(j, m["j"].as_u64().unwrap() as usize - 1),
            "trunc" => {
                let l = ix.data.len().saturating_sub(i);
                ix.data.truncate(l)
            }
            "ext" => ix.data.extend(vec![0u8; i]),
            "code" => {
                if let Some(b) = ix.data.first_mut() {
                    *b = i as u8;
                }
            }
            "byte" => {
                // overwrite one argument byte (after the instruction code)
                let p = 8 + m["j"].as_u64().unwrap() as usize;
                if p < ix.data.len() {
                    ix.data[p] = i as u8;
                }
            }
            x => panic!("mutation {x}"),
        }
    }
    ix
}

// ---------------------------------------------------------------- world
pub struct World {
    bank: Arc<Bank>,
    _forks: Arc<RwLock<BankForks>>,
    pub live: BTreeMap<String, AccountSharedData>,
    saved: Vec<(BTreeMap<String, AccountSharedData>, u64)>,
    slot: u64,
    nonce: u64,
    pub out: Vec<Value>,
    pub txs: u64,
}

impl World {
    pub fn new() -> Self {
        let kp = solana_sdk::signature::Keypair::new();
        let mut g = solana_runtime::genesis_utils::create_genesis_config_with_leader_ex(
            1_000_000_000_000,
            &solana_sdk::signature::Signer::pubkey(&kp),
            &Pubkey::new_unique(),
            &Pubkey::new_unique(),
            &Pubkey::new_unique(),
            1_000_000_000,
            1_000_000_000,
            FeeRateGovernor::new(0, 0),
            Rent::default(),
            solana_sdk::genesis_config::ClusterType::Development,
            vec![],
        );
        g.fee_rate_governor = FeeRateGovernor::new(0, 0);
        let bank = Bank::new_with_paths(
            &g, Arc::new(RuntimeConfig::default()), vec![], None, None, false, None, None, None,
            Arc::default(), None, None,
        );
        let nm = names();
        let d: Option<BuiltinFunctionWithContext> = processor!(dlp_entry);
        let p: Option<BuiltinFunctionWithContext> = processor!(prog_entry);
        let n: Option<BuiltinFunctionWithContext> = processor!(noop_entry);
        let v: Option<BuiltinFunctionWithContext> = processor!(proxy_entry);
        assert_eq!(dlp::id(), nm.key("dlp"), "program id changed");
        bank.add_builtin(nm.key("dlp"), "dlp", ProgramCacheEntry::new_builtin(0, 3, d.unwrap()));
        for q in PROGS {
            bank.add_builtin(nm.key(q), q, ProgramCacheEntry::new_builtin(0, 4, p.unwrap()));
        }
        bank.add_builtin(nm.key("PROXY"), "proxy", ProgramCacheEntry::new_builtin(0, 4, v.unwrap()));
        bank.add_builtin(nm.key("NOOP"), "noop", ProgramCacheEntry::new_builtin(0, 4, n.unwrap()));
        let forks = BankForks::new_rw_arc(bank);
        let root = forks.read().unwrap().root_bank();
        let bank = Bank::new_from_parent(root, &Pubkey::new_unique(), 5);
        let bank = forks.write().unwrap().insert(bank).clone_without_scheduler();
        World {
            bank, _forks: forks, live: BTreeMap::new(), saved: vec![], slot: 5, nonce: 0, out: vec![], txs: 0,
        }
    }

    fn store(&mut self, n: &str, a: Option<AccountSharedData>) {
        let key = names().key(n);
        match a {
            Some(a) if a.lamports() > 0 => {
                self.bank.store_account(&key, &a);
                self.live.insert(n.to_string(), a);
            }
            _ => {
                if self.live.remove(n).is_some() {
                    self.bank.store_account(&key, &AccountSharedData::default());
                }
            }
        }
    }
    fn acc(&self, v: &Value) -> AccountSharedData {
        let nm = names();
        let mut a = AccountSharedData::new(unnum(&v["l"]), 0, &nm.key(s(v, "o")));
        a.set_data_from_slice(&encode_data(nm, &v["d"]));
        a
    }
    fn set_slot(&mut self, sl: u64) {
        self.slot = sl;
        let c = Clock {
            slot: sl,
            epoch_start_timestamp: 1_700_000_000 + (sl / 432_000 * 172_800) as i64,
            epoch: sl / 432_000,
            leader_schedule_epoch: sl / 432_000 + 1,
            unix_timestamp: 1_700_000_000 + (sl / 5 * 2) as i64,
        };
        self.bank.set_sysvar_for_tests(&c);
    }
    fn dump(&self) -> Value {
        let nm = names();
        Value::Object(self.live.iter().map(|(n, a)| (n.clone(), decode_acc(nm, n, a))).collect())
    }

    pub fn run(&mut self, steps: &[Value]) {
        for st in steps {
            match s(st, "k") {
                "init" => {
                    let names: Vec<String> = self.live.keys().cloned().collect();
                    for n in names {
                        self.store(&n, None);
                    }
                    self.saved.clear();
                    for (n, v) in st["acc"].as_object().unwrap() {
                        let a = self.acc(v);
                        self.store(n, Some(a));
                    }
                    let sl = unnum(&st["slot"]);
                    self.set_slot(sl);
                    self.out.push(json!({"k":"init","slot":num(sl),"acc":self.dump()}));
                }
                "env" => {
                    for (n, v) in st["acc"].as_object().unwrap() {
                        let a = self.acc(v);
                        self.store(n, Some(a));
                    }
                    let nm = names();
                    let p: Map<String, Value> = st["acc"].as_object().unwrap().keys()
                        .map(|n| (n.clone(), self.live.get(n).map(|a| decode_acc(nm, n, a))
                            .unwrap_or(json!({"l":[0,0,0],"o":"sys","d":{"t":"raw","n":0,"x":""}})))).collect();
                    self.out.push(json!({"k":"env","post":p}));
                }
                "slot" => {
                    let sl = unnum(&st["slot"]);
                    self.set_slot(sl);
                    self.out.push(json!({"k":"slot","slot":num(sl)}));
                }
                "push" => {
                    self.saved.push((self.live.clone(), self.slot));
                    self.out.push(json!({"k":"push"}));
                }
                "pop" => {
                    let (old, sl) = self.saved.pop().expect("push before pop");
                    let cur: Vec<String> = self.live.keys().cloned().collect();
                    for n in cur {
                        if !old.contains_key(&n) {
                            self.store(&n, None);
                        }
                    }
                    for (n, a) in old {
                        if self.live.get(&n) != Some(&a) {
                            self.store(&n, Some(a));
                        }
                    }
                    if sl != self.slot {
                        self.set_slot(sl);
                    }
                    let mut o = st.clone();
                    o["k"] = json!("pop");
                    self.out.push(o);
                }
                "cmp" => self.out.push(st.clone()),
                "tx" => {
                    self.tx(st);
                }
                "rel" => self.release(st),
                x => panic!("step {x}"),
            }
        }
    }

    /// Runs one transaction; returns whether it succeeded.
    pub fn tx(&mut self, st: &Value) -> bool {
        let nm = names();
        let ops = st["ops"].as_array().unwrap();
        let fp = st["fp"].as_str().unwrap_or("FEE");
        let mut ixs: Vec<Instruction> = vec![];
        let mut scripts = vec![];
        let mut unbuildable = false;
        for op in ops {
            match s(op, "op") {
                "xfer" => ixs.push(system_instruction::transfer(&k(op, "from"), &k(op, "to"), u(op, "amt"))),
                "assign" => ixs.push(system_instruction::assign(&k(op, "x"), &k(op, "to"))),
                "pdel" => {
                    let x = s(op, "x");
                    let prog = s(op, "prog");
                    let mut a = vec![
                        AccountMeta::new(k(op, "p"), true),
                        AccountMeta::new(k(op, "x"), nm.signers.contains(&x.to_string())),
                        AccountMeta::new_readonly(nm.key(prog), false),
                        AccountMeta::new(nm.key(&format!("buf/{x}/{prog}")), false),
                        AccountMeta::new(nm.key(&format!("rec/{x}")), false),
                        AccountMeta::new(nm.key(&format!("meta/{x}")), false),
                        AccountMeta::new_readonly(nm.key("dlp"), false),
                        AccountMeta::new_readonly(nm.key("sys"), false),
                    ];
                    // whatever else the inner call names
                    let inner = build(&json!({"op":"delegate","p":op["p"],"x":op["x"],"own":op["own"],"freq":op["freq"],
                        "seeds":op["seeds"],"val":op["val"],"pin":op["pin"]}));
                    match inner {
                        None => unbuildable = true,
                        Some(i) => {
                            for m in mutate(i, &op["in"]).accounts {
                                if !a.iter().any(|y| y.pubkey == m.pubkey) {
                                    a.push(AccountMeta { is_signer: false, ..m });
                                }
                            }
                        }
                    }
                    scripts.push(op.clone());
                    ixs.push(Instruction { program_id: nm.key(prog), accounts: a, data: vec![0xff] });
                }
                _ => match build(op) {
                    Some(i) => ixs.push(mutate(i, &op["mut"])),
                    None => unbuildable = true,
                },
            }
        }
        if ixs.len() == ops.len() {
            ixs = ixs.into_iter().zip(ops).map(|(i, op)| through_proxy(i, op["via"] == json!(true))).collect();
        }
        self.nonce += 1;
        let n_ix = ixs.len();
        // programs are never writable
        let progs: Vec<Pubkey> = ["sys", "dlp", "NOOP", "PROG", "PROG2", "PROXY", "LOADER"].iter().map(|p| nm.key(p)).collect();
        for m in ixs.iter_mut().flat_map(|i| i.accounts.iter_mut()) {
            if progs.contains(&m.pubkey) {
                m.is_writable = false;
            }
        }
        ixs.push(Instruction { program_id: nm.key("NOOP"), accounts: vec![], data: self.nonce.to_le_bytes().to_vec() });
        let mut msg = Message::new(&ixs, Some(&nm.key(fp)));
        msg.recent_blockhash = self.bank.last_blockhash();
        let ns = msg.header.num_required_signatures as usize;
        // a transaction that asks for the signature of a program address cannot be sent
        for sg in &msg.account_keys[..ns] {
            unbuildable |= !nm.signers.contains(&nm.name(sg)) || nm.name(sg) == MULTI;
        }
        let mut tx = Transaction::new_unsigned(msg);
        let mut sig = [0u8; 64];
        sig[..8].copy_from_slice(&self.nonce.to_le_bytes());
        tx.signatures = vec![Signature::from(sig); ns];
        REC.with(|r| {
            *r.borrow_mut() = Rec {
                cb: st["cb"].as_str().unwrap_or("honest").to_string(),
                script: scripts,
                ..Rec::default()
            }
        });
        let res = if unbuildable { Err(TransactionError::SanitizeFailure) } else { self.bank.process_transaction_with_metadata(tx.clone()).and_then(|c| c.status) };
        self.txs += 1;
        let events = REC.with(|r| std::mem::take(&mut r.borrow_mut().events));
        let mut post = Map::new();
        let mut misread: Vec<String> = vec![];
        let mut keys: Vec<(String, Pubkey)> = tx.message.account_keys.iter().map(|x| (nm.name(x), *x)).collect();
        keys.sort();
        for (n, key) in keys {
            if ["sys", "dlp", "NOOP", "PROG", "PROG2", "PROXY", "LOADER"].contains(&n.as_str()) {
                continue;
            }
            let now = self.bank.get_account(&key).filter(|a| a.lamports() > 0);
            if now.as_ref() != self.live.get(&n) {
                let j = now.as_ref().map(|a| decode_acc(nm, &n, a))
                    .unwrap_or(json!({"l":[0,0,0],"o":"sys","d":{"t":"raw","n":0,"x":""}}));
                if now.as_ref().is_some_and(|a| crate::reader::misread(nm, &n, a, &j)) {
                    misread.push(n.clone());
                }
                post.insert(n.clone(), j);
                match now {
                    Some(a) => self.live.insert(n, a),
                    None => self.live.remove(&n),
                };
            }
        }
        let (ei, et, es) = match &res {
            Ok(()) => (-1, "none", String::new()),
            Err(TransactionError::InstructionError(i, e)) => {
                let t = if (*i as usize) < n_ix { "ix" } else { "other" };
                (*i as i64, t, match e { InstructionError::Custom(c) => format!("Custom({c:#x})"), e => format!("{e:?}") })
            }
            Err(e @ TransactionError::InsufficientFundsForRent { .. }) => (-1, "rent", format!("{e:?}")),
            Err(e) => (-1, "other", format!("{e:?}")),
        };
        let ok = res.is_ok();
        self.out.push(json!({
            "k":"tx","fp":fp,"ops":ops,"cb":st["cb"].as_str().unwrap_or("honest"),"ok":ok,"ei":ei,"et":et,"es":es,
            "h": st["h"].as_bool().unwrap_or(false), "tag": st["tag"].as_str().unwrap_or(""),
            "ev":events,"post":post,"misread":misread,
        }));
        ok
    }

    fn field(&self, name: &str, owner: &str) -> Option<Value> {
        let nm = names();
        let a = self.live.get(name)?;
        let v = decode_acc(nm, name, a);
        (v["o"] == json!(owner)).then(|| v["d"].clone())
    }

    /// Brings a delegated account home as its users would: whoever committed finalizes, an
    /// approved validator stages a last permitting commit, finalizes and undelegates.
    fn release(&mut self, st: &Value) {
        let x = s(st, "x").to_string();
        let start = self.out.len();
        let mut done = false;
        let ended = (|| -> Option<String> {
            let nm = names();
            let tx1 = |w: &mut World, fp: &str, op: Value| w.tx(&json!({"k":"tx","fp":fp,"ops":[op],"h":true,"tag":"rel"}));
            let rec = self.field(&format!("rec/{x}"), "dlp")?;
            if rec["t"] != json!("rec") {
                return Some("unreadable record".into());
            }
            let own = s(&rec, "own").to_string();
            // vault of the protocol, funds for the account and for the validators
            let need = |w: &mut World, n: &str, l: u64| {
                let a = w.live.get(n).map(|a| a.lamports()).unwrap_or(0);
                if a < l {
                    tx1(w, "FEE", json!({"op":"xfer","from":"FEE","to":n,"amt":num(l - a)}));
                }
            };
            if self.field("fv", "dlp").is_none() {
                tx1(self, "FEE", json!({"op":"initfv","p":"FEE"}));
            }
            let adm = self.field("pd/dlp", "LOADER").filter(|d| d["t"] == json!("pd")).map(|d| s(&d, "auth").to_string())
                .filter(|a| nm.signers.contains(a));
            let admit = |w: &mut World, v: &str| {
                if w.field(&format!("vv/{v}"), "dlp").is_none() {
                    if let Some(a) = &adm {
                        tx1(w, "FEE", json!({"op":"initvv","p":"FEE","adm":a,"v":v}));
                    }
                }
            };
            // a pending commit belongs to its committer
            for _ in 0..2 {
                if let Some(cr) = self.field(&format!("cr/{x}"), "dlp") {
                    if cr["t"] != json!("cr") {
                        return Some("unreadable commit".into());
                    }
                    let v = s(&cr, "id").to_string();
                    admit(self, &v);
                    need(self, &v, 10_000_000);
                    // restore rent exemption of the account after settlement
                    let n = self.live.get(&format!("cs/{x}")).map(|a| a.data().len()).unwrap_or(0);
                    let min = Rent::default().minimum_balance(n);
                    let have = self.live.get(&x).map(|a| a.lamports()).unwrap_or(0);
                    let (rl, cl) = (unnum(&rec["lam"]), unnum(&cr["lam"]));
                    let after = have.saturating_sub(rl.saturating_sub(cl)).saturating_add(cl.saturating_sub(rl));
                    if after < min {
                        tx1(self, "FEE", json!({"op":"xfer","from":"FEE","to":x,"amt":num(min - after)}));
                    }
                    tx1(self, &v, json!({"op":"finalize","v":v,"x":x}));
                }
            }
            let meta = self.field(&format!("meta/{x}"), "dlp")?;
            if meta["t"] != json!("meta") {
                return Some("unreadable metadata".into());
            }
            let cfg = self.field(&format!("cfg/{own}"), "dlp");
            let v = match &cfg {
                Some(c) => c["v"].as_array().and_then(|l| l.iter().filter_map(|x| x.as_str())
                    .find(|x| nm.signers.contains(&x.to_string()) && !["W1", "W2", "SB1", "SB2", MULTI].contains(x)).map(|x| x.to_string())),
                None => Some("V1".to_string()),
            };
            let v = match v {
                Some(v) => v,
                None => {
                    // nobody approved: the administrator approves one
                    let a = adm.clone()?;
                    need(self, &a, 100_000_000);
                    tx1(self, "FEE", json!({"op":"wl","auth":a,"v":"V1","prog":own,"ins":true}));
                    "V1".to_string()
                }
            };
            admit(self, &v);
            need(self, &v, 200_000_000);
            if meta["und"] == json!(false) {
                let a = self.live.get(&x)?.clone();
                let d = decode_acc(nm, &x, &a)["d"].clone();
                let rec = self.field(&format!("rec/{x}"), "dlp")?;
                let known = d["x"].as_str().map(|l| !l.starts_with('#')).unwrap_or(false);
                // data that no program could take back is given up
                let home = nm.pda.get(&x).map(|(p, _)| *p == own && PROGS.contains(&p.as_str())).unwrap_or(false);
                let (d, n) = if !home { (json!({"t":"raw","n":0,"x":""}), 0) } else if known { (d, a.data().len()) } else { (json!({"t":"raw","n":a.data().len(),"x":"d1"}), a.data().len()) };
                if n > 10_240 {
                    return Some("too large to recommit".into());
                }
                // at the recorded balance
                tx1(self, &v, json!({"op":"commit","v":v,"x":x,"own":own,"slot":meta["last"],"lam":rec["lam"],"und":true,"d":d}));
                tx1(self, &v, json!({"op":"finalize","v":v,"x":x}));
            }
            let a = self.live.get(&x)?.clone();
            let min = Rent::default().minimum_balance(a.data().len());
            if a.lamports() < min {
                tx1(self, "FEE", json!({"op":"xfer","from":"FEE","to":x,"amt":num(min - a.lamports())}));
            }
            let rp = s(&meta, "payer").to_string();
            done = tx1(self, &v, json!({"op":"undelegate","v":v,"x":x,"own":own,"rp":rp}));
            None
        })();
        let n = self.out.len() - start;
        self.out.push(json!({"k":"reld","x":x,"done":done,"note":ended.unwrap_or_default(),"txs":n}));
    }
}
