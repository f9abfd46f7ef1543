//! What everyone else reads: the stored records as the crate's public readers see them, and the
//! addresses its public helpers derive, against the harness's own decoder and derivations.
use crate::codec::*;
use dlp::state::{CommitRecord, DelegationMetadata, DelegationRecord, ProgramConfig};
use serde_json::{json, Value};
use solana_sdk::account::{AccountSharedData, ReadableAccount};

/// Whether the crate's own API disagrees with the established format about this account.
pub fn misread(nm: &Names, n: &str, a: &AccountSharedData, j: &Value) -> bool {
    let mut it = n.splitn(2, '/');
    let (kind, of) = (it.next().unwrap(), it.next().unwrap_or(""));
    if addr(nm, n, kind, of).is_some_and(|k| k != nm.key(n)) {
        return true;
    }
    if a.owner() != &nm.key("dlp") {
        return false;
    }
    // aligned copy
    let len = a.data().len();
    let mut words = vec![0u64; len / 8 + 1];
    let b = unsafe { std::slice::from_raw_parts_mut(words.as_mut_ptr() as *mut u8, len) };
    b.copy_from_slice(a.data());
    let b: &[u8] = b;
    let rec = DelegationRecord::try_from_bytes_with_discriminator(b).ok().copied();
    let meta = DelegationMetadata::try_from_bytes_with_discriminator(b).ok();
    let cr = CommitRecord::try_from_bytes_with_discriminator(b).ok().copied();
    let cfg = ProgramConfig::try_from_bytes_with_discriminator(b).ok();
    let d = &j["d"];
    let t = s(d, "t");
    // a record of one kind is never taken for one of another
    if [("rec", rec.is_some()), ("meta", meta.is_some()), ("cr", cr.is_some()), ("cfg", cfg.is_some())]
        .iter()
        .any(|(k, y)| ["rec", "meta", "cr", "cfg"].contains(&t) && *y != (*k == t))
    {
        return true;
    }
    let mut w: Vec<u8> = vec![];
    match t {
        "rec" => {
            let r = rec.unwrap();
            w.resize(len, 0);
            json!({"t":"rec","auth":nm.name(&r.authority),"own":nm.name(&r.owner),"slot":num(r.delegation_slot),
                "lam":num(r.lamports),"freq":num(r.commit_frequency_ms)}) != *d
                || DelegationRecord::size_with_discriminator() != len
                || r.to_bytes_with_discriminator(&mut w).is_err()
                || w != b
        }
        "cr" => {
            let r = cr.unwrap();
            w.resize(len, 0);
            json!({"t":"cr","id":nm.name(&r.identity),"acc":nm.name(&r.account),"slot":num(r.slot),"lam":num(r.lamports)}) != *d
                || CommitRecord::size_with_discriminator() != len
                || r.to_bytes_with_discriminator(&mut w).is_err()
                || w != b
        }
        "meta" => {
            let r = meta.unwrap();
            json!({"t":"meta","last":num(r.last_update_external_slot),"und":r.is_undelegatable,
                "seeds":seeds_json(&r.seeds),"payer":nm.name(&r.rent_payer)}) != *d
                || r.to_bytes_with_discriminator(&mut w).is_err()
                || w != b
        }
        "cfg" => {
            let r = cfg.unwrap();
            json!({"t":"cfg","v":r.approved_validators.iter().map(|k| nm.name(k)).collect::<Vec<_>>()}) != *d
                || r.size_with_discriminator() != len
                || r.to_bytes_with_discriminator(&mut w).is_err()
                || w != b
        }
        _ => false,
    }
}

fn addr(nm: &Names, n: &str, kind: &str, of: &str) -> Option<solana_sdk::pubkey::Pubkey> {
    use dlp::pda::*;
    Some(match kind {
        "rec" => delegation_record_pda_from_delegated_account(&nm.key(of)),
        "meta" => delegation_metadata_pda_from_delegated_account(&nm.key(of)),
        "cs" => commit_state_pda_from_delegated_account(&nm.key(of)),
        "cr" => commit_record_pda_from_delegated_account(&nm.key(of)),
        "ubuf" => undelegate_buffer_pda_from_delegated_account(&nm.key(of)),
        "buf" => {
            let (x, p) = of.rsplit_once('/')?;
            delegate_buffer_pda_from_delegated_account_and_owner_program(&nm.key(x), &nm.key(p))
        }
        "fv" if n == "fv" => fees_vault_pda(),
        "vv" => validator_fees_vault_pda_from_validator(&nm.key(of)),
        "cfg" => program_config_from_program_id(&nm.key(of)),
        "esc" => {
            let (u, i) = of.rsplit_once('/')?;
            ephemeral_balance_pda_from_payer(&nm.key(u), i.parse().ok()?)
        }
        _ => return None,
    })
}
