//! The programs of the in-process cluster: the real program and the real token processors, and recording stand-ins for
//! the programs whose code is not here.
use crate::abi::*;
use crate::svm::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program as sp;
use borsh::{BorshDeserialize, BorshSerialize};
use sp::account_info::AccountInfo;
use sp::entrypoint::ProgramResult;
use sp::instruction::{AccountMeta, Instruction};
use sp::program_error::ProgramError as E;
use std::collections::HashMap;

fn dbc<'a>(p: &Pubkey, a: &'a [AccountInfo<'a>], d: &[u8]) -> ProgramResult {
    dynamic_bonding_curve::entry(p, a, d)
}
fn token<'a>(p: &Pubkey, a: &'a [AccountInfo<'a>], d: &[u8]) -> ProgramResult {
    spl_token::processor::Processor::process(p, a, d)
}
fn token22<'a>(p: &Pubkey, a: &'a [AccountInfo<'a>], d: &[u8]) -> ProgramResult {
    spl_token_2022::processor::Processor::process(p, a, d)
}

pub fn table() -> HashMap<Pubkey, Program> {
    let mut t = HashMap::new();
    t.insert(DBC, Program::Native(dbc));
    t.insert(TOKEN, Program::Native(token));
    t.insert(TOKEN22, Program::Native(token22));
    t.insert(SYSTEM, Program::StandIn(system));
    t.insert(MPL, Program::StandIn(mpl));
    t.insert(PROXY, Program::StandIn(proxy));
    t.insert(PROXY2, Program::StandIn(proxy));
    t.insert(ATA, Program::StandIn(noop));
    t.insert(NOOP, Program::StandIn(noop));
    crate::ext::register(&mut t);
    t
}
pub const NOOP: Pubkey = Pubkey::new_from_array([0x79; 32]);

fn noop(_: &mut Inv) -> ProgramResult {
    Ok(())
}

fn u32at(d: &[u8], o: usize) -> Result<u32, E> {
    Ok(u32::from_le_bytes(d.get(o..o + 4).ok_or(E::InvalidInstructionData)?.try_into().unwrap()))
}
fn u64at(d: &[u8], o: usize) -> Result<u64, E> {
    Ok(u64::from_le_bytes(d.get(o..o + 8).ok_or(E::InvalidInstructionData)?.try_into().unwrap()))
}
fn keyat(d: &[u8], o: usize) -> Result<Pubkey, E> {
    Ok(Pubkey::new_from_array(d.get(o..o + 32).ok_or(E::InvalidInstructionData)?.try_into().unwrap()))
}

fn need(c: bool, e: E) -> ProgramResult {
    if c {
        Ok(())
    } else {
        Err(e)
    }
}

pub fn system(i: &mut Inv) -> ProgramResult {
    let d = i.data.clone();
    match u32at(&d, 0)? {
        0 => {
            let (lamports, space, owner) = (u64at(&d, 4)?, u64at(&d, 12)?, keyat(&d, 20)?);
            let (from, to) = (i.key(0)?, i.key(1)?);
            need(i.signer(0) && i.signer(1), E::MissingRequiredSignature)?;
            let mut f = i.get(&from);
            let mut t = i.get(&to);
            need(t.lamports == 0 && t.data.is_empty() && t.owner == SYSTEM, E::Custom(0))?;
            need(f.owner == SYSTEM && f.data.is_empty() && from != to, E::InvalidArgument)?;
            f.lamports = f.lamports.checked_sub(lamports).ok_or(E::Custom(1))?;
            need(space <= 10 * 1024 * 1024, E::Custom(3))?;
            t.lamports = lamports;
            t.data = vec![0; space as usize];
            t.owner = owner;
            i.put(&from, f);
            i.put(&to, t);
        }
        1 => {
            let owner = keyat(&d, 4)?;
            let k = i.key(0)?;
            let mut a = i.get(&k);
            if a.owner != owner {
                need(i.signer(0), E::MissingRequiredSignature)?;
                need(a.owner == SYSTEM, E::Custom(0))?;
                a.owner = owner;
                i.put(&k, a);
            }
        }
        2 => {
            let lamports = u64at(&d, 4)?;
            let (from, to) = (i.key(0)?, i.key(1)?);
            need(i.signer(0), E::MissingRequiredSignature)?;
            let mut f = i.get(&from);
            need(f.owner == SYSTEM && f.data.is_empty(), E::InvalidArgument)?;
            need(i.writable(0) && i.writable(1), E::Custom(rt::READONLY_LAMPORT))?;
            f.lamports = f.lamports.checked_sub(lamports).ok_or(E::Custom(1))?;
            i.put(&from, f);
            let mut t = i.get(&to);
            t.lamports += lamports;
            i.put(&to, t);
        }
        8 => {
            let space = u64at(&d, 4)?;
            let k = i.key(0)?;
            need(i.signer(0), E::MissingRequiredSignature)?;
            let mut a = i.get(&k);
            need(a.data.is_empty() && a.owner == SYSTEM, E::Custom(0))?;
            need(space <= 10 * 1024 * 1024, E::Custom(3))?;
            a.data = vec![0; space as usize];
            i.put(&k, a);
        }
        _ => return Err(E::InvalidInstructionData),
    }
    Ok(())
}

/// what the metadata stand-in keeps
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug, PartialEq, Default)]
pub struct MetaRec {
    pub update_authority: [u8; 32],
    pub mint: [u8; 32],
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub seller_fee: u16,
    pub is_mutable: bool,
    pub extras: bool,
}
pub const META_LEN: usize = 607;

#[derive(BorshDeserialize)]
struct Creator {
    _a: [u8; 32],
    _v: bool,
    _s: u8,
}
#[derive(BorshDeserialize)]
struct DataV2 {
    name: String,
    symbol: String,
    uri: String,
    seller: u16,
    creators: Option<Vec<Creator>>,
    collection: Option<(bool, [u8; 32])>,
    uses: Option<(u8, u64, u64)>,
}

fn mpl(i: &mut Inv) -> ProgramResult {
    let mut d: &[u8] = &i.data[..];
    let tag = u8::deserialize(&mut d)?;
    match tag {
        33 => {
            let data = DataV2::deserialize(&mut d)?;
            let is_mutable = bool::deserialize(&mut d)?;
            let (meta, mint, mint_auth, payer, ua) = (i.key(0)?, i.key(1)?, i.key(2)?, i.key(3)?, i.key(4)?);
            need(meta == mpl_metadata(&mint), E::InvalidSeeds)?;
            need(i.signer(2) && i.signer(3), E::MissingRequiredSignature)?;
            let m = i.get(&mint);
            need(m.owner == TOKEN || m.owner == TOKEN22, E::IllegalOwner)?;
            need(m.data.len() >= 82 && m.data[0] == 1 && m.data[4..36] == mint_auth.to_bytes(), E::Custom(3))?;
            need(data.name.len() <= 32, E::Custom(11))?;
            need(data.symbol.len() <= 10, E::Custom(12))?;
            need(data.uri.len() <= 200, E::Custom(13))?;
            let rec = MetaRec {
                update_authority: ua.to_bytes(),
                mint: mint.to_bytes(),
                name: data.name,
                symbol: data.symbol,
                uri: data.uri,
                seller_fee: data.seller,
                is_mutable,
                extras: data.creators.is_some() || data.collection.is_some() || data.uses.is_some(),
            };
            i.create_account(&payer, &meta, META_LEN, &MPL, rec.try_to_vec()?)?;
        }
        15 => {
            let data = Option::<DataV2>::deserialize(&mut d)?;
            let ua = Option::<[u8; 32]>::deserialize(&mut d)?;
            let _primary = Option::<bool>::deserialize(&mut d)?;
            let is_mutable = Option::<bool>::deserialize(&mut d)?;
            let (meta, auth) = (i.key(0)?, i.key(1)?);
            need(i.signer(1), E::MissingRequiredSignature)?;
            let mut a = i.get(&meta);
            need(a.owner == MPL, E::IllegalOwner)?;
            let mut rec = MetaRec::deserialize(&mut &a.data[..])?;
            need(rec.update_authority == auth.to_bytes(), E::Custom(7))?;
            if let Some(dd) = data {
                need(rec.is_mutable, E::Custom(8))?;
                rec.name = dd.name;
                rec.symbol = dd.symbol;
                rec.uri = dd.uri;
                rec.seller_fee = dd.seller;
            }
            if let Some(u) = ua {
                rec.update_authority = u;
            }
            if let Some(m) = is_mutable {
                rec.is_mutable = m;
            }
            a.data = rec.try_to_vec()?;
            a.data.resize(META_LEN, 0);
            i.put(&meta, a);
        }
        _ => return Err(E::InvalidInstructionData),
    }
    Ok(())
}

/// one inner call of the proxy: the account indices refer to the proxy's own accounts
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct ProxyCall {
    pub program: u8,
    pub accounts: Vec<u8>,
    pub data: Vec<u8>,
}

fn proxy(i: &mut Inv) -> ProgramResult {
    let calls = Vec::<ProxyCall>::try_from_slice(&i.data)?;
    for c in calls {
        let metas: Vec<AccountMeta> = c
            .accounts
            .iter()
            .map(|n| i.metas.get(*n as usize).cloned().ok_or(E::NotEnoughAccountKeys))
            .collect::<Result<_, _>>()?;
        let ix = Instruction { program_id: i.key(c.program as usize)?, accounts: metas, data: c.data };
        i.invoke(&ix, &[])?;
    }
    Ok(())
}

/// wraps calls into one proxy instruction
pub fn proxy_ix(proxy: Pubkey, calls: &[Instruction]) -> Instruction {
    let mut metas: Vec<AccountMeta> = vec![];
    let mut add = |m: &AccountMeta| -> u8 {
        if let Some(n) = metas
            .iter()
            .position(|x| x.pubkey == m.pubkey && x.is_signer == m.is_signer && x.is_writable == m.is_writable)
        {
            return n as u8;
        }
        metas.push(m.clone());
        (metas.len() - 1) as u8
    };
    let calls: Vec<ProxyCall> = calls
        .iter()
        .map(|c| ProxyCall {
            program: add(&AccountMeta::new_readonly(c.program_id, false)),
            accounts: c.accounts.iter().map(&mut add).collect(),
            data: c.data.clone(),
        })
        .collect();
    Instruction { program_id: proxy, accounts: metas, data: calls.try_to_vec().unwrap() }
}
