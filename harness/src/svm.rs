//! A small in-process Solana runtime: it executes the program's real native entrypoint, the real SPL token
//! processors and stand-ins for the other programs under the runtime's rules (privileges, PDA signing, lamport
//! conservation, account modification rules, re-entrancy, call depth, atomic transactions), and records every call.

use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program as sp;
use sp::account_info::AccountInfo;
use sp::clock::Clock;
use sp::entrypoint::ProgramResult;
use sp::instruction::{AccountMeta, Instruction};
use sp::program_error::ProgramError;
use sp::rent::Rent;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const SYSTEM: Pubkey = sp::system_program::ID;
pub const MAX_GROW: usize = 10240;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

pub type Accounts = HashMap<Pubkey, Acc>;

/// Runtime errors are told apart from program errors with these codes.
pub mod rt {
    pub const MISSING_ACCOUNT: u32 = 0xF000_0001;
    pub const PRIV_SIGNER: u32 = 0xF000_0002;
    pub const PRIV_WRITABLE: u32 = 0xF000_0003;
    pub const READONLY_LAMPORT: u32 = 0xF000_0004;
    pub const READONLY_DATA: u32 = 0xF000_0005;
    pub const EXTERNAL_LAMPORT: u32 = 0xF000_0006;
    pub const EXTERNAL_DATA: u32 = 0xF000_0007;
    pub const MODIFIED_OWNER: u32 = 0xF000_0008;
    pub const UNBALANCED: u32 = 0xF000_0009;
    pub const REENTRANCY: u32 = 0xF000_000A;
    pub const DEPTH: u32 = 0xF000_000B;
    pub const NO_PROGRAM: u32 = 0xF000_000C;
    pub const PANIC: u32 = 0xF000_000D;
    pub const REALLOC: u32 = 0xF000_000E;
    pub const RENT_STATE: u32 = 0xF000_000F;
    pub const MAX_SEEDS: u32 = 0xF000_0010;
}

#[derive(Clone, Debug)]
pub struct CallRec {
    /// 1 is top level
    pub height: usize,
    pub top_index: usize,
    pub ix: Instruction,
    pub ok: bool,
}

#[derive(Clone, Debug)]
pub struct TxError {
    pub ix_index: usize,
    pub err: ProgramError,
}

impl TxError {
    pub fn custom(&self) -> Option<u32> {
        match &self.err {
            ProgramError::Custom(c) => Some(*c),
            _ => None,
        }
    }
}

pub struct TxOut {
    pub result: Result<(), TxError>,
    pub trace: Vec<CallRec>,
    /// message of a panic inside a program, if one happened
    pub panic: Option<String>,
    /// accounts the transaction touched, before and after (equal when it failed)
    pub pre: Accounts,
    pub post: Accounts,
}

#[derive(Clone)]
struct FrameAcc {
    key: Pubkey,
    signer: bool,
    writable: bool,
}

struct Frame {
    program: Pubkey,
    accs: Vec<FrameAcc>,
}

struct Exec {
    store: Accounts,
    frames: Vec<Frame>,
    trace: Vec<CallRec>,
    clock: Clock,
    rent: Rent,
    top_index: usize,
    panic: Option<String>,
    return_data: Option<(Pubkey, Vec<u8>)>,
    programs: Rc<HashMap<Pubkey, Program>>,
}

pub type EntryFn = for<'a> fn(&Pubkey, &'a [AccountInfo<'a>], &[u8]) -> ProgramResult;
pub type StandInFn = fn(&mut Inv) -> ProgramResult;

#[derive(Clone, Copy)]
pub enum Program {
    /// real code, run through AccountInfo
    Native(EntryFn),
    /// stand-in, works on the store directly
    StandIn(StandInFn),
}

thread_local! {
    static EXEC: RefCell<Option<Exec>> = const { RefCell::new(None) };
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_PROGRAM: Cell<bool> = const { Cell::new(false) };
}

fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    EXEC.with(|e| f(e.borrow_mut().as_mut().expect("no transaction in progress")))
}

pub struct Svm {
    pub ledger: Accounts,
    pub clock: Clock,
    pub rent: Rent,
    programs: Rc<HashMap<Pubkey, Program>>,
}

/// What a stand-in sees
pub struct Inv {
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

impl Inv {
    pub fn key(&self, i: usize) -> Result<Pubkey, ProgramError> {
        self.metas
            .get(i)
            .map(|m| m.pubkey)
            .ok_or(ProgramError::NotEnoughAccountKeys)
    }
    pub fn signer(&self, i: usize) -> bool {
        let k = self.metas[i].pubkey;
        self.metas.iter().any(|m| m.pubkey == k && m.is_signer)
    }
    pub fn writable(&self, i: usize) -> bool {
        let k = self.metas[i].pubkey;
        self.metas.iter().any(|m| m.pubkey == k && m.is_writable)
    }
    pub fn get(&self, k: &Pubkey) -> Acc {
        with(|e| e.store.get(k).cloned().unwrap_or_default())
    }
    pub fn put(&self, k: &Pubkey, a: Acc) {
        with(|e| {
            e.store.insert(*k, a);
        })
    }
    pub fn rent_min(&self, len: usize) -> u64 {
        with(|e| e.rent.minimum_balance(len))
    }
    pub fn clock(&self) -> Clock {
        with(|e| e.clock.clone())
    }
    /// Call another program; extra_signers are this program's own PDAs
    pub fn invoke(&self, ix: &Instruction, extra_signers: &[Pubkey]) -> ProgramResult {
        check_privileges(ix, extra_signers)?;
        process(ix, extra_signers)
    }
    /// Rent-exempt creation of an account owned by this program, paid by the given payer
    pub fn create_account(
        &self,
        payer: &Pubkey,
        new: &Pubkey,
        space: usize,
        owner: &Pubkey,
        data: Vec<u8>,
    ) -> ProgramResult {
        let min = with(|e| e.rent.minimum_balance(space));
        let mut p = self.get(payer);
        let mut n = self.get(new);
        if n.owner != SYSTEM || !n.data.is_empty() {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        let need = min.saturating_sub(n.lamports);
        if payer != new {
            if p.lamports < need {
                return Err(ProgramError::InsufficientFunds);
            }
            p.lamports -= need;
            self.put(payer, p);
        }
        n.lamports += need;
        n.owner = *owner;
        n.data = data;
        n.data.resize(space, 0);
        self.put(new, n);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------------------------
// AccountInfo backing memory

/// [.. 4: original_data_len][32 key][32 owner][8 lamports][8 data_len][data][growth], data at 8 mod 16 so that
/// the payload after an 8-byte discriminator is 16-aligned
struct Backing {
    ptr: *mut u8,
    layout: std::alloc::Layout,
}
const OFF_ORIG: usize = 12;
const OFF_KEY: usize = 16;
const OFF_OWNER: usize = 48;
const OFF_LAMPORTS: usize = 80;
const OFF_LEN: usize = 96; // 16-aligned
const OFF_DATA: usize = 104; // 8 mod 16

impl Backing {
    fn new(key: &Pubkey, a: &Acc) -> Self {
        let size = OFF_DATA + a.data.len() + MAX_GROW;
        let layout = std::alloc::Layout::from_size_align(size, 16).unwrap();
        unsafe {
            let ptr = std::alloc::alloc_zeroed(layout);
            assert!(!ptr.is_null());
            *(ptr.add(OFF_ORIG) as *mut u32) = a.data.len() as u32;
            std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), ptr.add(OFF_KEY), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), ptr.add(OFF_OWNER), 32);
            *(ptr.add(OFF_LAMPORTS) as *mut u64) = a.lamports;
            *(ptr.add(OFF_LEN) as *mut u64) = a.data.len() as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), ptr.add(OFF_DATA), a.data.len());
            Backing { ptr, layout }
        }
    }
    fn info<'a>(&self, signer: bool, writable: bool, executable: bool) -> AccountInfo<'a> {
        unsafe {
            let len = *(self.ptr.add(OFF_LEN) as *const u64) as usize;
            AccountInfo {
                key: &*(self.ptr.add(OFF_KEY) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(self.ptr.add(OFF_LAMPORTS) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                    self.ptr.add(OFF_DATA),
                    len,
                ))),
                owner: &*(self.ptr.add(OFF_OWNER) as *const Pubkey),
                rent_epoch: u64::MAX,
                is_signer: signer,
                is_writable: writable,
                executable,
            }
        }
    }
}
impl Drop for Backing {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout) }
    }
}

fn owner_of(i: &AccountInfo) -> Pubkey {
    // the owner field is changed behind the reference by assign()
    unsafe { std::ptr::read_volatile(i.owner as *const Pubkey) }
}

/// What a running program left in an account it was given must be something it is allowed to do.
/// Returns the error of the runtime if not; updates the store.
fn absorb(program: &Pubkey, writable: bool, info: &AccountInfo, orig_len: Option<usize>) -> ProgramResult {
    let key = *info.key;
    let lamports = **info
        .lamports
        .try_borrow()
        .map_err(|_| ProgramError::AccountBorrowFailed)?;
    let data = info
        .data
        .try_borrow()
        .map_err(|_| ProgramError::AccountBorrowFailed)?;
    let owner = owner_of(info);
    with(|e| {
        let pre = e.store.entry(key).or_default();
        let data_changed = pre.data.as_slice() != &**data;
        if pre.lamports == lamports && !data_changed && pre.owner == owner {
            return Ok(());
        }
        if pre.executable {
            return Err(ProgramError::Custom(rt::READONLY_DATA));
        }
        if pre.lamports != lamports {
            if !writable {
                return Err(ProgramError::Custom(rt::READONLY_LAMPORT));
            }
            if lamports < pre.lamports && pre.owner != *program {
                return Err(ProgramError::Custom(rt::EXTERNAL_LAMPORT));
            }
        }
        if data_changed {
            if !writable {
                return Err(ProgramError::Custom(rt::READONLY_DATA));
            }
            if pre.owner != *program {
                return Err(ProgramError::Custom(rt::EXTERNAL_DATA));
            }
            if let Some(o) = orig_len {
                if data.len() > o + MAX_GROW {
                    return Err(ProgramError::Custom(rt::REALLOC));
                }
            }
        }
        if pre.owner != owner && (!writable || pre.owner != *program || data.iter().any(|b| *b != 0)) {
            return Err(ProgramError::Custom(rt::MODIFIED_OWNER));
        }
        pre.lamports = lamports;
        pre.owner = owner;
        if data_changed {
            pre.data.clear();
            pre.data.extend_from_slice(&data);
        }
        Ok(())
    })
}

fn check_privileges(ix: &Instruction, pdas: &[Pubkey]) -> ProgramResult {
    with(|e| {
        let f = e.frames.last().expect("caller");
        for m in &ix.accounts {
            let Some(a) = f.accs.iter().find(|a| a.key == m.pubkey) else {
                return Err(ProgramError::Custom(rt::MISSING_ACCOUNT));
            };
            if m.is_writable && !a.writable {
                return Err(ProgramError::Custom(rt::PRIV_WRITABLE));
            }
            if m.is_signer && !a.signer && !pdas.contains(&m.pubkey) {
                return Err(ProgramError::Custom(rt::PRIV_SIGNER));
            }
        }
        if !e.programs.contains_key(&ix.program_id) {
            return Err(ProgramError::Custom(rt::NO_PROGRAM));
        }
        if !f.accs.iter().any(|a| a.key == ix.program_id) {
            return Err(ProgramError::Custom(rt::MISSING_ACCOUNT));
        }
        Ok(())
    })
}

/// Runs one instruction (already checked for privileges).
fn process(ix: &Instruction, extra_signers: &[Pubkey]) -> ProgramResult {
    let mut accs: Vec<FrameAcc> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let signer = m.is_signer || (extra_signers.contains(&m.pubkey) && m.is_signer);
        match accs.iter_mut().find(|a| a.key == m.pubkey) {
            Some(a) => {
                a.signer |= signer;
                a.writable |= m.is_writable;
            }
            None => accs.push(FrameAcc {
                key: m.pubkey,
                signer,
                writable: m.is_writable,
            }),
        }
    }
    let (height, program, rec) = with(|e| {
        if e.frames.len() >= 5 {
            return Err(ProgramError::Custom(rt::DEPTH));
        }
        let Some(p) = e.programs.get(&ix.program_id).copied() else {
            return Err(ProgramError::Custom(rt::NO_PROGRAM));
        };
        let on_stack = e.frames.iter().any(|f| f.program == ix.program_id);
        let is_top = e.frames.last().map(|f| f.program) == Some(ix.program_id);
        if on_stack && !is_top {
            return Err(ProgramError::Custom(rt::REENTRANCY));
        }
        e.return_data = None;
        e.frames.push(Frame {
            program: ix.program_id,
            accs: accs.clone(),
        });
        let rec = e.trace.len();
        let top_index = e.top_index;
        e.trace.push(CallRec {
            height: e.frames.len(),
            top_index,
            ix: ix.clone(),
            ok: false,
        });
        Ok((e.frames.len(), p, rec))
    })?;

    let sum = |accs: &[FrameAcc]| -> u128 {
        with(|e| {
            accs.iter()
                .map(|a| e.store.get(&a.key).map(|x| x.lamports as u128).unwrap_or(0))
                .sum()
        })
    };
    let pre_sum = sum(&accs);

    let result = match program {
        Program::Native(f) => run_native(f, ix, &accs),
        Program::StandIn(f) => {
            let mut inv = Inv {
                program: ix.program_id,
                metas: ix.accounts.clone(),
                data: ix.data.clone(),
            };
            f(&mut inv)
        }
    };
    let result = result.and_then(|_| {
        if sum(&accs) != pre_sum {
            Err(ProgramError::Custom(rt::UNBALANCED))
        } else {
            Ok(())
        }
    });
    with(|e| {
        e.frames.truncate(height - 1);
        e.trace[rec].ok = result.is_ok();
    });
    result
}

fn run_native(f: EntryFn, ix: &Instruction, accs: &[FrameAcc]) -> ProgramResult {
    let backings: Vec<(Backing, bool, usize)> = with(|e| {
        accs.iter()
            .map(|a| {
                let empty = Acc::default();
                let acc = e.store.get(&a.key).unwrap_or(&empty);
                (Backing::new(&a.key, acc), acc.executable, acc.data.len())
            })
            .collect()
    });
    let unique: Vec<AccountInfo<'static>> = backings
        .iter()
        .zip(accs)
        .map(|((b, x, _), a)| b.info(a.signer, a.writable, *x))
        .collect();
    let infos: Vec<AccountInfo<'static>> = ix
        .accounts
        .iter()
        .map(|m| {
            let i = accs.iter().position(|a| a.key == m.pubkey).unwrap();
            unique[i].clone()
        })
        .collect();
    let data = ix.data.clone();
    let program = ix.program_id;
    let was = IN_PROGRAM.with(|p| p.replace(true));
    let result = catch_unwind(AssertUnwindSafe(|| {
        // the program's 'info lifetime is that of the slice; nothing of it outlives this call
        let slice: &[AccountInfo] = unsafe { std::mem::transmute::<&[AccountInfo<'static>], &[AccountInfo<'_>]>(&infos) };
        f(&program, slice, &data)
    }));
    IN_PROGRAM.with(|p| p.set(was));
    match result {
        Err(_) => {
            let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            with(|e| e.panic.get_or_insert(msg).len());
            // what the panicking program leaked is of no interest: the transaction fails
            Err(ProgramError::Custom(rt::PANIC))
        }
        Ok(Err(err)) => Err(err),
        Ok(Ok(())) => {
            for ((_, _, orig), (a, info)) in backings.iter().zip(accs.iter().zip(&unique)) {
                absorb(&program, a.writable, info, Some(*orig))?;
            }
            Ok(())
        }
    }
}

struct Stubs;

impl sp::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let c = with(|e| e.clock.clone());
        unsafe { *(var_addr as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        let r = with(|e| e.rent.clone());
        unsafe { *(var_addr as *mut Rent) = r };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        with(|e| e.return_data.clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        with(|e| {
            let p = e.frames.last().map(|f| f.program).unwrap_or_default();
            e.return_data = Some((p, data.to_vec()));
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        with(|e| e.frames.len() as u64)
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        with(|e| {
            let h = e.frames.len();
            let mut at = 0usize;
            for r in e.trace.iter().rev() {
                if r.height < h {
                    break;
                }
                if r.height == h {
                    if index + 1 == at {
                        return Some(r.ix.clone());
                    }
                    at += 1;
                }
            }
            None
        })
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let caller = with(|e| e.frames.last().expect("frame").program);
        if seeds.len() > 16 {
            return Err(ProgramError::Custom(rt::MAX_SEEDS));
        }
        let mut pdas = Vec::with_capacity(seeds.len());
        for s in seeds {
            pdas.push(
                Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?,
            );
        }
        check_privileges(ix, &pdas)?;
        // each account of the call must be among those handed over
        let mut handed: Vec<&AccountInfo> = Vec::with_capacity(ix.accounts.len());
        for m in &ix.accounts {
            let Some(i) = infos.iter().find(|i| *i.key == m.pubkey) else {
                return Err(ProgramError::Custom(rt::MISSING_ACCOUNT));
            };
            if !handed.iter().any(|h| h.key == i.key) {
                handed.push(i);
            }
        }
        for i in &handed {
            let w = with(|e| {
                e.frames
                    .last()
                    .unwrap()
                    .accs
                    .iter()
                    .find(|a| a.key == *i.key)
                    .map(|a| a.writable)
                    .unwrap_or(false)
            });
            absorb(&caller, w, i, None)?;
        }
        process(ix, &pdas)?;
        for i in &handed {
            if !ix.accounts.iter().any(|m| m.pubkey == *i.key && m.is_writable) {
                continue;
            }
            let a = with(|e| e.store.get(i.key).cloned().unwrap_or_default());
            **i.lamports.borrow_mut() = a.lamports;
            let mut d = i.data.borrow_mut();
            if d.len() != a.data.len() {
                unsafe {
                    let p = d.as_mut_ptr();
                    let orig = *((i.key as *const Pubkey as *const u8).offset(-4) as *const u32) as usize;
                    if a.data.len() > orig + MAX_GROW {
                        return Err(ProgramError::Custom(rt::REALLOC));
                    }
                    if a.data.len() < d.len() {
                        std::ptr::write_bytes(p.add(a.data.len()), 0, d.len() - a.data.len());
                    }
                    *(p.offset(-8) as *mut u64) = a.data.len() as u64;
                    *d = std::slice::from_raw_parts_mut(p, a.data.len());
                }
            }
            d.copy_from_slice(&a.data);
            drop(d);
            if owner_of(i) != a.owner {
                i.assign(&a.owner);
            }
        }
        Ok(())
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub fn install() {
    sp::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
        if !IN_PROGRAM.with(|p| p.get()) {
            default(info);
        }
    }));
}

impl Svm {
    pub fn new(programs: HashMap<Pubkey, Program>) -> Self {
        let mut ledger = Accounts::new();
        for k in programs.keys() {
            ledger.insert(
                *k,
                Acc {
                    lamports: 1_000_000_000,
                    data: vec![],
                    owner: sp::bpf_loader::ID,
                    executable: true,
                },
            );
        }
        Svm {
            ledger,
            clock: Clock::default(),
            rent: Rent::default(),
            programs: Rc::new(programs),
        }
    }

    pub fn rent_min(&self, len: usize) -> u64 {
        self.rent.minimum_balance(len)
    }

    /// Executes a transaction of top-level instructions. Signatures are those the metas claim.
    pub fn execute(&mut self, ixs: &[Instruction]) -> TxOut {
        // a message carries one set of privileges per account
        let mut priv_: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in ixs.iter().flat_map(|ix| &ix.accounts) {
            let e = priv_.entry(m.pubkey).or_default();
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        let ixs: Vec<Instruction> = ixs
            .iter()
            .map(|ix| {
                let mut ix = ix.clone();
                for m in ix.accounts.iter_mut() {
                    let (s, w) = priv_[&m.pubkey];
                    m.is_signer = s;
                    m.is_writable = w;
                }
                ix
            })
            .collect();
        let ixs = &ixs[..];
        let mut store = Accounts::with_capacity(64);
        let mut writable: Vec<Pubkey> = vec![];
        for ix in ixs {
            for m in ix
                .accounts
                .iter()
                .map(|m| m.pubkey)
                .chain(std::iter::once(ix.program_id))
            {
                if !store.contains_key(&m) {
                    if let Some(a) = self.ledger.get(&m) {
                        store.insert(m, a.clone());
                    } else {
                        store.insert(m, Acc::default());
                    }
                }
            }
            for m in &ix.accounts {
                if m.is_writable {
                    writable.push(m.pubkey);
                }
            }
        }
        writable.sort();
        writable.dedup();
        let pre = store.clone();
        // instructions sysvar
        let sysvar_ix = sp::sysvar::instructions::ID;
        if store.contains_key(&sysvar_ix) {
            store.insert(
                sysvar_ix,
                Acc {
                    lamports: 1,
                    data: instructions_data(ixs),
                    owner: sp::sysvar::ID,
                    executable: false,
                },
            );
        }
        EXEC.with(|e| {
            *e.borrow_mut() = Some(Exec {
                store,
                frames: vec![],
                trace: vec![],
                clock: self.clock.clone(),
                rent: self.rent.clone(),
                top_index: 0,
                panic: None,
                return_data: None,
                programs: self.programs.clone(),
            })
        });
        let mut result = Ok(());
        for (n, ix) in ixs.iter().enumerate() {
            with(|e| {
                e.top_index = n;
                if let Some(a) = e.store.get_mut(&sysvar_ix) {
                    if a.data.len() >= 2 {
                        sp::sysvar::instructions::store_current_index(&mut a.data, n as u16);
                    }
                }
            });
            // a transaction's account is writable for an instruction as its own metas say
            if let Err(err) = process(ix, &[]) {
                result = Err(TxError { ix_index: n, err });
                break;
            }
        }
        let mut ex = EXEC.with(|e| e.borrow_mut().take()).unwrap();
        ex.store.remove(&sysvar_ix);
        let mut pre = pre;
        pre.remove(&sysvar_ix);
        if result.is_ok() {
            // rent state of what was written
            for k in &writable {
                let Some(a) = ex.store.get(k) else { continue };
                let min = self.rent.minimum_balance(a.data.len());
                if a.lamports > 0 && a.lamports < min {
                    let p = pre.get(k).cloned().unwrap_or_default();
                    let was_paying =
                        p.lamports > 0 && p.lamports < self.rent.minimum_balance(p.data.len());
                    let tolerated = was_paying && p.data.len() == a.data.len() && a.lamports <= p.lamports;
                    if !tolerated {
                        result = Err(TxError {
                            ix_index: ixs.len(),
                            err: ProgramError::Custom(rt::RENT_STATE),
                        });
                        break;
                    }
                }
            }
        }
        let post = if result.is_ok() {
            for a in ex.store.values_mut() {
                if a.lamports == 0 {
                    *a = Acc::default();
                }
            }
            for (k, a) in &ex.store {
                if pre.get(k) != Some(a) {
                    if a.lamports == 0 {
                        self.ledger.remove(k);
                    } else {
                        self.ledger.insert(*k, a.clone());
                    }
                }
            }
            ex.store
        } else {
            pre.clone()
        };
        TxOut {
            result,
            trace: ex.trace,
            panic: ex.panic,
            pre,
            post,
        }
    }
}

/// what the instructions sysvar holds for a transaction
pub fn instructions_data(ixs: &[Instruction]) -> Vec<u8> {
    use sp::sysvar::instructions::{construct_instructions_data, BorrowedAccountMeta, BorrowedInstruction};
    let b: Vec<BorrowedInstruction> = ixs
        .iter()
        .map(|ix| BorrowedInstruction {
            program_id: &ix.program_id,
            accounts: ix
                .accounts
                .iter()
                .map(|m| BorrowedAccountMeta {
                    pubkey: &m.pubkey,
                    is_signer: m.is_signer,
                    is_writable: m.is_writable,
                })
                .collect(),
            data: &ix.data,
        })
        .collect();
    construct_instructions_data(&b)
}
