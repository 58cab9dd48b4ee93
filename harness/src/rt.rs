//! A small single-process stand-in for the Solana runtime: executes one instruction of the real
//! program (and its CPIs into the real spl-token processor, a system program and itself) with the
//! account-ownership, privilege, lamport and rollback rules of the runtime.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accts: BTreeMap<Pubkey, Rc<Acct>>,
    pub slot: u64,
    pub ts: i64,
}

#[derive(Clone, Debug, Default)]
pub struct IxResult {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    pub ret: Option<Vec<u8>>,
    /// data of every successful Log self-CPI, in order
    pub logs: Vec<Vec<u8>>,
    pub cpis: u32,
}

struct Frame {
    program: Pubkey,
    metas: Vec<(Pubkey, bool, bool)>, // key, signer, writable
}

#[derive(Default)]
struct Ctx {
    work: HashMap<Pubkey, Rc<Acct>>,
    frames: Vec<Frame>,
    ret: Option<(Pubkey, Vec<u8>)>,
    logs: Vec<Vec<u8>>,
    cpis: u32,
    slot: u64,
    ts: i64,
    failed: Option<String>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static BUF: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static PDA: RefCell<HashMap<Vec<u8>, Option<Pubkey>>> = RefCell::new(HashMap::new());
}

const PAD: usize = 10240;

fn ser_len(n_uniq: &[usize], ndup: usize, dlen: usize) -> usize {
    let mut l = 8;
    for d in n_uniq {
        l += 8 + 32 + 32 + 8 + 8 + d + PAD + 8 + 8;
    }
    l + ndup * 8 + 8 + dlen + 32 + 64
}

/// Serializes into `buf` in the loader's input format. Returns per-meta offset of the account start.
fn serialize(buf: &mut Vec<u64>, metas: &[(Pubkey, bool, bool)], accts: &[Rc<Acct>], data: &[u8], program: &Pubkey) {
    let mut uniq = vec![];
    let mut dups = 0;
    let mut first: Vec<Option<usize>> = Vec::with_capacity(metas.len());
    for (i, m) in metas.iter().enumerate() {
        if let Some(j) = metas[..i].iter().position(|x| x.0 == m.0) {
            first.push(Some(j));
            dups += 1;
        } else {
            first.push(None);
            uniq.push(accts[i].data.len());
        }
    }
    let need = ser_len(&uniq, dups, data.len());
    if buf.len() * 8 < need {
        buf.resize(need / 8 + 1, 0);
    }
    let p = buf.as_mut_ptr() as *mut u8;
    unsafe {
        let mut o = 0usize;
        *(p as *mut u64) = metas.len() as u64;
        o += 8;
        for (i, m) in metas.iter().enumerate() {
            if let Some(j) = first[i] {
                std::ptr::write_bytes(p.add(o), 0, 8);
                *p.add(o) = j as u8;
                o += 8;
                continue;
            }
            let a = &accts[i];
            *p.add(o) = 0xff;
            *p.add(o + 1) = m.1 as u8;
            *p.add(o + 2) = m.2 as u8;
            *p.add(o + 3) = a.exec as u8;
            std::ptr::write_bytes(p.add(o + 4), 0, 4);
            o += 8;
            std::ptr::copy_nonoverlapping(m.0.as_ref().as_ptr(), p.add(o), 32);
            o += 32;
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(o), 32);
            o += 32;
            *(p.add(o) as *mut u64) = a.lamports;
            o += 8;
            *(p.add(o) as *mut u64) = a.data.len() as u64;
            o += 8;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(o), a.data.len());
            o += a.data.len();
            // the part of the spare space a small account may grow into starts out zeroed
            std::ptr::write_bytes(p.add(o), 0, if a.data.len() < 512 { 1024 } else { 0 });
            o += PAD;
            o += (o as *const u8).align_offset(8);
            *(p.add(o) as *mut u64) = 0;
            o += 8;
        }
        *(p.add(o) as *mut u64) = data.len() as u64;
        o += 8;
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(o), data.len());
        o += data.len();
        std::ptr::copy_nonoverlapping(program.as_ref().as_ptr(), p.add(o), 32);
    }
}

/// Folds duplicate metas the way a transaction message does (flags are per key).
fn unify(metas: &[AccountMeta]) -> Vec<(Pubkey, bool, bool)> {
    metas
        .iter()
        .map(|m| {
            let s = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
            let w = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            (m.pubkey, s, w)
        })
        .collect()
}

fn get_work(k: &Pubkey) -> Rc<Acct> {
    CTX.with(|c| c.borrow().work.get(k).cloned()).unwrap_or_else(|| Rc::new(Acct { owner: system_program::id(), ..Acct::default() }))
}

/// Takes what `program` left in an account view into the authoritative state, enforcing the
/// runtime's rules about who may change what.
fn commit(program: &Pubkey, writable: bool, key: &Pubkey, lamports: u64, data: &[u8], owner: &Pubkey) -> Result<(), String> {
    let pre = get_work(key);
    let same = pre.lamports == lamports && pre.owner == *owner && pre.data == data;
    if same {
        return Ok(());
    }
    if !writable {
        return Err(format!("readonly account modified {key}"));
    }
    if pre.exec {
        return Err("executable modified".into());
    }
    if pre.lamports > lamports && pre.owner != *program {
        return Err(format!("external lamport spend {key}"));
    }
    if pre.data != data {
        if pre.owner != *program {
            return Err(format!("external data modified {key}"));
        }
        if data.len() > pre.data.len() + PAD {
            return Err("invalid realloc".into());
        }
    }
    if pre.owner != *owner {
        if pre.owner != *program || data.iter().any(|b| *b != 0) {
            return Err("illegal owner change".into());
        }
    }
    let n = Rc::new(Acct { lamports, data: data.to_vec(), owner: *owner, exec: pre.exec });
    CTX.with(|c| c.borrow_mut().work.insert(*key, n));
    Ok(())
}

fn run_program(program: &Pubkey, metas: &[(Pubkey, bool, bool)], data: &[u8], top: bool) -> Result<(), String> {
    let accts: Vec<Rc<Acct>> = metas.iter().map(|m| get_work(&m.0)).collect();
    let mut buf = if top { BUF.with(|b| std::mem::take(&mut *b.borrow_mut())) } else { Vec::new() };
    serialize(&mut buf, metas, &accts, data, program);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.frames.push(Frame { program: *program, metas: metas.to_vec() });
        c.ret = None;
    });
    let lam_pre: u128 = metas.iter().enumerate().filter(|(i, m)| !metas[..*i].iter().any(|x| x.0 == m.0)).map(|(_, m)| get_work(&m.0).lamports as u128).sum();
    let ptr = buf.as_mut_ptr() as *mut u8;
    let res: Result<(), String> = unsafe {
        let (pid, infos, d) = solana_program::entrypoint::deserialize(ptr);
        let r: ProgramResult = if *program == phoenix::id() {
            phoenix::process_instruction(pid, &infos, d)
        } else if *program == spl_token::id() {
            spl_token::processor::Processor::process(pid, &infos, d)
        } else if *program == system_program::id() {
            system_process(&infos, d)
        } else if *program == crate::keys::evil() {
            Ok(()) // an attacker's program that accepts everything and does nothing
        } else {
            Err(ProgramError::IncorrectProgramId)
        };
        match r {
            Err(e) => Err(format!("{e:?}")),
            Ok(()) => {
                // owner/length/lamports are read back from the serialized buffer, like the loader does
                let mut out = Ok(());
                for (i, m) in metas.iter().enumerate() {
                    if metas[..i].iter().any(|x| x.0 == m.0) {
                        continue;
                    }
                    let info = &infos[i];
                    let lam = **info.lamports.borrow();
                    let dd = info.data.borrow();
                    let own = std::ptr::read_volatile(info.owner as *const Pubkey);
                    if let Err(e) = commit(program, m.2, &m.0, lam, &dd, &own) {
                        out = Err(e);
                        break;
                    }
                }
                out
            }
        }
    };
    let res = res.and_then(|_| {
        let lam_post: u128 = metas.iter().enumerate().filter(|(i, m)| !metas[..*i].iter().any(|x| x.0 == m.0)).map(|(_, m)| get_work(&m.0).lamports as u128).sum();
        if lam_pre != lam_post {
            Err("unbalanced instruction".into())
        } else {
            Ok(())
        }
    });
    CTX.with(|c| {
        c.borrow_mut().frames.pop();
    });
    if top {
        BUF.with(|b| *b.borrow_mut() = buf);
    }
    res
}

fn system_process(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = solana_program::program_utils::limited_deserialize(data, 1232).map_err(|_| ProgramError::InvalidInstructionData)?;
    let set_owner = |a: &AccountInfo, owner: &Pubkey| a.assign(owner);
    let grow = |a: &AccountInfo, space: usize| -> ProgramResult {
        if space > 10 * 1024 {
            return Err(ProgramError::InvalidRealloc);
        }
        a.realloc(space, true)
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let from = infos.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let to = infos.get(1).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if !from.is_signer || !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.lamports() > 0 || !to.data_is_empty() || *to.owner != system_program::id() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            grow(to, space as usize)?;
            set_owner(to, &owner);
            if !from.data_is_empty() || from.lamports() < lamports {
                return Err(ProgramError::InsufficientFunds);
            }
            **from.lamports.borrow_mut() -= lamports;
            **to.lamports.borrow_mut() += lamports;
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => {
            let from = infos.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let to = infos.get(1).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if !from.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if !from.data_is_empty() || from.lamports() < lamports {
                return Err(ProgramError::InsufficientFunds);
            }
            **from.lamports.borrow_mut() -= lamports;
            **to.lamports.borrow_mut() += lamports;
            Ok(())
        }
        SystemInstruction::Allocate { space } => {
            let a = infos.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if !a.data_is_empty() || *a.owner != system_program::id() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            grow(a, space as usize)
        }
        SystemInstruction::Assign { owner } => {
            let a = infos.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if *a.owner == owner {
                return Ok(());
            }
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            set_owner(a, &owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn pda(seeds: &[&[u8]], program: &Pubkey) -> Option<Pubkey> {
    let mut k = Vec::with_capacity(128);
    k.extend_from_slice(program.as_ref());
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDA.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 20000 {
            p.clear();
        }
        *p.entry(k).or_insert_with(|| Pubkey::create_program_address(seeds, program).ok())
    })
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, v: *mut u8) -> u64 {
        let (slot, ts) = CTX.with(|c| {
            let c = c.borrow();
            (c.slot, c.ts)
        });
        unsafe {
            *(v as *mut Clock) = Clock { slot, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: ts };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, v: *mut u8) -> u64 {
        unsafe {
            *(v as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.frames.last().map(|f| f.program).unwrap_or_default();
            c.ret = if d.is_empty() { None } else { Some((p, d.to_vec())) };
            if d.len() > 1024 {
                c.failed = Some("return data too large".into());
            }
        })
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().ret.clone())
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                // a failed CPI aborts the whole transaction; the caller never resumes
                CTX.with(|c| {
                    let mut c = c.borrow_mut();
                    if c.failed.is_none() {
                        c.failed = Some(e);
                    }
                });
                std::panic::panic_any("cpi-abort")
            }
        }
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    let (caller, cm, depth) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.cpis += 1;
        let d = c.frames.len();
        let f = c.frames.last().unwrap();
        (f.program, f.metas.clone(), d)
    });
    if depth > 4 {
        return Err("call depth".into());
    }
    if ix.data.len() + 34 * ix.accounts.len() > 1280 && ix.program_id == phoenix::id() {
        return Err("instruction too large".into());
    }
    let mut signers = Vec::new();
    for s in seeds {
        match pda(s, &caller) {
            Some(k) => signers.push(k),
            None => return Err("bad seeds".into()),
        }
    }
    let metas = unify(&ix.accounts);
    for (k, s, w) in &metas {
        let Some((_, cs, cw)) = cm.iter().find(|m| m.0 == *k) else { return Err(format!("missing account {k}")) };
        if *w && !*cw {
            return Err(format!("writable privilege escalated {k}"));
        }
        if *s && !*cs && !signers.contains(k) {
            return Err(format!("signer privilege escalated {k}"));
        }
        if !infos.iter().any(|i| i.key == k) {
            return Err(format!("missing account info {k}"));
        }
    }
    if !cm.iter().any(|m| m.0 == ix.program_id) || !infos.iter().any(|i| *i.key == ix.program_id) {
        return Err("program account missing".into());
    }
    if !get_work(&ix.program_id).exec {
        return Err("not executable".into());
    }
    // caller view -> authoritative
    for (k, _, _) in &metas {
        let i = infos.iter().find(|i| i.key == k).unwrap();
        let cw = cm.iter().find(|m| m.0 == *k).unwrap().2;
        let own = unsafe { std::ptr::read_volatile(i.owner as *const Pubkey) };
        let lam = **i.lamports.borrow();
        let d = i.data.borrow();
        commit(&caller, cw, k, lam, &d, &own)?;
    }
    run_program(&ix.program_id, &metas, &ix.data, false)?;
    if ix.program_id == phoenix::id() && caller == phoenix::id() && ix.data.first() == Some(&15) {
        CTX.with(|c| c.borrow_mut().logs.push(ix.data.clone()));
    }
    // authoritative -> caller view
    for (k, _, w) in &metas {
        if !*w {
            continue;
        }
        let a = get_work(k);
        for i in infos.iter().filter(|i| i.key == k).take(1) {
            **i.lamports.borrow_mut() = a.lamports;
            if *i.owner != a.owner {
                i.assign(&a.owner);
            }
            if i.data_len() != a.data.len() {
                let mut d = i.data.borrow_mut();
                unsafe {
                    let p = d.as_mut_ptr();
                    *(p.offset(-8) as *mut u64) = a.data.len() as u64;
                    *d = std::slice::from_raw_parts_mut(p, a.data.len());
                }
            }
            i.data.borrow_mut().copy_from_slice(&a.data);
        }
    }
    Ok(())
}

pub fn init() {
    set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("PHX_PANIC").is_some() {
            eprintln!("{i}");
        }
    }));
}

impl Bank {
    pub fn new() -> Self {
        let mut b = Bank { slot: 1000, ts: 1_700_000_000, ..Default::default() };
        for p in [phoenix::id(), spl_token::id(), system_program::id(), crate::keys::ata_program(), crate::keys::evil()] {
            b.put(p, Acct { lamports: 1, data: vec![], owner: crate::keys::native_loader(), exec: true });
        }
        b
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, Rc::new(a));
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Rc<Acct>> {
        self.accts.get(k)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    /// Executes one instruction as a transaction of its own. Rolls back on any failure.
    pub fn exec(&mut self, ix: &Instruction) -> IxResult {
        let metas = unify(&ix.accounts);
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            *c = Ctx { slot: self.slot, ts: self.ts, ..Ctx::default() };
            for m in &metas {
                if let Some(a) = self.accts.get(&m.0) {
                    c.work.insert(m.0, a.clone());
                }
            }
        });
        let r = catch_unwind(AssertUnwindSafe(|| {
            if !self.accts.get(&ix.program_id).map(|a| a.exec).unwrap_or(false) {
                return Err("program not executable".to_string());
            }
            run_program(&ix.program_id, &metas, &ix.data, true)
        }));
        let mut c = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let mut out = IxResult { cpis: c.cpis, ..Default::default() };
        match r {
            Ok(Ok(())) => match c.failed.take() {
                Some(e) => out.err = e,
                None => out.ok = true,
            },
            Ok(Err(e)) => out.err = e,
            Err(_) => match c.failed.take() {
                Some(e) => out.err = e,
                None => {
                    out.panicked = true;
                    out.err = "panic".into();
                }
            },
        }
        if out.ok {
            let rent = Rent::default();
            for m in &metas {
                if !m.2 {
                    continue;
                }
                let Some(a) = c.work.get(&m.0) else { continue };
                let pre = self.accts.get(&m.0);
                if let Some(p) = pre {
                    if Rc::ptr_eq(p, a) {
                        continue;
                    }
                }
                if a.lamports == 0 {
                    continue;
                }
                let exempt = rent.is_exempt(a.lamports, a.data.len());
                let pre_paying = pre.map(|p| p.lamports > 0 && !rent.is_exempt(p.lamports, p.data.len()) && p.data.len() == a.data.len()).unwrap_or(false);
                if !exempt && !pre_paying {
                    out.ok = false;
                    out.err = format!("insufficient funds for rent {}", m.0);
                }
            }
        }
        if out.ok {
            for m in &metas {
                if let Some(a) = c.work.remove(&m.0) {
                    if a.lamports == 0 {
                        self.accts.remove(&m.0);
                    } else {
                        self.accts.insert(m.0, a);
                    }
                }
            }
            out.ret = c.ret.take().filter(|r| r.0 == phoenix::id()).map(|r| r.1);
            out.logs = c.logs;
        }
        out
    }
}
