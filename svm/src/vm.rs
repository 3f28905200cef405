//! A model of the Solana runtime, precise in the aspects the programs under
//! test rely on. See DESIGN.md, "Mini SVM".

use anchor_lang::prelude::{AccountInfo, Clock, ProgramError, Pubkey, Rent};
use anchor_lang::solana_program::{
    self, entrypoint::ProgramResult, instruction::AccountMeta,
    instruction::Instruction, program_stubs, system_program, sysvar,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Once;

pub type Entry =
    for<'a, 'b, 'c, 'd> fn(&'a Pubkey, &'b [AccountInfo<'c>], &'d [u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}

#[derive(Clone)]
pub struct Svm {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub program: Pubkey,
    pub entry: Entry,
}

/// How an instruction failed. Nothing is changed by a failed one.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fail {
    Program(ProgramError),
    /// The program panicked (on chain: aborted).
    Panic(String),
    /// The program returned success but broke a rule of the runtime, which
    /// would on chain fail the transaction.
    Runtime(String),
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Program(e) => write!(f, "{:?}", e),
            Fail::Panic(e) => write!(f, "panic: {}", e),
            Fail::Runtime(e) => write!(f, "runtime: {}", e),
        }
    }
}

struct Frame {
    program: Pubkey,
    /// state as of the last point where somebody else than the current program
    /// could have changed accounts
    shadow: Vec<Shadow>,
    /// A rule broken within a CPI; it cannot be swallowed by the caller.
    broken: Option<String>,
}

struct Shadow {
    key: Pubkey,
    writable: bool,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
}

thread_local! {
    static SLOT: RefCell<u64> = RefCell::new(0);
    static FRAME: RefCell<Option<Frame>> = RefCell::new(None);
    static BUF: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static IN_VM: RefCell<bool> = RefCell::new(false);
}

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if *LOG {
            eprintln!("    log: {}", m);
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Clock) = clock(SLOT.with(|s| *s.borrow())) };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        invoke(ix, infos, seeds)
    }
}

static LOG_INIT: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
struct LogFlag;
impl std::ops::Deref for LogFlag {
    type Target = bool;
    fn deref(&self) -> &bool {
        LOG_INIT.get_or_init(|| std::env::var("VERIF_LOG").is_ok())
    }
}
static LOG: LogFlag = LogFlag;

pub fn clock(slot: u64) -> Clock {
    Clock {
        slot,
        epoch_start_timestamp: 1_650_000_000,
        epoch: slot / 432_000,
        leader_schedule_epoch: slot / 432_000 + 1,
        unix_timestamp: 1_650_000_000 + (slot / 2) as i64,
    }
}

pub fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if IN_VM.with(|f| *f.borrow()) {
                LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
            } else {
                default(info)
            }
        }));
    });
}

fn check_and_sync(frame: &mut Frame, infos: &[(Pubkey, AccountInfo)], program: &Pubkey) {
    // `program` is who could have acted since the shadow was taken
    for (key, info) in infos {
        let sh = match frame.shadow.iter_mut().find(|s| s.key == *key) {
            Some(s) => s,
            None => continue,
        };
        let data = match info.data.try_borrow() {
            Ok(d) => d,
            Err(_) => {
                frame.broken.get_or_insert(format!("{} data borrowed across a CPI", key));
                continue;
            }
        };
        let lamports = match info.lamports.try_borrow() {
            Ok(l) => **l,
            Err(_) => {
                frame.broken.get_or_insert(format!("{} lamports borrowed across a CPI", key));
                continue;
            }
        };
        let data_changed = data[..] != sh.data[..];
        let mut why = None;
        if !sh.writable && (data_changed || lamports != sh.lamports || info.owner != &sh.owner) {
            why = Some("read-only account modified");
        } else if sh.owner != *program && (data_changed || lamports < sh.lamports) {
            why = Some("account modified by a program which does not own it");
        } else if info.owner != &sh.owner && sh.owner != *program {
            why = Some("owner changed by a program which does not own it");
        }
        if let Some(why) = why {
            frame.broken.get_or_insert(format!("{}: {}", key, why));
        }
        if data_changed {
            sh.data.clear();
            sh.data.extend_from_slice(&data);
        }
        sh.lamports = lamports;
        sh.owner = *info.owner;
    }
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = FRAME.with(|f| f.borrow().as_ref().map(|f| f.program)).unwrap();
    let mut pda = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => pda.push(k),
            Err(_) => {
                broken("CPI with signer seeds which are not a program address".into());
                return Err(ProgramError::InvalidSeeds);
            }
        }
    }
    // it suffices that the transaction mentions the program
    let mentioned = FRAME.with(|f| {
        f.borrow().as_ref().unwrap().shadow.iter().any(|s| s.key == ix.program_id)
    });
    if !mentioned {
        broken(format!("CPI: program {} missing", ix.program_id));
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    // privileges are those of the top level instruction, kept in the shadow
    let mut callee: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let info = match infos.iter().find(|i| *i.key == m.pubkey) {
            Some(i) => i,
            None => {
                broken(format!("CPI: account {} missing", m.pubkey));
                return Err(ProgramError::NotEnoughAccountKeys);
            }
        };
        let signer = infos.iter().any(|i| *i.key == m.pubkey && i.is_signer) || pda.contains(&m.pubkey);
        let writable = infos.iter().any(|i| *i.key == m.pubkey && i.is_writable);
        if (m.is_signer && !signer) || (m.is_writable && !writable) {
            broken(format!("CPI: privilege escalation on {}", m.pubkey));
            return Err(ProgramError::MissingRequiredSignature);
        }
        let mut c = info.clone();
        c.is_signer = m.is_signer;
        c.is_writable = m.is_writable;
        callee.push(c);
    }
    let keyed: Vec<(Pubkey, AccountInfo)> =
        callee.iter().map(|i| (*i.key, i.clone())).collect();
    // what the caller did before this CPI
    FRAME.with(|f| check_and_sync(f.borrow_mut().as_mut().unwrap(), &keyed, &caller));
    if let Some(b) = FRAME.with(|f| f.borrow().as_ref().unwrap().broken.clone()) {
        let _ = b;
        return Err(ProgramError::InvalidArgument);
    }
    let done = if ix.program_id == spl_token::id() {
        spl_token::processor::Processor::process(&ix.program_id, &callee, &ix.data)
    } else if ix.program_id == system_program::id() {
        system(&callee, &ix.data)
    } else {
        Ok(())
    };
    if let Err(e) = done {
        // ends the transaction, whatever the caller makes of it
        broken(format!("CPI failed: {:?}", e));
        return Err(e);
    }
    // any other program does nothing, which may well be what an attacker wants
    // the callee may not have written what it was not given as writable, nor
    // what it does not own
    let program = ix.program_id;
    FRAME.with(|f| {
        let mut f = f.borrow_mut();
        let f = f.as_mut().unwrap();
        check_and_sync(f, &keyed, &program);
    });
    Ok(())
}

fn broken(why: String) {
    FRAME.with(|f| {
        f.borrow_mut().as_mut().unwrap().broken.get_or_insert(why);
    })
}

fn set_owner(info: &AccountInfo, owner: &Pubkey) {
    info.assign(owner)
}

fn system(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    use solana_program::system_instruction::SystemInstruction;
    let ix: SystemInstruction = match bincode_system(data) {
        Some(ix) => ix,
        None => return Err(ProgramError::InvalidInstructionData),
    };
    let need_signer = |i: usize| {
        if accs[i].is_signer {
            Ok(())
        } else {
            Err(ProgramError::MissingRequiredSignature)
        }
    };
    let transfer = |from: usize, to: usize, lamports: u64| -> ProgramResult {
        need_signer(from)?;
        if !accs[from].data_is_empty() || accs[from].owner != &system_program::id() {
            return Err(ProgramError::InvalidArgument);
        }
        if **accs[from].lamports.borrow() < lamports {
            return Err(ProgramError::Custom(1));
        }
        **accs[from].lamports.borrow_mut() -= lamports;
        **accs[to].lamports.borrow_mut() += lamports;
        Ok(())
    };
    let allocate = |i: usize, space: u64| -> ProgramResult {
        need_signer(i)?;
        if !accs[i].data_is_empty() || accs[i].owner != &system_program::id() {
            return Err(ProgramError::Custom(0));
        }
        if space > 10_240 {
            return Err(ProgramError::InvalidArgument);
        }
        accs[i].realloc(space as usize, true)
    };
    let assign = |i: usize, owner: &Pubkey| -> ProgramResult {
        need_signer(i)?;
        if accs[i].owner != &system_program::id() {
            return Err(ProgramError::InvalidArgument);
        }
        set_owner(&accs[i], owner);
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            need_signer(1)?;
            if **accs[1].lamports.borrow() > 0 {
                return Err(ProgramError::Custom(0));
            }
            allocate(1, space)?;
            assign(1, &owner)?;
            transfer(0, 1, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(0, 1, lamports),
        SystemInstruction::Allocate { space } => allocate(0, space),
        SystemInstruction::Assign { owner } => assign(0, &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// The four system instructions anchor issues, decoded from their bincode
/// representation.
fn bincode_system(data: &[u8]) -> Option<solana_program::system_instruction::SystemInstruction> {
    use solana_program::system_instruction::SystemInstruction as S;
    let u32_at = |i: usize| Some(u32::from_le_bytes(data.get(i..i + 4)?.try_into().ok()?));
    let u64_at = |i: usize| Some(u64::from_le_bytes(data.get(i..i + 8)?.try_into().ok()?));
    let key_at = |i: usize| Some(Pubkey::new(data.get(i..i + 32)?));
    Some(match u32_at(0)? {
        0 => S::CreateAccount { lamports: u64_at(4)?, space: u64_at(12)?, owner: key_at(20)? },
        1 => S::Assign { owner: key_at(4)? },
        2 => S::Transfer { lamports: u64_at(4)? },
        8 => S::Allocate { space: u64_at(4)? },
        _ => return None,
    })
}

pub fn rent_exempt(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

const PAD: usize = 10_240;

impl Svm {
    pub fn new(program: Pubkey, entry: Entry) -> Self {
        init();
        let mut s = Svm { accts: BTreeMap::new(), slot: 1, program, entry };
        let exec = |owner: Pubkey| Acct { lamports: 1, owner, executable: true, data: vec![] };
        let loader = solana_program::bpf_loader::id();
        s.accts.insert(spl_token::id(), exec(loader));
        s.accts.insert(system_program::id(), exec(loader));
        s.accts.insert(program, exec(loader));
        let rent = Rent::default();
        let mut data = vec![];
        data.extend_from_slice(&rent.lamports_per_byte_year.to_le_bytes());
        data.extend_from_slice(&rent.exemption_threshold.to_le_bytes());
        data.push(rent.burn_percent);
        s.accts.insert(
            sysvar::rent::id(),
            Acct { lamports: 1, owner: sysvar::id(), executable: false, data },
        );
        s
    }

    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k)
    }

    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accts.get(k).map(|a| &a.data[..]).unwrap_or(&[])
    }

    /// Adds a plain wallet with lamports.
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        self.accts.insert(
            k,
            Acct { lamports, owner: system_program::id(), executable: false, data: vec![] },
        );
    }

    /// Anybody may send lamports to any address.
    pub fn give(&mut self, k: Pubkey, lamports: u64) {
        match self.accts.get_mut(&k) {
            Some(a) => a.lamports += lamports,
            None => self.fund(k, lamports),
        }
    }

    pub fn put(&mut self, k: Pubkey, owner: Pubkey, data: Vec<u8>) {
        let lamports = rent_exempt(data.len());
        self.accts.insert(k, Acct { lamports, owner, executable: false, data });
    }

    /// Runs an instruction of the program under test; the keys with the signer
    /// flag in `metas` are taken to have signed the transaction.
    pub fn run(&mut self, metas: &[AccountMeta], data: &[u8]) -> Result<(), Fail> {
        // writable and signer flags are per transaction in Solana, the message
        // merges them over all mentions of the key
        let mut flags: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in metas {
            let e = flags.entry(m.pubkey).or_default();
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        // executable accounts and sysvars are demoted to read-only
        for (k, f) in flags.iter_mut() {
            if self.accts.get(k).map(|a| a.executable).unwrap_or(false) || *k == sysvar::rent::id() {
                f.1 = false;
            }
        }
        let mut first: HashMap<Pubkey, usize> = HashMap::new();
        let empty = Acct { owner: system_program::id(), ..Default::default() };

        let mut size = 8usize;
        for m in metas {
            size += 8 + 32 + 32 + 8 + 8 + PAD + 16 + 8;
            size += self.accts.get(&m.pubkey).map(|a| a.data.len()).unwrap_or(0);
        }
        size += 8 + data.len() + 32 + 64;
        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        if buf.len() < size / 8 + 2 {
            buf.resize(size / 8 + 2, 0);
        }
        let base = buf.as_mut_ptr() as *mut u8;
        let mut shadow = vec![];
        let mut pre_lamports = 0u128;
        let res = unsafe {
            let mut o = 0usize;
            macro_rules! w64 {
                ($v:expr) => {{
                    *(base.add(o) as *mut u64) = $v;
                    o += 8;
                }};
            }
            macro_rules! wb {
                ($v:expr) => {{
                    let v: &[u8] = $v;
                    std::ptr::copy_nonoverlapping(v.as_ptr(), base.add(o), v.len());
                    o += v.len();
                }};
            }
            w64!(metas.len() as u64);
            for (i, m) in metas.iter().enumerate() {
                if let Some(j) = first.get(&m.pubkey) {
                    w64!(*j as u64);
                    continue;
                }
                first.insert(m.pubkey, i);
                let a = self.accts.get(&m.pubkey).unwrap_or(&empty);
                let (signer, writable) = flags[&m.pubkey];
                wb!(&[u8::MAX, signer as u8, writable as u8, a.executable as u8, 0, 0, 0, 0]);
                wb!(m.pubkey.as_ref());
                wb!(a.owner.as_ref());
                w64!(a.lamports);
                w64!(a.data.len() as u64);
                wb!(&a.data);
                o += PAD;
                o += (o as *const u8).align_offset(8);
                w64!(0u64);
                pre_lamports += a.lamports as u128;
                shadow.push(Shadow {
                    key: m.pubkey,
                    writable,
                    owner: a.owner,
                    lamports: a.lamports,
                    data: a.data.clone(),
                });
            }
            w64!(data.len() as u64);
            wb!(data);
            wb!(self.program.as_ref());
            debug_assert!(o <= buf.len() * 8);

            SLOT.with(|s| *s.borrow_mut() = self.slot);
            FRAME.with(|f| {
                *f.borrow_mut() = Some(Frame { program: self.program, shadow, broken: None })
            });
            let (program_id, infos, ix_data) = solana_program::entrypoint::deserialize(base);
            IN_VM.with(|f| *f.borrow_mut() = true);
            let entry = self.entry;
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                entry(program_id, &infos, ix_data)
            }));
            IN_VM.with(|f| *f.borrow_mut() = false);
            let mut frame = FRAME.with(|f| f.borrow_mut().take()).unwrap();
            let out = match out {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(Fail::Program(e)),
                Err(_) => Err(Fail::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
            };
            match out {
                Err(e) => Err(e),
                Ok(()) => {
                    let keyed: Vec<(Pubkey, AccountInfo)> =
                        infos.iter().map(|i| (*i.key, i.clone())).collect();
                    let program = self.program;
                    check_and_sync(&mut frame, &keyed, &program);
                    let post: u128 = frame.shadow.iter().map(|s| s.lamports as u128).sum();
                    if let Some(b) = frame.broken {
                        Err(Fail::Runtime(b))
                    } else if post != pre_lamports {
                        Err(Fail::Runtime("lamports not conserved".into()))
                    } else {
                        for s in frame.shadow {
                            if !s.writable {
                                continue;
                            }
                            if s.lamports == 0 {
                                // purged at the end of the transaction
                                self.accts.remove(&s.key);
                                continue;
                            }
                            let a = self.accts.entry(s.key).or_default();
                            a.lamports = s.lamports;
                            a.owner = s.owner;
                            a.data = s.data;
                        }
                        Ok(())
                    }
                }
            }
        };
        BUF.with(|b| *b.borrow_mut() = buf);
        res
    }
}
