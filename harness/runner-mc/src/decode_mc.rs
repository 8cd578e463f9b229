//! R01: decoding, over the whole instruction-word space.
use mc::{guard, Ctx, Local};
use mozak_runner::code::Code;
use mozak_runner::decode::decode_instruction;
use mozak_runner::elf::Program;
use mozak_runner::instruction::{Args, Instruction, Op};
use serde_json::json;

use crate::bridge::{diff, Setup};
use crate::refvm::{ref_decode, Dec, Mn, RInst, RefVm, Stop};

/// The representation the current tree uses. Only a fast path: any other
/// representation is judged by executing it.
fn usual(i: RInst, pc: u32) -> Instruction {
    use Mn::*;
    let (rd, rs1, rs2, imm) = (i.rd as u8, i.rs1 as u8, i.rs2 as u8, i.imm as u32);
    let r = |op| Instruction { op, args: Args { rd, rs1, rs2, imm: 0 } };
    let im = |op| Instruction { op, args: Args { rd, rs1, rs2: 0, imm } };
    let ld = |op| Instruction { op, args: Args { rd, rs1: 0, rs2: rs1, imm } };
    let st = |op| Instruction { op, args: Args { rd: 0, rs1: rs2, rs2: rs1, imm } };
    let br = |op| Instruction { op, args: Args { rd: 0, rs1, rs2, imm: imm.wrapping_add(pc) } };
    match i.mn {
        Lui => Instruction { op: Op::ADD, args: Args { rd, rs1: 0, rs2: 0, imm } },
        Auipc => Instruction { op: Op::ADD, args: Args { rd, rs1: 0, rs2: 0, imm: imm.wrapping_add(pc) } },
        Jal => Instruction { op: Op::JALR, args: Args { rd, rs1: 0, rs2: 0, imm: imm.wrapping_add(pc) } },
        Jalr => im(Op::JALR),
        Beq => br(Op::BEQ), Bne => br(Op::BNE), Blt => br(Op::BLT), Bge => br(Op::BGE), Bltu => br(Op::BLTU), Bgeu => br(Op::BGEU),
        Lb => ld(Op::LB), Lh => ld(Op::LH), Lw => ld(Op::LW), Lbu => ld(Op::LBU), Lhu => ld(Op::LHU),
        Sb => st(Op::SB), Sh => st(Op::SH), Sw => st(Op::SW),
        Addi => im(Op::ADD), Slti => im(Op::SLT), Sltiu => im(Op::SLTU), Xori => im(Op::XOR), Ori => im(Op::OR), Andi => im(Op::AND),
        Slli => Instruction { op: Op::MUL, args: Args { rd, rs1, rs2: 0, imm: 1 << imm } },
        Srli => Instruction { op: Op::DIVU, args: Args { rd, rs1, rs2: 0, imm: 1 << imm } },
        Srai => im(Op::SRA),
        Add => r(Op::ADD), Sub => r(Op::SUB), Sll => r(Op::SLL), Slt => r(Op::SLT), Sltu => r(Op::SLTU), Xor => r(Op::XOR),
        Srl => r(Op::SRL), Sra => r(Op::SRA), Or => r(Op::OR), And => r(Op::AND),
        Mul => r(Op::MUL), Mulh => r(Op::MULH), Mulhsu => r(Op::MULHSU), Mulhu => r(Op::MULHU),
        Div => r(Op::DIV), Divu => r(Op::DIVU), Rem => r(Op::REM), Remu => r(Op::REMU),
        Ecall => Instruction { op: Op::ECALL, args: Args { rd: 0, rs1: 10, rs2: 11, imm: 0 } },
        Nop => Instruction { op: Op::ADD, args: Args::default() },
    }
}

/// Executes a decoded instruction from a set of states and compares with the
/// reference meaning of the word.
fn behaves_like(got: Instruction, want: RInst, pc: u32) -> Result<(), String> {
    let program = Program { ro_code: Code([(pc, Ok(got))].into_iter().collect()), entry_point: pc, ..Default::default() };
    for k in 0..10u32 {
        let mut regs: Vec<(u8, u32)> = (1..32).map(|r| (r as u8, (r as u32).wrapping_mul(0x9E37_79B9 ^ (k << 13)).rotate_left(k * 5))).collect();
        match k {
            0 => regs.iter_mut().for_each(|r| r.1 = 0),
            1 => regs.iter_mut().for_each(|r| r.1 = u32::MAX),
            2 => regs.iter_mut().for_each(|r| r.1 = 0x8000_0000),
            3 => regs.iter_mut().for_each(|r| r.1 = u32::from(r.0)),
            4 => regs.iter_mut().for_each(|r| r.1 = if r.0 % 2 == 0 { u32::MAX } else { 0x8000_0000 }),
            _ => {}
        }
        if want.mn == Mn::Ecall { regs[9].1 = if k % 2 == 0 { 0 } else { 77 }; }
        let addr = regs.iter().find(|r| r.0 as usize == want.rs1).map_or(0, |r| r.1).wrapping_add(want.imm as u32);
        let setup = Setup { entry: pc, regs, rw: (0..8u32).map(|i| (addr.wrapping_add(i).wrapping_sub(2), 0x81 + 7 * i as u8)).collect(), ..Default::default() };
        let s = setup.state(&Program { rw_memory: setup.program().rw_memory, entry_point: pc, ..Default::default() });
        let mut r: RefVm = setup.reference();
        match (r.exec(want), guard(|| s.execute_instruction(&program))) {
            (Err(Stop::Any(_)), _) | (Err(_), Err(_) | Ok(Err(_))) => {}
            (Ok(_), Ok(Ok((_, _, ns)))) => if let Some(d) = diff(&ns, &r, true) { return Err(format!("start state {k}: {d}")); },
            (a, b) => return Err(format!("start state {k}: expected {a:?}, got {:?}", b.map(|x| x.map(|_| "success")))),
        }
    }
    Ok(())
}

/// None if `got` is an acceptable decoding of `w` at `pc`.
pub fn decode_check(pc: u32, w: u32, got: Result<Instruction, mozak_runner::instruction::DecodingError>) -> Option<String> {
    match (ref_decode(w), got) {
        (Dec::Bad | Dec::Either(_), Err(e)) => (e.pc != pc || e.instruction != w).then(|| format!("error does not name the word and pc: {e:?}")),
        (Dec::Bad, Ok(i)) => Some(format!("not an instruction, but decoded as {i:?}")),
        (Dec::Is(want), Err(_)) => Some(format!("valid instruction {want:?} refused")),
        (Dec::Is(want) | Dec::Either(want), Ok(i)) => {
            if i == usual(want, pc) { return None; }
            behaves_like(i, want, pc).err().map(|d| format!("decoded as {i:?}, expected {want:?}: {d}"))
        }
    }
}

fn one(ctx: &Ctx, n: &mut u64, pc: u32, w: u32) {
    let got = decode_instruction(pc, w);
    if got.is_ok() { *n += 1; }
    if let Some(what) = decode_check(pc, w, got) {
        ctx.violation(format!("decode:{w:08x}@{pc:08x}"), json!({"word": format!("{w:#010x}"), "pc": format!("{pc:#x}"), "what": what}));
    }
}

pub fn r01(ctx: &Ctx) {
    // Words are split as (high 16 bits) x (low 16 bits).
    let pcs: &[u32] = ctx.pick(&[0x0001_0000], &[0, 4, 0x0001_0000, 0x7FFF_FFFC, 0x8000_0000, 0xFFFF_FFFC]);
    for &pc in pcs {
        ctx.par("all-words", 1 << 16, |hi, l| {
            let hi = (hi as u32) << 16;
            let mut ok = 0;
            for lo in 0..1u32 << 16 { one(ctx, &mut ok, pc, hi | lo); }
            l.add("transitions", ok);
            l.add("states", 1 << 16);
            l.add("traces_validated_against_impl", 1);
        });
    }
    // The pc only matters to pc-relative forms: every J/B/U immediate at every boundary pc.
    let bpcs: Vec<u32> = vec![0, 4, 0x800, 0xFFC, 0x1000, 0x000F_FFFC, 0x7FFF_F000, 0x7FFF_FFFC, 0x8000_0000, 0x8000_0004, 0xFFEF_FFFC, 0xFFFF_F000, 0xFFFF_FFF8, 0xFFFF_FFFC];
    ctx.par("pc-relative", bpcs.len() * 4, |i, l| {
        let pc = bpcs[i / 4];
        let n: u32 = 1 << 20;
        let mut ok = 0;
        for m in 0..n {
            let w = match i % 4 {
                0 => (m << 12) | (5 << 7) | 0x6f,
                1 => (m << 12) | (5 << 7) | 0x17,
                2 => (m << 12) | (5 << 7) | 0x37,
                _ => { let (a, b) = (m >> 8, m & 0xff); ((a & 0xfe0) << 20) | (6 << 20) | (5 << 15) | ((b % 8) << 12) | ((a & 0x1f) << 7) | 0x63 }
            };
            one(ctx, &mut ok, pc, w);
        }
        l.add("transitions", ok);
        l.add("states", u64::from(n)); l.add("traces_validated_against_impl", 1);
    });
    for w in [0x018B_80B3u32, 0xFFF0_0093, 0x0000_0073, 0x4020_D093, 0x8000_0063] {
        let d = format!("{:?}", decode_instruction(0, w));
        ctx.outcome(d.clone());
        ctx.sample(json!({"word": format!("{w:#010x}"), "decoded": d}));
    }
    for w in (0..1u32 << 15).map(|k| (k & 0x7f) | ((k >> 7 & 7) << 12) | ((k >> 10) << 25)) {
        ctx.outcome(match decode_instruction(0, w) { Ok(i) => format!("{:?}", i.op), Err(_) => "refused".into() });
    }
    ctx.info("exhaustive", true);
    ctx.info("bounds", format!("all 2^32 instruction words at pcs {pcs:x?}; all J/U immediates and B immediates at 14 boundary pcs"));
    ctx.info("oracle", "field-by-field decoder written from the ISA manual; other internal representations are judged by executing them");
    ctx.assume("FENCE.I/reserved MISC-MEM and SYSTEM encodings with non-zero rd/rs1 may be refused or treated as the base instruction");
}
