mod bridge;
mod decode_mc;
mod elf_mc;
mod io_mc;
mod prog_mc;
mod refvm;
mod single;

use decode_mc::decode_check;

fn main() {
    mc::main_with(&[
        ("R01", decode_mc::r01),
        ("R02", single::r02),
        ("R03", prog_mc::r03),
        ("R04", io_mc::r04),
        ("R05", prog_mc::r05),
        ("R06", io_mc::r06),
        ("R07", io_mc::r07),
        ("R08", prog_mc::r08),
        ("R09", elf_mc::r09),
        ("R10", io_mc::r10),
    ]);
}
