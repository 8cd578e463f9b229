mod merkle_mc;
mod calls_mc;
mod e2e_mc;
mod events_mc;
mod native;
mod tape_mc;
mod types_mc;
mod vm;

fn main() {
    mc::main_with(&[("K01", merkle_mc::k01), ("K02", events_mc::k02), ("K03", calls_mc::k03), ("K04", calls_mc::k04), ("K05", tape_mc::k05), ("K06", tape_mc::k06), ("K07", types_mc::k07), ("K08", types_mc::k08), ("K09", e2e_mc::k09), ("K10", tape_mc::k10)]);
}
