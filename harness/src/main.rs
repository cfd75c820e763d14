mod ctx;
mod p_arith;
mod p_bind;
mod p_sumcheck;
mod p_tracker;
mod sim;
mod iop;
mod p_advice;
mod p_iop;
mod p_malformed;
mod p_pcs;
mod p_query;
mod p_refuse;
mod p_serial;
mod p_sched;
mod refs;
mod run;

fn main() {
    let families: Vec<run::Family> = [p_arith::families(), p_sumcheck::families(), p_pcs::families(), p_malformed::families(), p_tracker::families(), p_iop::families(), p_advice::families(), p_sched::families(), p_refuse::families(), p_serial::families(), p_bind::families(), p_query::families()].concat();
    run::main(families)
}
