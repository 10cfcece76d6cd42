//! Checks on the modules that compile without linear algebra.
mod activ;
mod dist;
mod rnd;

#[global_allocator]
static ALLOC: mce::alloc::Poison = mce::alloc::Poison;

fn main() {
    mce::main_with(vec![rnd::permutation(), rnd::reservoir(), activ::activations(), dist::gaussian(), dist::exponential(), dist::sampling()])
}
