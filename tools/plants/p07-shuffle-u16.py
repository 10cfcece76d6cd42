PROP="C01"
NEEDS="a slice of more than 65536 elements"
BREAKS="the in-place shuffle draws its offset as a 16 bit number, so far positions are never drawn in long slices"
EDITS=[("src/learning/toolkit/rand_utils.rs","        let j = rng.gen_range(0, n - i);\n","        let j = if n - i > 0xffff { rng.gen::<u16>() as usize } else { rng.gen_range(0, n - i) };\n")]
DEMO='''
extern crate rusty_machine;
fn main() {
    let n = 400_000;
    for _ in 0..3 {
        let mut a: Vec<usize> = (0..n).collect();
        rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates(&mut a);
        if a[..1000].iter().any(|x| *x >= 66_600) { return; }
    }
    panic!("far elements never reach the front");
}
'''
