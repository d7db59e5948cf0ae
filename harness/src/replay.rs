//! `replay HARNESS INPUT`: runs one harness natively on one counterexample.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = harness::HARNESSES
        .iter()
        .find(|(n, _)| *n == a[1])
        .expect("no such harness")
        .1;
    harness::native::load(&a[2]);
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    let panicked = std::panic::catch_unwind(|| h()).is_err();
    harness::native::finish(panicked);
}
