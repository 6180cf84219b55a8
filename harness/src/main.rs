fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = vh::harnesses().into_iter().find(|(n, _)| *n == a[1]).expect("harness").1;
    let v: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect();
    vh::sym::load(v);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| f());
    let mut fails = vh::sym::fails();
    if let Err(e) = r {
        if e.downcast_ref::<vh::sym::AssumeFailed>().is_some() {
            println!("ASSUME");
            return;
        }
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        fails.push(format!("panic: {}", m.replace('\n', " ")));
    }
    for f in &fails {
        println!("FAIL {f}");
    }
    if fails.is_empty() {
        println!("PASS");
    }
}
