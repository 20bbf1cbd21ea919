//! replay HARNESS [name#k=value ...]: run one harness natively on concrete inputs.
mod registry;
use harness::vk::native;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = registry::ALL.iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    for x in &a[2..] {
        let (k, v) = x.split_once('=').unwrap();
        native::INPUT.with(|i| i.borrow_mut().insert(k.to_string(), v.to_string()));
    }
    std::panic::set_hook(Box::new(|i| {
        if native::CATCH.with(|c| *c.borrow()) == 0 {
            println!("PANIC {i}");
        } else if std::env::var("VP_TRACE").is_ok() {
            println!("CAUGHT {i}");
        }
    }));
    f();
    println!("DONE");
}
