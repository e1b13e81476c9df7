//! Native replay of a counterexample: replay HARNESS FILE, one hexadecimal byte string per line.
//! Runs under the guarding allocator of symx, so that memory errors show on the spot.
#[path = "../../symx/src/alloc.rs"]
#[allow(dead_code, static_mut_refs)]
mod alloc;
#[allow(dead_code)]
mod engine {
    pub struct St {
        pub calls: u64,
    }
    pub struct Eng {
        pub st: St,
    }
    pub fn eng() -> Eng {
        Eng { st: St { calls: 0 } }
    }
    pub fn violation(m: &str) -> ! {
        println!("REPRODUCED: {m}");
        std::process::exit(1)
    }
}
#[global_allocator]
static GLOBAL: alloc::Track = alloc::Track;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let v = txt
        .lines()
        .filter(|l| !l.starts_with('#') && !l.starts_with("harness") && !l.is_empty())
        .map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect())
        .collect();
    let mut rec = ptrcheck::Rec(v);
    std::panic::set_hook(Box::new(|i| {
        let _g = alloc::Set::to(false);
        engine::violation(&format!("{i}").replace('\n', " "))
    }));
    if !alloc::call(|| ptrcheck::run(&a[1], &mut rec)) {
        eprintln!("no harness {}", a[1]);
        std::process::exit(3);
    }
    alloc::check_released();
    if alloc::live() != 0 {
        engine::violation("memory was never released");
    }
    println!("NOT REPRODUCED");
}
